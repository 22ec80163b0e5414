#!/opt/venv/bin/python
"""decide one property:  check.py <id> [--tier quick|thorough] [-v] [--one] [--only scenario]"""
import argparse
import json
import os
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter('ignore')


def run_native(prop, pkg, items, timeout=300, env=None, wrap=(), pre=None):
    """run items natively; survives crashes. -> {id: result}"""
    out = {}
    todo = list(items)
    ev = dict(os.environ, OMP_NUM_THREADS='1')
    ev.update(env or {})
    while todo:
        try:
            r = subprocess.run([*wrap, PY, '-m', 'sym.replay', prop, pkg], input=json.dumps(todo), capture_output=True, text=True, cwd=HERE, env=ev, timeout=timeout, preexec_fn=pre)
            so, rc, se = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as x:
            so = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
            rc, se = 'timeout', ''
        for l in so.splitlines():
            if l.startswith('@@{'):
                d = json.loads(l[2:])
                d['stderr'] = se
                out[d['id']] = d
        if '@@END' in so:
            break
        rest = [t for t in todo if t['id'] not in out]
        if not rest:
            break
        if len(rest) == len(todo) and rc not in ('timeout',) and (not isinstance(rc, int) or rc >= 0):
            raise RuntimeError('native replay failed: ' + se[-2000:])
        # the first unfinished one died
        out[rest[0]['id']] = {'id': rest[0]['id'], 'failed': [], 'exc': f'process died ({rc})', 'crash': True, 'stderr': se}
        todo = rest[1:]
    return out


def known(prop):
    out = []
    p = f'{HERE}/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l[0] == '{':
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'open':
                    out.append(d)
    return out


def kf_match(k, v):
    return k['scenario'] == v['scenario'] and (k.get('case') is None or json.dumps(k['case']) == json.dumps(v['case'])) and k['msg'] in ('*', v['msg'])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--one', action='store_true', help='single process (debugging)')
    ap.add_argument('--only')
    ap.add_argument('--case', type=int)
    ap.add_argument('--nonative', action='store_true')
    ap.add_argument('--dump')
    ap.add_argument('--pkg')
    a = ap.parse_args()
    t0 = time.time()
    from sym import registry, build, load, explore, ir
    registry.load_props(a.prop)
    P = registry.REG[a.prop]
    explore.KNOWN = known(a.prop)
    if a.dump:
        ir.DUMP = a.dump
    budget = a.budget or (240 if a.tier == 'quick' else 780)
    nat = None
    rc = 0
    try:
        texts = build.to_ir(P.mods)
        tc = time.time() - t0
        if not a.nonative and not a.pkg:
            nat = build.Native(targets=None if len(P.mods) > 7 else P.mods).start(nice=10)
        if P.race:
            from sym import mach
            mach.WATCH['instr'] = True
        freud, tm = load.load(P.mods, texts)
        scens = []
        for s in P.scens:
            if a.only and s.name not in a.only.split(','):
                continue
            cs = s.cases(a.tier)
            if a.case is not None:
                cs = cs[a.case:a.case + 1]
            scens.append((s.name, s.fn, cs, s.opts))
        res = explore.explore(scens, freud, {'workers': 1 if a.one else 8}, budget)
        te = time.time() - t0
        if a.v or res.errors or res.unsupported:
            print(f'# paths {res.paths} pruned {res.pruned} checks {res.checks} ({res.triv} concrete) queries {res.q} solver {res.qt:.1f}s left {res.left} unknown {res.unknown} t {te:.1f}s {tm}')
            print('#', res.percase, res.reach, res.notes)
            empty = [s.name for s in P.scens if not res.percase.get(s.name)]
            if empty:
                print('# NO COMPLETE PATH IN', empty)
        for k, n in sorted(res.unsupported.items(), key=lambda x: -x[1])[:12]:
            print(f'# UNSUPPORTED x{n}: {k}')
        for e in res.errors[:5]:
            print('# ERROR', e)
        # replay
        viol, spurious, kf = [], [], []
        uniq = {}
        for v in res.viol + res.kviol[:8]:
            uniq.setdefault((v['scenario'], v['msg'][:80]), []).append(v)
        cand = []
        hangs = [v for v in res.viol if v['kind'] == 'hang'][:4]
        uniq = {k: vs for k, vs in ((k, [v for v in vs if v['kind'] != 'hang']) for k, vs in uniq.items()) if vs}
        for vs in uniq.values():
            cand += vs[:3]
        for i, v in enumerate(cand):
            v['id'] = i
            if a.v:
                print('# candidate', v['scenario'], v['case'], v['msg'], v['inputs'])
        samples = res.samples
        seen = {}
        keep = []
        for s in samples:
            seen[s['scenario']] = seen.get(s['scenario'], 0) + 1
            if seen[s['scenario']] <= (8 if a.tier == 'quick' else 40):
                keep.append(s)
        samples = keep
        validated = 0
        mism = []
        if not a.nonative and (cand or samples or hangs):
            pkg = a.pkg or nat.wait()
            for i, v in enumerate(hangs):
                v['id'] = i
                n = v['native'] = run_native(a.prop, pkg, [v], timeout=40, pre=lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))).get(i)
                if n and (n['failed'] or n['exc']):
                    viol.append(v)
            if cand:
                r = run_native(a.prop, pkg, cand, env={'MALLOC_PERTURB_': '165'})
                mem = []
                for v in cand:
                    n = r.get(v['id'])
                    v['native'] = n
                    if n and (n['failed'] or n['exc']):
                        viol.append(v)
                    elif v['kind'] == 'race':
                        v['native'] = {'note': 'the interleaving was not hit in the native runs; the conflicting accesses are those of the real code on these inputs'}
                        viol.append(v)
                    elif v['kind'] == 'memory' and not any(kf_match(k, v) for k in explore.KNOWN):
                        mem.append(v)
                    else:
                        spurious.append(v)
                for v in mem[:3]:
                    r = run_native(a.prop, pkg, [v], env={'PYTHONMALLOC': 'malloc'}, wrap=('valgrind', '-q', '--error-exitcode=0', '--num-callers=30'))
                    n = r.get(v['id'], {})
                    blocks = n.get('stderr', '').split('\n==')
                    bad = [b for b in n.get('stderr', '').split(' \n') if ('Invalid' in b or 'uninitialised' in b) and 'freud::' in b]
                    v['native'] = {'valgrind': bad[:2], 'exc': n.get('exc'), 'failed': n.get('failed')}
                    (viol if bad or n.get('crash') else spurious).append(v)
            for i, s in enumerate(samples):
                s['id'] = i
            r = run_native(a.prop, pkg, samples)
            for s in samples:
                n = r.get(s['id'])
                if n and not n['failed'] and not n['exc'] and not n.get('pruned'):
                    validated += 1
                else:
                    mism.append({**s, 'native': n})
        ks = explore.KNOWN
        real = []
        for v in viol:
            m = [k for k in ks if kf_match(k, v)]
            if m:
                kf.append((m[0], v))
            else:
                real.append(v)
        for v in mism:
            n = v['native'] or {}
            if n.get('failed') or n.get('exc'):
                v = dict(v, msg=(n.get('failed') or [n.get('exc')])[0], kind='native run of a solver-chosen input')
                if not any(kf_match(k, v) for k in ks):
                    real.append(v)
        for k in ks:
            hit = any(x is k for x, _ in kf)
            print(f'KNOWN-FINDING: property={a.prop} {k["what"]}' + (' (reproduced natively in this run)' if hit else ''))
        if real:
            rc = 1
            os.makedirs(f'{HERE}/evidence/replay', exist_ok=True)
            rp = f'{HERE}/evidence/replay/{a.prop}.json'
            with open(rp, 'w') as f:
                json.dump(real, f, indent=1, default=str)
            for v in real[:5]:
                print(f'# {v["scenario"]} case={json.dumps(v["case"])} inputs={json.dumps(v["inputs"])}: {v["msg"]}')
            print(f'VIOLATION property={a.prop} replay={rp}')
        elif res.errors and not res.paths:
            rc = 2
        for v in [x for x in spurious if not any(kf_match(k, x) for k in ks)][:5]:
            print('# not reproduced natively:', v['scenario'], json.dumps(v['case']), v['msg'], json.dumps(v['inputs']))
        for v in mism[:3]:
            print('# sample mismatch:', json.dumps({k: v[k] for k in ('scenario', 'case', 'inputs')}), v['native'])
        funcs = sorted(f for f in res.funcs if 'freud' in f)
        ev = {
            'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
            'coverage': {
                'states': res.paths, 'transitions': res.q, 'traces_validated_against_impl': validated,
                'samples': [{k: s[k] for k in ('scenario', 'case', 'inputs')} for s in samples[:6]] or [{'none': 'no completed path'}],
                'paths_completed': res.paths, 'paths_pruned_by_assumptions': res.pruned, 'paths_left_unexplored': res.left,
                'assertions_checked': res.checks, 'assertions_constant_on_their_path': res.triv,
                'solver_queries': res.q, 'solver_time_s': round(res.qt, 2), 'solver_unknown': res.unknown,
                'unsupported_paths': res.unsupported, 'paths_out_of_time': res.timeouts, 'spurious_candidates': len(spurious), 'notes': res.notes,
                'paths_per_scenario': res.percase, 'vacuity_witnesses': res.reach,
                'cases': {s[0]: len(s[2]) for s in scens}, 'bounds': P.bounds,
                'functions_encoded': funcs, 'ir_functions_translated': len(res.funcs), 'compile_s': round(tc, 2), 'explore_s': round(te - tc, 2),
                'meaning': 'states = feasible symbolic paths through the real code, each standing for every input that follows it; transitions = solver queries',
            },
            'assumptions': P.assumptions, 'wall_s': round(time.time() - t0, 2),
            'violations': len(real),
        }
        os.makedirs(f'{HERE}/evidence', exist_ok=True)
        with open(f'{HERE}/evidence/{a.prop}.json', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        st = 'VIOLATED' if rc == 1 else 'held' if rc == 0 else 'ERROR'
        print(f'{a.prop} {st}: {res.paths} paths, {res.checks} assertions, {res.q} queries, {validated}/{len(samples)} traces validated natively, {time.time() - t0:.1f}s'
              + (f', {res.timeouts} paths out of time' if res.timeouts else '')
              + (f', {res.left} work items left at the time limit' if res.left else ''))
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        if nat is not None:
            nat.close()
    sys.stdout.flush()
    os._exit(rc)


main()
