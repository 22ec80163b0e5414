"""compile /repo's current sources: to LLVM IR for the executor, and natively for replays"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')     # overridden only while developing, to try changes in a scratch copy
FD = REPO + '/freud'
OUT = {'_box': ['box', 'util/export'], '_parallel': ['parallel'], '_util': ['util'], '_cluster': ['cluster'], '_density': ['density'], '_diffraction': ['diffraction'],
       '_environment': ['environment'], '_locality': ['locality'], '_order': ['order'], '_pmft': ['pmft']}
# need Eigen, fsph or voro++, whose sources are not in this checkout
SKIP = {'Voronoi', 'diagonalize', 'StaticStructureFactorDirect', 'MatchEnv', 'LocalDescriptors', 'Nematic', 'Steinhardt', 'SolidLiquid', 'Wigner3j'}
SUBS = ['.', 'box', 'cluster', 'density', 'diffraction', 'environment', 'locality', 'order', 'parallel', 'pmft', 'util']


def sources(mods):
    out = []
    for m in mods:
        d = {'_box': 'box', '_parallel': 'parallel', '_util': 'util'}.get(m, m[1:])
        for f in sorted(glob.glob(f'{FD}/{d}/*.cc')):
            b = os.path.basename(f)[:-3].replace('export-', '')
            if b in SKIP:
                continue
            out.append(f)
    return out


LEFT = {'_locality': ['Voronoi'], '_environment': ['MatchEnv', 'LocalDescriptors'], '_order': ['Nematic', 'Steinhardt', 'SolidLiquid'], '_diffraction': ['StaticStructureFactorDirect']}


def stub_source(mods, d):
    """the export functions of the classes that cannot be compiled here"""
    out = []
    for m in mods:
        if m not in LEFT:
            continue
        ns = {'_locality': 'locality', '_environment': 'environment', '_order': 'order', '_diffraction': 'diffraction'}[m]
        p = f'{d}/left{m}.cc'
        with open(p, 'w') as f:
            f.write('#include <nanobind/nanobind.h>\n')
            for n in LEFT[m]:
                f.write(f'namespace freud {{ namespace {ns} {{ namespace detail {{ void export_{n}(nanobind::module_&) {{}} }} }} }}\n')
        out.append(p)
    return out


def flags():
    f = ['-std=gnu++17', '-O2', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
         '-w', '-isystem', f'{VERIF}/shim', '-isystem', f'{REPO}/extern']
    for s in SUBS:
        f += ['-I', f'{FD}/{s}']
    return f


def to_ir(mods, jobs=8):
    """-> list of (name, ir text)"""
    d = tempfile.mkdtemp(prefix='vir')
    try:
        srcs = sources(mods) + stub_source(mods, d)
        fl = flags()

        def one(s):
            o = f'{d}/{os.path.relpath(s, "/").replace("/", "_")}.ll'
            x, more = s, []
            if 'cyl_bessel_j' in open(s).read():
                # the branches for gcc, which the real build takes, with the Bessel function left to the executor
                x = o[:-3] + '.cc'
                with open(x, 'w') as f:
                    f.write(f'#line 1 "{s}"\n' + open(s).read().replace('__clang__', '__verif_clang__'))
                more = ['-I', os.path.dirname(s), '-include', f'{VERIF}/shim/special.h']
            r = subprocess.run(['clang++-18'] + fl + more + ['-S', '-emit-llvm', x, '-o', o], capture_output=True, text=True)
            if r.returncode:
                return s, None, r.stderr
            return s, open(o).read(), ''
        srcs.sort(key=lambda s: -os.path.getsize(s))
        with cf.ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(one, srcs))
        bad = [(s, e) for s, t, e in rs if t is None]
        if bad:
            raise RuntimeError('cannot translate: ' + '\n'.join(f'{s}: {e[:1500]}' for s, e in bad))
        return [(os.path.basename(s), t) for s, t, e in rs]
    finally:
        shutil.rmtree(d)


class Native:
    """native build of the current tree, in a scratch directory, started in the background"""

    def __init__(self, keep=None, targets=None):
        self.dir = keep or tempfile.mkdtemp(prefix='vnat')
        self.proc = None
        self.targets = targets

    def start(self, nice=5, jobs=8):
        d = self.dir
        os.makedirs(f'{d}/pkg/freud', exist_ok=True)
        for f in glob.glob(f'{FD}/*.py'):
            shutil.copy(f, f'{d}/pkg/freud/')
        tg = ''.join(f' --target {t}' for t in (self.targets or []))
        cmd = f'''. /opt/vp/env.sh; set -e
/usr/bin/cmake -G Ninja -S {REPO} -B {d}/b -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS='-O1 -fno-fast-math' -DCMAKE_C_FLAGS=-O1 -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DPython_EXECUTABLE=/opt/venv/bin/python -DCMAKE_EXPORT_COMPILE_COMMANDS=OFF -DCMAKE_PROJECT_freud_INCLUDE=/opt/vp/cmake/partial.cmake -DCMAKE_LIBRARY_OUTPUT_DIRECTORY={d}/pkg/freud
/usr/bin/cmake --build {d}/b -j {jobs}{tg}
'''
        self.log = open(f'{d}/log', 'w')
        self.proc = subprocess.Popen(['nice', '-n', str(nice), 'bash', '-c', cmd], stdout=self.log, stderr=self.log)
        return self

    def wait(self, timeout=800):
        if self.proc is None:
            self.start(nice=0)
        r = self.proc.wait(timeout=timeout)
        if r:
            raise RuntimeError('native build failed: ' + open(f'{self.dir}/log').read()[-2000:])
        return f'{self.dir}/pkg'

    def close(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.terminate()
            self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
