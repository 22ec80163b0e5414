"""native side: run scenarios against the real package (subprocess). stdin: one json list of items"""
import importlib
import json
import os
import sys
import traceback


def main():
    prop, pkg = sys.argv[1], sys.argv[2]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, here)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    items = json.loads(sys.stdin.read())
    from sym import explore
    from sym.registry import REG, load_props
    load_props(prop)
    sys.path.insert(0, pkg)
    import importlib.abc, importlib.machinery, types

    class Stub(importlib.abc.MetaPathFinder, importlib.abc.Loader):
        """extension modules that this property does not need are not built"""
        def find_spec(self, name, path, target=None):
            return importlib.machinery.ModuleSpec(name, self) if name.startswith('freud._') else None

        def create_module(self, spec):
            m = types.ModuleType(spec.name)
            m.__getattr__ = lambda n: type(n, (), {}) if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n))
            return m

        def exec_module(self, m):
            pass
    sys.meta_path.append(Stub())
    import freud
    import freud.box
    assert os.path.realpath(freud.__file__).startswith(os.path.realpath(pkg)), freud.__file__
    freud.parallel.set_num_threads(1)
    p = REG[prop]
    fns = {s.name: s for s in p.scens}
    for it in items:
        s = fns[it['scenario']]
        case = s.case_of(it['case'])
        e = explore.NEnv(case, it['inputs'], freud)
        r = {'id': it['id'], 'failed': [], 'exc': None}
        try:
            s.fn(e)
        except explore.PathEnd:
            r['pruned'] = True
        except BaseException as x:
            tb = traceback.extract_tb(x.__traceback__)
            r['exc'] = f'{type(x).__name__}: {str(x)[:300]}'
            r['tb'] = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-4:])
        r['failed'] = e.failed
        r['nchecks'] = e.nchecks
        print('@@' + json.dumps(r), flush=True)
    print('@@END', flush=True)


main()
