"""set up the symbolic freud package"""
import importlib
import sys
import time

from . import ir, nb, mach, build, explore
from . import symnp
from .symnp import NPX, sfloat, sint
from .val import H


class Boot:
    conc_ftoi = False
    """context while modules initialise: everything is concrete"""

    def decide(self, c):
        raise mach.Unsupported('symbolic branch during initialisation')

    conc = decide

    def mask_of(self, i):
        return None

    def note(self, s):
        pass


def load(mods, texts=None):
    t0 = time.time()
    texts = texts or build.to_ir(mods)
    t1 = time.time()
    P = ir.Prog()
    ir.PROG = P
    for name, t in texts:
        P.add(t, name)
    H.cur = Boot()
    P.call_ctors()
    ms = {}
    for m in nb.ALLMODS:
        if m in mods:
            ms[m] = nb.init_module(m)
        else:
            import types
            x = types.ModuleType('freud.' + m)
            x.__getattr__ = (lambda n, m=m: nb.Missing(f'{m}.{n}') if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n)))
            ms[m] = x
    sys.meta_path.insert(0, nb.Finder(ms))
    symnp.patch_fft()
    symnp.patch_images()
    sys.path.insert(0, build.REPO)
    sys.dont_write_bytecode = True
    import freud
    for n, m in list(sys.modules.items()):
        if n.startswith('freud.') and not n.startswith('freud._') and m is not None:
            if getattr(m, 'np', None) is not None:
                m.np = NPX
            m.__dict__.setdefault('float', sfloat)
            m.__dict__.setdefault('int', sint)
    H.cur = None
    explore.snapshot()
    return freud, {'compile_s': t1 - t0, 'load_s': time.time() - t1}
