"""registry of properties and their scenarios"""
import importlib
import json
import os

REG = {}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['box', 'locality', 'density', 'cluster', 'pmft', 'order', 'environment', 'diffraction', 'pure', 'system', 'parallel']
ALL = ['_box', '_locality', '_util', '_parallel']


class Scen:
    def __init__(self, name, fn, quick, thorough, opts):
        self.name = name
        self.fn = fn
        self.quick = list(quick)
        self.thorough = list(thorough if thorough is not None else quick)
        self.opts = opts

    def cases(self, tier):
        return self.quick if tier == 'quick' else self.thorough

    def case_of(self, c):
        """the case object matching a (json round-tripped) case"""
        k = json.dumps(c)
        for x in self.quick + self.thorough:
            if json.dumps(x) == k:
                return x
        return c


class Prop:
    def __init__(self, pid, mods):
        self.id = pid
        self.mods = list(dict.fromkeys(ALL + list(mods)))
        self.scens = []
        self.assumptions = []
        self.bounds = ''


def prop(pid, mods=(), bounds='', assumptions=(), race=False):
    p = REG.get(pid)
    if p is None:
        p = REG[pid] = Prop(pid, mods)
    if bounds:
        p.bounds = bounds
    p.assumptions = list(assumptions)
    p.race = race
    return p


def scen(pid, cases=(None,), thorough=None, **opts):
    def d(fn):
        REG[pid].scens.append(Scen(fn.__name__, fn, cases, thorough, opts))
        return fn
    return d


def load_props(pid=None):
    for m in MODULES:
        if os.path.exists(f'{HERE}/props/{m}.py'):
            importlib.import_module('props.' + m)
            if pid is not None and pid in REG:
                return
