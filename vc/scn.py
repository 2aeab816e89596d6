"""Scenario registry."""
from itertools import product

REG = {}


class Scn:
    def __init__(self, prop, name, fn, params, sym, conc, trials, torch, stubs, extra, notes, cost, dims, quick, kernels, alarm=90):
        self.alarm = alarm
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.sym, self.conc, self.trials, self.torch = sym, conc, trials, torch
        self.stubs, self.extra, self.notes, self.cost, self.dims, self.quick, self.kernels = stubs, extra, notes, cost, dims, quick, kernels

    def instances(self, tier):
        ps = self.params
        if callable(ps):
            ps = ps(tier)
        if isinstance(ps, dict):
            keys = list(ps)
            ps = [dict(zip(keys, v)) for v in product(*[ps[k] for k in keys])]
        return ps or [{}]


def scenario(prop, params=None, sym=True, conc=True, trials=6, torch=False, stubs=None, extra=None, notes="", cost=1, dims=None,
             name=None, quick=True, kernels=False, alarm=90):
    props = prop if isinstance(prop, (list, tuple)) else [prop]

    def deco(fn):
        for p in props:
            REG.setdefault(p, []).append(Scn(p, name or fn.__name__, fn, params, sym, conc, trials, torch, stubs, extra, notes, cost,
                                             dims, quick, kernels, alarm))
        return fn
    return deco


def label(name, params):
    if not params:
        return name
    return name + "[" + ",".join(f"{k}={v}" for k, v in params.items()) + "]"
