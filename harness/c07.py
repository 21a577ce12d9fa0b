"""C07 discrete variables: every query of Discrete.tla put to the real variables."""
import numpy as np

from common import tla
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import (Variable, IntegerVariable, BinaryVariable, BooleanVariable,
                                          IndexVariable, DiscreteVariable)
from metku.optimization.constants import INT_TOL, DISC_TOL

U = 100000


def units(x):
    return int(round(float(x) * U))


def val(n):
    return n // U if n % U == 0 else n / U


CONFIGS = {
    'disc': [dict(kind='disc', vals=[200000, 50000, 330000, 120000], custom=[(60000, 330000), (50000, 200000), (120000, 120000)]),
             dict(kind='disc', vals=[-150000, 0, 400], custom=[(-20000, 400)])],
    'close': [dict(kind='disc', vals=[100000, 100050, 100300, 500000], custom=[(100050, 500000)])],
    'ints': [dict(kind='int', lo=0, hi=4, custom=[(100000, 300000), (50000, 350000)]),
             dict(kind='bin'), dict(kind='int', lo=-3, hi=-1, custom=[])],
    'mixed': [dict(kind='index', n=4, custom=[(100000, 200000)]), dict(kind='disc', vals=[710000, 230000], custom=[]),
              dict(kind='bool')],
    'single': [dict(kind='disc', vals=[250000], custom=[]), dict(kind='int', lo=2, hi=2, custom=[])],
}
DEEP = {
    'long': [dict(kind='disc', vals=[10000 * i * i for i in range(9)], custom=[(40000, 250000), (45000, 490000)]),
             dict(kind='int', lo=-2, hi=12, custom=[(0, 700000), (350000, 1150000)])],
}


def descriptor(d):
    k = d['kind']
    if k == 'disc':
        vals, tol, vtol = d['vals'], units(INT_TOL), units(DISC_TOL)
    else:
        lo, hi = {'bin': (0, 1), 'bool': (0, 1), 'index': (0, d.get('n', 1) - 1)}.get(k, (d.get('lo'), d.get('hi')))
        vals, tol, vtol = [U * i for i in range(lo, hi + 1)], units(INT_TOL), units(INT_TOL)
    s = sorted(vals)
    toks = set()
    for v in s:
        for dlt in (0, 1, tol - 1, tol + 1, vtol - 1, vtol + 1):
            toks |= {v - dlt, v + dlt}
    for a, c in zip(s, s[1:]):
        toks |= {(a + c) // 2 + 3, a + (c - a) // 4}
    toks |= {s[0] - 70001, s[-1] + 70001}
    # keep off the exact edge of either tolerance, and off ties of the violation
    toks = [t for t in sorted(toks) if all(abs(abs(t - v) - e) > 0 for v in s for e in (tol, vtol))]
    return dict(kind=k, vals=vals, tol=tol, vtol=vtol,
                bnds=[(s[0], s[-1])] + list(d.get('custom', [])), toks=toks)


class Adapter:
    def __init__(self, init, cfg, ds):
        self.ds = ds
        self.p = OptimizationProblem(name='d')
        self.v = []
        lk = Variable('locked', 0, 5, value=2.0)      # must not shift anything
        self.p.add(lk)
        lk.lock()
        for i, (d, s) in enumerate(zip(cfg, ds)):
            k = d['kind']
            if k == 'disc':
                v = DiscreteVariable(f'v{i}', values=[val(n) for n in s['vals']])
            elif k == 'bin':
                v = BinaryVariable(f'v{i}')
            elif k == 'bool':
                v = BooleanVariable(f'v{i}')
            elif k == 'index':
                v = IndexVariable(f'v{i}', values=[f'p{j}' for j in range(d['n'])])
            else:
                v = IntegerVariable(f'v{i}', d['lo'], d['hi'])
            self.v.append(v)
            self.p.add(v)

    def apply(self, a):
        op = a['op']
        if op == 'bounds':
            v = self.v[a['v'] - 1]
            v.lb, v.ub = (val(n) for n in a['b'])
            return None
        if op == 'hood':
            x = [val(n) for n in a['x']]
            pts = [list(t) for t in self.p.discrete_neighborhood(x, a['k'])]
            sets = [sorted({units(t[i]) for t in pts}, key=lambda u, i=i: abs(u - a['x'][i])) for i in range(len(x))]
            full = 1
            for s in sets:
                full *= len(s)
            if len(pts) != full or len({tuple(t) for t in pts}) != full:
                return 'not the product of the neighbours'
            for i, s in enumerate(sets):
                lo, hi = self.bounds(i)
                if any(u not in self.ds[i]['vals'] or not lo <= u <= hi for u in s):
                    return ['not allowed', i, s]
            return [[abs(u - a['x'][i]) for u in s] for i, s in enumerate(sets)]
        if op == 'random':
            for _ in range(a['n']):
                x = self.p.random_values()
                if len(x) != len(self.v):
                    return ['length', len(x)]
                for i, t in enumerate(x):
                    lo, hi = self.bounds(i)
                    if units(t) not in self.ds[i]['vals'] or not lo <= units(t) <= hi:
                        return ['not allowed', i, float(t)]
            return 'allowed'
        v, x = self.v[a['v'] - 1], val(a['x'])
        if op == 'allowed':
            return bool(v.is_allowed_value(x))
        if op == 'violation':
            return units(v.discrete_violation(x))
        if op == 'smaller':
            return units(v.smaller_discrete_value(x))
        return units(v.larger_discrete_value(x))

    def bounds(self, i):
        return units(self.v[i].lb), units(self.v[i].ub)

    def project(self):
        return {'b': [list(self.bounds(i)) for i in range(len(self.v))]}


def run(chk):
    cfgs = dict(CONFIGS)
    if not chk.quick:
        cfgs.update(DEEP)
    for name, cfg in cfgs.items():
        ds = [descriptor(d) for d in cfg]
        hoods = []
        for _ in range(chk.pick(40, 300)):
            hoods.append(dict(x=[chk.rng.choice(d['toks']) for d in ds], k=chk.rng.choice([1, 2, 2, 3, 5])))
        # equally near neighbours leave a choice: only distances are compared
        g = chk.graph('Discrete', defs=dict(Var=tla(ds), Hoods=tla(hoods), Draws=str(chk.pick(12, 60))),
                      invariants=['AcceptedIsExact', 'RoundedIsNearest', 'SplitLosesNothing'], workers=1)
        mk = lambda init, cfg=cfg, ds=ds: Adapter(init, cfg, ds)
        chk.replay(mk, g.tours(chk.rng, 300), name)
        chk.notes.setdefault('edges', {})[name] = g.n
