"""C08 penalty functions and multiplier updates (Penalty.tla)."""
import itertools

import numpy as np

from common import tla
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable, IntegerVariable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction

# bounds (None: unbounded), offered values per variable, constraints.  A
# variable offered outside its bounds (free in the constraints) has coefficient 0.
CONFIGS = {
    'bounds': dict(bnd=[(0, 2), (-1, None), (None, 1)], vals=[(-2, 0, 1, 3), (-2, -1, 4), (-3, 1, 2)],
                   con=[], obj=[1, -2, 3]),
    'senses': dict(bnd=[(-3, 3), (0, 2)], vals=[(-3, -1, 0, 1, 2), (-1, 1, 3)], obj=[2, 1],
                   con=[dict(sense='<', a=[1, 0], k=-1), dict(sense='>', a=[1, 0], k=1), dict(sense='=', a=[2, 0], k=0)]),
    'two': dict(bnd=[(-2, 2), (-2, 2)], vals=[(-2, 0, 1, 2), (-2, -1, 2)], obj=[-1, 4],
                con=[dict(sense='=', a=[1, 1], k=0), dict(sense='>', a=[2, -1], k=2), dict(sense='<', a=[1, 1], k=-2)]),
    'free': dict(bnd=[(None, None), (None, None)], vals=[(-2, 0, 3), (-1, 2)], obj=[0, 0],
                 con=[dict(sense='>', a=[1, 0], k=0), dict(sense='<', a=[-1, 2], k=-1)]),
}


class Adapter:
    def __init__(self, init, cfg, variant):
        p = OptimizationProblem(name='pen')
        self.av = []
        self.locked = variant == 'locked'
        if self.locked:
            z = Variable('z', 0, 1, value=5.0)       # its bounds do not count: not a free variable
            p.add(z)
            z.lock()
        for i, (lo, hi) in enumerate(cfg['bnd']):
            kw = {}
            if lo is not None:
                kw['lb'] = lo
            if hi is not None:
                kw['ub'] = hi
            v = (IntegerVariable if variant == 'int' and lo is not None and hi is not None else Variable)(f'x{i}', **kw)
            v.value = 0.0
            self.av.append(v)
            p.add(v)
        off = 1 if self.locked else 0
        p.add(ObjectiveFunction('f', lambda x: float(np.dot(cfg['obj'], x[off:])), problem=p))
        self.cons = []
        for i, c in enumerate(cfg['con']):
            if (i + (variant == 'int')) % 2:
                con = LinearConstraint(a=[0] * off + c['a'], b=-c['k'], con_type=c['sense'], problem=p)
            else:
                con = NonLinearConstraint(lambda x, c=c: float(np.dot(c['a'], x[off:])) + c['k'], con_type=c['sense'],
                                          problem=p)
            self.cons.append(con)
            p.add(con)
        self.p = p

    def apply(self, a):
        x = [float(t) for t in a['x']]
        op = a['op']
        if op == 'exact':
            return float(self.p.exact_penalty_fun(R=a['R'])(x))
        if op == 'exterior':
            return float(self.p.exterior_penalty_fun(R=a['R'])(x))
        if op == 'auglag':
            return float(self.p.augmented_lagrangian(Rineq=a['R'], Req=a['Re'])(x)) * 4 * a['R']
        self.p.update_lag_mult(x, Rineq=a['R'], Req=a['Re'])

    def project(self):
        return dict(mult=[float(c.mult) for c in self.cons], lbm=[float(v.lb_mult) for v in self.av],
                    ubm=[float(v.ub_mult) for v in self.av])


def run(chk):
    for name, c in CONFIGS.items():
        bnd = [dict(lo=lo or 0, hi=hi or 0, haslo=lo is not None, hashi=hi is not None) for lo, hi in c['bnd']]
        pts = [list(t) for t in itertools.product(*c['vals'])]
        g = chk.graph('Penalty', defs=dict(Con=tla(c['con']), Bnd=tla(bnd), Pts=tla(pts), ObjC=tla(c['obj']),
                                           Rs='{1, 3}' if chk.quick else '{1, 2, 3, 10}',
                                           MaxMult=str(chk.pick(3, 6))),
                      constraint='Bounded', invariants=['ZeroIffSatisfied', 'NonNegative'], workers=1)
        for variant in ('plain', 'int', 'locked'):
            mk = lambda init, v=variant: Adapter(init, c, v)
            chk.replay(mk, g.tours(chk.rng, 200, edge_budget=chk.pick(7000, None)), f'{name}/{variant}')
        chk.notes.setdefault('edges', {})[name] = g.n
