"""C04 feasibility verdicts and activity flags (Feasibility.tla)."""
import itertools

from common import tla
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.solvers.optsolver import OptSolver

CTOK = [-1000, -11, -10, -9, 0, 9, 10, 11, 1000]
PTOK = [-1000, -101, -100, -99, 99, 100, 101, 1000]

COEF = [[64.0, -3.0], [0.0, 0.0], [0.25, 8.0], [-1.0, 512.0]]


class Adapter:
    def __init__(self, init, variant):
        self.linear, self.con_tol, self.pot_tol = variant
        self.sense = init['sense']
        self.p = OptimizationProblem(name='f')
        self.p.add(Variable('x', -10, 10, value=0.0))
        self.p.add(Variable('y', -10, 10, value=0.0))
        if self.con_tol is not None:
            self.p.con_tol = self.con_tol
        self.g = [0.0] * len(self.sense)
        self.cons = []
        for i, s in enumerate(self.sense):
            if self.linear[i % len(self.linear)]:
                c = LinearConstraint(a=COEF[(i + len(self.sense)) % len(COEF)], b=0.0, con_type=s, name=f'c{i}')
            else:
                c = NonLinearConstraint(lambda x, i=i: self.g[i], con_type=s, name=f'c{i}')
            if self.pot_tol is not None:
                c.pot_tol = self.pot_tol
            self.cons.append(c)
            self.p.add(c)
        self.s = OptSolver()
        self.s.problem = self.p
        self.k = 0

    def value(self, tok, con):
        n, u = tok
        tol, unit = (self.p.con_tol, 10) if u == 'c' else (con.pot_tol, 100)
        return tol if n == unit else -tol if n == -unit else n * tol / unit

    def set(self, i, tok, x):
        c = self.cons[i]
        self.g[i] = self.value(tok, c)
        if isinstance(c, LinearConstraint):
            # exact in binary for the values at the tolerances
            c.b = sum(a * v for a, v in zip(c.a, x)) - self.g[i]

    def apply(self, a):
        self.k += 1
        x = [1.0 + self.k % 3, 0.5 * (self.k % 2)]
        if a['op'] == 'one':
            i = a['i'] - 1
            self.set(i, a['t'], x)
            v = self.cons[i](x)
            return a['t'] if abs(v - self.g[i]) <= 1e-11 else [v, 'value']
        for i, t in enumerate(a['g']):
            self.set(i, t, x)
        self.p.substitute_variables(x)
        at_current = bool(self.p.feasible())
        at_x = bool(self.p.feasible(x))
        sx = bool(self.s.is_feasible(x))
        st = bool(self.s.is_feasible())
        return {'at_x': at_x, 'at_current': at_current, 'solver_at_x': sx, 'solver_stored': st}

    def project(self):
        return {'pot': [bool(c.potential) for c in self.cons]}


def run(chk):
    tok = [(n, 'c') for n in CTOK] + [(n, 'p') for n in PTOK]
    two = [list(s) for s in itertools.product('<>=', repeat=2)]
    three = [list(s) for s in itertools.product('<>=', repeat=3)]
    one = [[s] for s in '<>=']
    few = [(-11, 'c'), (-10, 'c'), (10, 'c'), (11, 'c'), (-101, 'p'), (101, 'p')]
    runs = [('one', one, tok), ('two', two, tok), ('three', three, few)]
    if not chk.quick:
        runs.append(('four', [list(s) for s in itertools.product('<>=', repeat=4)], few))
    for name, cases, tokens in runs:
        g = chk.graph('Feasibility', defs={'Cases': '{' + ', '.join(tla(c) for c in cases) + '}',
                                           'Tokens': '{' + ', '.join(tla(t) for t in tokens) + '}'},
                      properties=['InactiveIsSatisfied'], workers=1)
        for variant in [((False,), None, None), ((True, False), 2.0 ** -10, 0.5), ((True,), 2.0 ** -12, 1.0)]:
            mk = lambda init, v=variant: Adapter(init, v)
            chk.replay(mk, g.tours(chk.rng, 200, edge_budget=chk.pick(30000, None)), name)
        chk.notes.setdefault('edges', {})[name] = g.n
