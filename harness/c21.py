"""C21 solvers of linear, sequentially linearised and convex problems (Solve.tla)."""
import contextlib
import io
import warnings

import numpy as np

from common import tla
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable, DiscreteVariable, IntegerVariable, BinaryVariable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction, LinearObjective
from metku.optimization.solvers.lp import LP
from metku.optimization.solvers.slp import SLP
from metku.optimization.solvers.mislp import MISLP
from metku.optimization.solvers.slsqp import SLSQP, COBYLA
from metku.optimization.solvers.trust_region import TrustRegionConstr
from metku.optimization.solvers.milp import MILP
from metku.optimization.solvers.mma import MMA
from metku.optimization.solvers.alm import ALM


def F(n, k=0, l=(), q=()):
    return dict(k=k, l=list(l) + [0] * (n - len(l)), q=list(q) + [0] * (n - len(q)))


def con(type, k, l, q=(), n=2):
    return dict(F(n, k, l, q), type=type)


def cfg(kind, n=2, U=12, lb=(0, 0), ub=(4, 4), dom=None, cons=(), obj=(), max=False, q=(), k=0, starts=((4, 4),), lockable=(),
        lim=(250, 250), limtype='range', halve=False, beta=10, pot=-1, maxit=5):
    return dict(Kind=kind, N=n, U=U, Lb=list(lb), Ub=list(ub), Dom=[set(d) for d in dom] if dom else [set()] * n,
                Con=[dict(c, l=c['l'][:n] + [0] * (n - len(c['l'])), q=c['q'][:n] + [0] * (n - len(c['q']))) for c in cons],
                Obj=dict(F(n, k, obj, q), max=max), Starts={tuple(s) for s in starts}, Lockable=set(lockable),
                Lim=list(lim), LimType=limtype, Halve=halve, Beta=beta, Pot=pot, MaxIt=maxit)


GRID = [(a, b) for a in (0, 2, 4) for b in (1, 3, 4)]
LPS = {
    'min': dict(cons=[con('>', -3, [1, 1]), con('<', -1, [1, -1])], obj=[2, 3]),
    'max': dict(cons=[con('<', -5, [1, 1]), con('<', -1, [-1, 1])], obj=[2, 3], max=True),
    'eq': dict(cons=[con('=', -3, [1, 1]), con('>', -1, [0, 1])], obj=[3, -1], k=0),
    'none': dict(cons=[con('>', -3, [1, 0]), con('<', -4, [1, 1]), con('>', -2, [0, 1])], obj=[1, 2]),
    'neg': dict(lb=(-2, -3), ub=(3, 1), cons=[con('>', 2, [1, -1]), con('<', -1, [2, 1])], obj=[-1, 2]),
    'box': dict(lb=(1, 2), ub=(3, 4), cons=[con('<', -20, [1, 1])], obj=[-1, 2], max=True),
    'three': dict(n=3, U=6, lb=(0, 0, 0), ub=(3, 2, 2), cons=[con('>', -3, [1, 1, 1], n=3), con('<', -1, [1, -1, 0], n=3)],
                  obj=[2, 3, 1], max=False),
}
SLPS = {
    'range': dict(cons=[con('>', -3, [1, 1]), con('<', -1, [1, -1])], obj=[2, 3], starts=GRID),
    'sum': dict(cons=[con('<', -5, [1, 1]), con('>', -1, [0, 1])], obj=[-3, -2], starts=GRID, lim=(500, 250)),
    'max': dict(cons=[con('<', -5, [1, 1]), con('<', -1, [-1, 1])], obj=[2, 3], max=True, starts=GRID, lim=(250, 500)),
    'eq': dict(cons=[con('=', -3, [1, 1]), con('>', -1, [0, 1])], obj=[3, -1], starts=GRID),
    'clash': dict(cons=[con('>', -3, [1, 0]), con('<', -2, [1, 0]), con('>', -2, [0, 1])], obj=[1, 2], starts=GRID),
    'relative': dict(cons=[con('>', -2, [1, 1]), con('<', -2, [1, -1])], obj=[2, 3], starts=[(2, 4), (4, 4), (4, 2), (2, 2)],
                     lim=(500, 250), limtype='relative', maxit=1),
    'halve': dict(cons=[con('>', -3, [1, 1])], obj=[2, 3], starts=[(4, 4), (0, 4), (4, 2)], halve=True, lim=(500, 500), maxit=3),
    'strict': dict(cons=[con('>', -3, [1, 1]), con('<', -1, [1, -1])], obj=[2, 3], starts=GRID, beta=0),
    'square': dict(lb=(1, 0), ub=(3, 4), cons=[con('<', -4, [0, -1], [1, 0])], obj=[-3, 1], starts=[(1, 3), (2, 4), (2, 1), (3, 4)],
                   lim=(500, 250), maxit=1),
    'curve': dict(lb=(1, 0), ub=(3, 4), cons=[con('>', -8, [0, 1], [1, 0])], obj=[3, 2], q=[0, 1],
                  starts=[(1, 3), (2, 4), (3, 1)], lim=(500, 500), maxit=1),
    'small': dict(beta=1, cons=[con('>', -3, [1, 1]), con('<', -2, [1, 0])], obj=[2, 3], starts=[(0, 1), (0, 3), (2, 0), (4, 4), (1, 1)]),
    'three': dict(n=3, U=4, lb=(0, 0, 0), ub=(4, 4, 4), cons=[con('>', -5, [1, 1, 1], n=3), con('<', -1, [1, -1, 0], n=3)],
                  obj=[2, 3, 1], starts=[(4, 4, 4), (0, 2, 4)], lockable={1, 3}, maxit=3),
}
D5 = [{0, 1, 2, 3, 4}, {0, 1, 2, 3, 4}]
GAPS = [{0, 1, 4}, {0, 2, 3, 4}]
MISLPS = {
    'gaps': dict(dom=GAPS, cons=[con('>', -3, [1, 1]), con('<', -1, [1, -1])], obj=[2, 3],
                 starts=[(a, b) for a in (0, 1, 4) for b in (0, 2, 4)], maxit=4),
    'max': dict(dom=GAPS, cons=[con('<', -6, [1, 1]), con('>', 1, [1, -1])], obj=[2, 3], max=True,
                starts=[(a, b) for a in (0, 4) for b in (0, 2, 4)], lim=(500, 250), maxit=4),
    'eq': dict(dom=D5, cons=[con('=', -4, [1, 1]), con('>', -1, [0, 1])], obj=[3, -1],
               starts=[(a, 4 - a) for a in range(5)] + [(0, 0)], maxit=4),
    'mixed': dict(dom=[{0, 1, 4}, set()], cons=[con('>', -3, [1, 1]), con('<', -1, [1, -1])], obj=[2, 3],
                  starts=[(0, 4), (4, 4), (1, 2), (0, 0)], maxit=4),
    'front': dict(dom=[set(), {0, 1, 4}], cons=[con('>', -3, [1, 1]), con('<', -1, [1, -1])], obj=[2, 3],
                  starts=[(0, 4), (4, 4), (2, 1)], maxit=4),
    'pot': dict(dom=GAPS, cons=[con('>', -3, [1, 1]), con('<', -1, [1, -1]), con('<', -3, [1, 0])], obj=[-2, 3], pot=3,
                starts=[(a, b) for a in (0, 1, 4) for b in (0, 2, 4)], maxit=3),
    'halve': dict(dom=D5, cons=[con('>', -3, [1, 1])], obj=[2, 3], lim=(500, 500), halve=True, beta=8,
                  starts=[(4, 4), (0, 4), (0, 1)], maxit=3),
    'clash': dict(dom=D5, cons=[con('>', -3, [1, 0]), con('<', -2, [1, 0]), con('>', -2, [0, 1])], obj=[1, 2],
                  starts=[(0, 0), (4, 4), (2, 3)], maxit=4),
    'locked': dict(n=3, U=4, dom=[{0, 1, 4}, {0, 2, 4}, set()], lb=(0, 0, 0), ub=(4, 4, 4), lockable={1, 2},
                   cons=[con('>', -5, [1, 1, 1], n=3), con('<', -1, [1, -1, 0], n=3)], obj=[2, 3, 1], starts=[(4, 4, 4), (0, 2, 3)],
                   maxit=3),
}
NLPS = {
    'min': dict(cons=[con('>', -3, [1, 1]), con('<', -1, [1, -1])], obj=[-2, -2], q=[1, 1]),
    'lin': dict(cons=[con('<', -8, [0, 0], [1, 1])], obj=[-1, -1], q=[0, 0], U=4),
    'eq': dict(cons=[con('=', -3, [1, 1]), con('<', -9, [0, 1], [1, 0])], obj=[-6, 0], q=[1, 2]),
    'max': dict(cons=[con('<', -5, [1, 1]), con('>', -8, [2, 4], [-1, 0])], obj=[8, 2], q=[-1, -1], max=True),
    'neg': dict(lb=(-2, -3), ub=(3, 1), cons=[con('<', -4, [0, 0], [1, 1])], obj=[2, 3], q=[1, 1], starts=[(1, 1), (3, -3)]),
    'bound': dict(lb=(1, 2), ub=(3, 4), cons=[con('<', -20, [1, 1])], obj=[0, 0], q=[1, 2], starts=[(3, 3), (1, 4)]),
    'none': dict(cons=[con('>', -3, [1, 0]), con('<', -4, [1, 1]), con('>', -2, [0, 1])], obj=[1, 2], q=[1, 1]),
    'three': dict(n=3, U=4, lb=(0, 0, 0), ub=(4, 4, 4), cons=[con('>', -4, [1, 1, 1], n=3), con('<', -6, [1, 0, 0], [0, 1, 0], n=3)],
                  obj=[0, -2, 0], q=[1, 1, 2], starts=[(4, 4, 4), (1, 2, 3)], lockable={1, 3}),
}


def build(c, start, locked, pot=True):
    p = OptimizationProblem(name='solve')
    vs = []
    for i in range(c['N']):
        d = sorted(c['Dom'][i])
        if d and c['Kind'] == 'lp':
            v = BinaryVariable(f'x{i}') if d == [0, 1] else IntegerVariable(f'x{i}', d[0], d[-1])
            v.value = start[i]
        elif d:
            v = DiscreteVariable(f'x{i}', values=d, value=start[i])
        else:
            v = Variable(f'x{i}', c['Lb'][i], c['Ub'][i], value=start[i])
        vs.append(v)
        p.add(v)

    def val(f, x):
        return f['k'] + sum(l * xi + q * xi * xi for l, q, xi in zip(f['l'], f['q'], x))
    for k in c['Con']:
        if any(k['q']):
            o = NonLinearConstraint(lambda x, k=k: val(k, x), con_type=k['type'], name='n')
        else:
            o = LinearConstraint(a=k['l'], b=-k['k'], con_type=k['type'], name='l')
        if c['Pot'] >= 0:
            o.pot_tol = c['Pot'] / 2
        p.add(o)
    o, t = c['Obj'], 'MAX' if c['Obj']['max'] else 'MIN'
    p.add(ObjectiveFunction('o', lambda x: val(o, x), obj_type=t) if any(o['q']) or o['k'] else LinearObjective('o', o['l'], obj_type=t))
    for i in locked:
        vs[i - 1].lock()
    return p, vs


@contextlib.contextmanager
def silent():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        yield


def solver(c):
    lim = [v / 1000 for v in c['Lim']]
    kw = dict(move_limits=lim, gamma=0.5 if c['Halve'] else 0, beta=c['Beta'], move_limit_type=c['LimType'])
    return SLP(**kw) if c['Kind'] == 'slp' else MISLP(only_potential=c['Pot'] >= 0, **kw)


class Adapter:
    """Iterates of SLP and MISLP, step by step."""

    def __init__(self, c, init):
        self.c, self.free = c, [i for i in range(c['N']) if i + 1 not in init['locked']]
        start = [v / c['U'] for v in init['x']]
        self.p, self.vs = build(c, start, init['locked'])
        self.s = solver(c)
        self.s.problem, self.x = self.p, list(init['x'])
        self.s.X = np.array([start[i] for i in self.free], dtype=float)
        self.p.substitute_variables(self.s.X)
        self.open = False

    def apply(self, a):
        with silent():
            d = self.s.take_action()
            state, *_ = self.s.step(d)
            self.p.substitute_variables(state)
        self.s.X = state
        u = [float(v) * self.c['U'] for v in state]
        y = list(self.x)
        for i, w in zip(self.free, u):
            y[i] = round(w)
            assert abs(w - y[i]) < 0.02, f'{w / self.c["U"]} is no vertex of the linearised problem at {self.x}'
        assert y in a['best'], f'step from {self.x} leads to {y} (units of 1/{self.c["U"]}); optimal: {a["best"]}'
        self.open = len(a['best']) > 1
        if not self.open:
            self.x = y

    def project(self):
        if self.open:
            return {}
        return {'x': [min(round(v.value * self.c['U']), 10 ** 6) for v in self.vs]}


INV, PROP = ['InBounds', 'OnValues'], ['LocksKept', 'Improves', 'Settled']


def sequential(chk, kind, name, c):
    label = f'{kind}/{name}'
    g = chk.graph('Solve', defs={k: tla(v) for k, v in c.items()}, invariants=INV, properties=PROP, workers=2, timeout=800)
    chk.notes.setdefault('edges', {})[label] = g.n
    chk.replay(lambda init: Adapter(c, init), g.tours(chk.rng, 60), label)
    # whole runs: iterates, best design
    for ks in g.inits:
        init, path, cur = g.states[ks], [], ks
        while g.out.get(cur):
            a, cur = g.out[cur][0]
            if g.states[cur]['open']:
                break
            path.append(g.states[cur]['x'])
        if not path:
            continue
        start = [v / c['U'] for v in init['x']]
        free = [i for i in range(c['N']) if i + 1 not in init['locked']]
        p, vs = build(c, start, init['locked'])

        def go():
            with silent():
                s = solver(c)
                return s, s.solve(p, x0=[start[i] for i in free], maxiter=len(path), log=True)
        ok, r = chk.guard(f'{label}/solve', go, detail=dict(init=init))
        chk.traces += 1
        if not ok:
            continue
        s, (f, x) = r
        want = [init['x']] + path
        for k, xv in enumerate(s.xvals):
            chk.expect(np.allclose(np.asarray(xv) * c['U'], [want[k][i] for i in free], atol=0.02), f'{label}/solve/iterate',
                       f'iterate {k} is {list(xv)}; specification {[want[k][i] / c["U"] for i in free]}', init=init, xvals=s.xvals)
            chk.steps += 1
        # stopping earlier is right only when two feasible iterates agree (x or objective)
        n = len(s.xvals) - 1
        if n < len(path):
            chk.expect(want[n] == want[n - 1] or abs(objective(c, want[n]) - objective(c, want[n - 1])) < 1e-3 * max(1, abs(objective(c, want[n - 1]))),
                       f'{label}/solve/stopped', f'stopped after {n} iterations', init=init, xvals=s.xvals)
        seen = [y for y in want[1:n + 1] if feasible(c, y)]
        if seen:
            best = min(objective(c, y) for y in seen)
            chk.expect(abs(f - best) < 1e-2, f'{label}/solve/best', f'best {f}; specification {best}', init=init)


def objective(c, y):
    o = c['Obj']
    return (-1 if o['max'] else 1) * value(o, [v / c['U'] for v in y])


def value(o, x):
    return o['k'] + sum(l * v + q * v * v for l, q, v in zip(o['l'], o['q'], x))


def feasible(c, y, x=None, tol=1e-9):
    x = [v / c['U'] for v in y] if x is None else x
    for k in c['Con']:
        g = value(k, x)
        if (k['type'] in '<=' and g > tol) or (k['type'] in '>=' and g < -tol):
            return False
    return True


def whole(chk, kind, name, c):
    g = chk.graph('Solve', defs={k: tla(v) for k, v in c.items()}, invariants=INV, workers=2, timeout=800)
    for ks, es in g.out.items():
        init, a = g.states[ks], es[0][0]
        if init['it']:
            continue
        start = [v / c['U'] for v in init['x']]
        free = [i for i in range(c['N']) if i + 1 not in init['locked']]
        fopt = a['f'] / c['U'] ** 2
        todo = [('LP', lambda p, x0: lp(LP('ortools'), p))] if kind == 'lp' else [
            ('MILP', lambda p, x0: lp(MILP(), p))] if kind == 'milp' else [
            ('SLSQP', lambda p, x0: nlp(SLSQP, p, x0)), ('COBYLA', lambda p, x0: nlp(COBYLA, p, x0)),
            ('TrustRegionConstr', lambda p, x0: nlp(TrustRegionConstr, p, x0)), ('MMA', lambda p, x0: mma(p, x0)),
            ('ALM', alm)]
        for sname, run in todo:
            p, vs = build(c, start, init['locked'])
            label, detail = f'{kind}/{name}/{sname}', dict(init=init, optimum=fopt, feasible=a['feas'])

            def go():
                with silent():
                    return run(p, np.array([start[i] for i in free], dtype=float))
            ok, r = chk.guard(label, go, detail=detail)
            chk.traces += 1
            if not ok:
                continue
            f, x, flag = r[:3]
            detail['result'] = [None if f is None else float(f), None if x is None else list(map(float, x)), flag]
            if not a['feas']:
                if flag is not None:
                    chk.expect(not flag, label + '/infeasible', 'reported a feasible design of a problem that has none', **detail)
                continue
            if flag is not None:
                chk.expect(flag, label + '/feasible', 'no feasible design found', **detail)
                if not flag:
                    continue
            full = list(start)
            for i, v in zip(free, x):
                full[i] = float(v)
            tol = {'LP': 1e-7, 'MILP': 1e-6, 'ALM': 5e-2}.get(sname, 1e-3)
            inb = all(c['Lb'][i] - tol <= full[i] <= c['Ub'][i] + tol for i in free)
            chk.expect(inb, label + '/bounds', f'design {full} out of bounds', **detail)
            inv = all(not d or min(abs(full[i] - e) for e in d) < 1e-6 for i, d in enumerate(c['Dom']))
            chk.expect(inv, label + '/values', f'design {full} is not made of allowed values', **detail)
            chk.expect(feasible(c, None, full, tol), label + '/constraints', f'design {full} violates a constraint', **detail)
            fx = (-1 if c['Obj']['max'] else 1) * value(c['Obj'], full)
            if f is not None:
                chk.expect(abs(f - fx) < 1e-6 * max(1, abs(fx)), label + '/objective', f'reports {f} at a design with {fx}', **detail)
            # iterative methods may stop on a small step: MMA when two iterates agree, trust region on its radius
            slack = {'TrustRegionConstr': 50, 'MMA': 10 if flag_steps(r) else 1e9}.get(sname, 10)
            chk.expect(fx <= fopt + slack * tol, label + '/optimum', f'objective {fx}; specification {fopt}', **detail)
            chk.steps += 1


def lp(s, p):
    s.solve(p)
    return None, s.X, bool(s.feasible)


def nlp(cls, p, x0, maxiter=200):
    s = cls()
    f, x = s.solve(p, x0=x0, maxiter=maxiter)
    return f, x, bool(s.feasible) if cls in (SLSQP, COBYLA, TrustRegionConstr) else None


def mma(p, x0, maxiter=60):
    s = MMA()
    f, x = s.solve(p, x0=x0, maxiter=maxiter)
    return f, x, None, len(s.xvals)


def flag_steps(r):
    return len(r) < 4 or r[3] > 3


def alm(p, x0):
    s = ALM(p)
    s.solve(x0, maxiter=40)
    return None, s.xvals[-1], None


MILPS = {
    'integer': dict(dom=[set(range(5)), set(range(5))], cons=[con('<', -5, [2, 1]), con('<', -7, [1, 2])], obj=[3, 2], max=True, U=2),
    'mixed': dict(dom=[set(range(5)), set()], cons=[con('>', -5, [2, 1]), con('<', -3, [1, 1])], obj=[3, 2], U=4),
    'binary': dict(n=3, U=4, lb=(0, 0, 0), ub=(1, 1, 4), dom=[{0, 1}, {0, 1}, set()],
                   cons=[con('<', 0, [-2, 0, 1], n=3), con('<', -3, [0, 2, 1], n=3), con('>', -1, [1, 1, 0], n=3)], obj=[-1, -1, 3],
                   max=True),
    'negative': dict(lb=(-3, -2), ub=(2, 3), dom=[set(range(-3, 3)), set(range(-2, 4))], U=2,
                     cons=[con('>', 3, [2, 1]), con('<', 1, [1, -2])], obj=[2, 1]),
    'equal': dict(dom=[set(range(5)), set(range(5))], cons=[con('=', -5, [2, 1])], obj=[1, -1], U=2),
    'none': dict(dom=[set(range(5)), set(range(5))], cons=[con('=', -5, [2, 4])], obj=[1, 1], U=2),
}


def run(chk):
    def milp_works():
        try:
            import gurobipy
            with silent():
                gurobipy.Model('probe')
            return True
        except Exception:
            return False
    if milp_works():
        for name, c in MILPS.items():
            n = c.get('n', 2)
            whole(chk, 'milp', name, cfg('lp', starts=[c.get('ub', (4, 4)), tuple(l + 1 for l in c.get('lb', (0, 0)))][:1 if n > 2 else 2],
                                         lockable={1, 2} if n == 2 else {2, 3}, **c))
    else:
        chk.notes['milp'] = 'gurobi is not usable here'
    for name, c in SLPS.items():
        sequential(chk, 'slp', name, cfg('slp', **c))
    for name, c in MISLPS.items():
        sequential(chk, 'mislp', name, cfg('mislp', **c))
    for name, c in LPS.items():
        n = c.get('n', 2)
        whole(chk, 'lp', name, cfg('lp', starts=[tuple(u for u in c.get('ub', (4, 4))), tuple(l + 1 for l in c.get('lb', (0, 0)))],
                                   lockable={1, 2} if n == 2 else {2, 3}, **c))
    for name, c in NLPS.items():
        kw = dict(starts=[(4, 4), (1, 2)], lockable={1, 2})
        kw.update(c)
        whole(chk, 'nlp', name, cfg('nlp', **kw))
