"""C05 template solver loop: every run of SolverLoop.tla scripted into OptSolver.solve."""
import numpy as np

from common import tla, key
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.solvers.optsolver import OptSolver

CONFIGS = {
    '1d_min': dict(n=1, lb=[0], ub=[4], moves=[(-2,), (-1,), (0,), (1,), (3,)], starts=[(0,), (2,), (6,)], maxiter=4,
                   l=[-3], q=[1], k=5, max=False, con=[dict(type='<', l=[20], k=-49)]),
    '1d_flat': dict(n=1, lb=[0], ub=[4], moves=[(-1,), (1,), (2,)], starts=[(0,), (4,), (-1,)], maxiter=4,
                    l=[1], q=[0], k=9998, max=False, con=[dict(type='>', l=[20], k=-31), dict(type='<', l=[10], k=-19)]),
    '2d_max': dict(n=2, lb=[0, -1], ub=[2, 1], moves=[(1, 0), (0, 1), (-1, -1), (0, 0), (2, -1)], starts=[(0, 0), (2, 1)],
                   maxiter=4, l=[2, 3], q=[-1, 0], k=0, max=True,
                   con=[dict(type='<', l=[20, 5], k=-24), dict(type='=', l=[0, 15], k=-6)]),
    '2d_eq': dict(n=2, lb=[0, 0], ub=[2, 2], moves=[(1, -1), (-1, 1), (1, 1), (0, -1)], starts=[(1, 1), (0, 2), (3, 3)],
                  maxiter=4, l=[-1, -2], q=[0, 0], k=7, max=False, con=[dict(type='=', l=[11, 11], k=-22)]),
    'free': dict(n=1, lb=[-2], ub=[2], moves=[(-1,), (1,), (0,), (4,)], starts=[(0,), (-2,)], maxiter=5,
                 l=[0], q=[1], k=0, max=False, con=[]),
    # grid of 5e-9 around 1: designs within the relative tolerance 1e-8 count as unchanged
    'fine': dict(n=1, lb=[200000000 - 50], ub=[200000000 + 50], moves=[(-1,), (1,), (3,), (-5,), (8,)],
                 starts=[(200000000,), (200000007,)], maxiter=4, unit=5e-9, finen=2,
                 l=[1], q=[0], k=-199999900, max=False, con=[dict(type='>', l=[10], k=-2000000043)]),
}
DEEP = {
    '1d_long': dict(n=1, lb=[0], ub=[4], moves=[(-2,), (-1,), (1,), (2,)], starts=[(0,), (2,), (6,)], maxiter=7,
                    l=[-3], q=[1], k=5, max=False, con=[dict(type='<', l=[20], k=-49)]),
    '2d_long': dict(n=2, lb=[0, -1], ub=[2, 1], moves=[(1, 0), (0, 1), (-1, -1), (0, 0), (2, -1)], starts=[(0, 0), (2, 1)],
                    maxiter=6, l=[2, 3], q=[-1, 0], k=0, max=True,
                    con=[dict(type='<', l=[20, 5], k=-24), dict(type='=', l=[0, 15], k=-6)]),
}


class Scripted(OptSolver):
    """A solver whose actions are the specification's."""

    def __init__(self, actions):
        super().__init__()
        self.actions, self.k, self.seen = actions, 0, []
        self.step_length, self.step_factor = 1.0, 0.1

    def take_action(self):
        self.seen.append(None if self.best_x is None else (float(self.best_f), [float(v) for v in self.best_x]))
        a = self.actions[self.k] if self.k < len(self.actions) else np.zeros(len(self.X))
        self.k += 1
        return np.array(a, dtype=float)


def problem(cfg, locked):
    p = OptimizationProblem(name='loop')
    n = cfg['n']
    if locked:        # a locked variable in front must not disturb anything
        z = Variable('z', 0, 9, value=7.0)
        p.add(z)
        z.lock()
    off = 1 if locked else 0
    u = float(cfg.get('unit', 1))
    for i in range(n):
        p.add(Variable(f'x{i}', cfg['lb'][i] * u, cfg['ub'][i] * u, value=cfg['lb'][i] * u))
    unit = p.con_tol / 10

    def lin(c, x):
        return unit * (c['k'] + sum(l * v / u for l, v in zip(c['l'], x[off:])))
    for j, c in enumerate(cfg['con']):
        if j % 2:
            p.add(LinearConstraint(a=[0] * off + [unit * l / u for l in c['l']], b=-unit * c['k'], con_type=c['type'], name='l'))
        else:
            p.add(NonLinearConstraint(lambda x, c=c: lin(c, x), con_type=c['type'], name='n'))
    p.add(ObjectiveFunction('f', lambda x: cfg['k'] + sum(cfg['l'][i] * x[off + i] / u + cfg['q'][i] * (x[off + i] / u) ** 2
                                                          for i in range(n)), obj_type='MAX' if cfg['max'] else 'MIN'))
    return p, unit


def one_run(chk, name, cfg, g, init, path, locked):
    u = float(cfg.get('unit', 1))
    acts = [[v * u for v in a['d']] for a, _ in path]
    end = g.states[path[-1][1]]
    p, unit = problem(cfg, locked)
    s = Scripted(acts)
    ok, res = chk.guard(f'{name}/solve', s.solve, p, x0=np.array(init['x'], dtype=float) * u, maxiter=cfg['maxiter'],
                        detail={'start': init['x'], 'moves': acts})
    if not ok:
        return
    d = dict(start=init['x'], moves=acts, locked=locked)
    exp = end['log']
    near = lambda a, b: len(a) == len(b) and np.allclose(a, b, rtol=1e-9, atol=1e-12 if u == 1 else 1e-4)
    nearx = lambda a, b: len(a) == len(b) and np.allclose(np.asarray(a) / u, b, rtol=1e-12, atol=1e-5)
    chk.steps += len(exp)
    chk.expect(s.k == len(exp), f'{name}/iterations', f'{s.k} iterations; specification: {len(exp)}', **d)
    for label, rec in (('problem.states', p.states), ('solver.xvals', [list(v) for v in s.xvals[1:]])):
        chk.expect(len(rec) == len(exp) and all(nearx(r, e['x']) for r, e in zip(rec, exp)),
                   f'{name}/history/{label}', f'{label} = {rec}; visited {[e["x"] for e in exp]}', **d)
    for label, rec in (('problem.fvals', p.fvals), ('solver.fvals', s.fvals[1:])):
        chk.expect(near(rec, [e['f'] for e in exp]), f'{name}/history/{label}',
                   f'{label} = {rec}; values {[e["f"] for e in exp]}', **d)
    chk.expect(len(p.gvals) == len(exp) and all(near(r, [v * unit for v in e['g']]) for r, e in zip(p.gvals, exp)),
               f'{name}/history/gvals', f'gvals = {p.gvals}; values {[e["g"] for e in exp]}', **d)
    chk.expect(p.num_iters == len(exp), f'{name}/num_iters', f'num_iters {p.num_iters} after {len(exp)}', **d)
    bf, bx = res
    if end['best']:
        chk.expect(near([bf], [end['best'][0]]) and nearx(bx, end['best'][1]), f'{name}/best',
                   f'reported best {bf} at {list(bx)}; best feasible visited {end["best"]}', **d)
        chk.expect(near([s.best_f], [bf]) and near(s.best_x, bx), f'{name}/best_attr', 'stored best differs', **d)
    else:
        # nothing feasible: the last design visited, as it is
        chk.expect(nearx(bx, end['x']) and near([bf], [exp[-1]['f']]), f'{name}/none_feasible',
                   f'reported {bf} at {list(bx)}; last design {end["x"]}', **d)
    # the incumbent during the run, as seen when each action was chosen
    for i, (a, t) in enumerate(path[:-1]):
        b = g.states[t]['best']
        seen = s.seen[i + 1] if i + 1 < len(s.seen) else 'missing'
        chk.expect((seen is None and not b) or (b and isinstance(seen, tuple) and near([seen[0]], [b[0]]) and nearx(seen[1], b[1])),
                   f'{name}/incumbent', f'incumbent after iteration {i + 1}: {seen}; specification: {b}', **d)


def run(chk):
    configs = dict(CONFIGS)
    if not chk.quick:
        configs.update(DEEP)
    for name, c in configs.items():
        defs = {'N': c['n'], 'Lb': tla(c['lb']), 'Ub': tla(c['ub']), 'MaxIter': c['maxiter'],
                'Moves': '{' + ', '.join(tla(m) for m in c['moves']) + '}',
                'Starts': '{' + ', '.join(tla(m) for m in c['starts']) + '}',
                'ObjL': tla(c['l']), 'ObjQ': tla(c['q']), 'ObjK': tla(c['k']), 'ObjMax': tla(c['max']),
                'Con': tla(c['con']), 'FineN': c.get('finen', 0)}
        g = chk.graph('SolverLoop', defs=defs, invariants=['BestIsBestFeasible', 'InBounds', 'StopsOnTime'],
                      properties=['BestNeverWorsens'], workers=4)
        runs = []
        for init in g.inits:
            stack = [(init, [])]
            while stack:
                u, path = stack.pop()
                if not g.out.get(u):
                    runs.append((g.states[init], path))
                    continue
                for a, t in g.out[u]:
                    stack.append((t, path + [(a, t)]))
        total = len(runs)
        chk.rng.shuffle(runs)
        runs = runs[:chk.pick(2500, 40000)]
        for i, (init, path) in enumerate(runs):
            one_run(chk, name, c, g, init, path, locked=bool(i % 3 == 2))
            chk.traces += 1
            if i == 0:
                chk.samples.append({'spec': name, 'start': init['x'], 'moves': [a['d'] for a, _ in path],
                                    'best': g.states[path[-1][1]]['best']})
            if len(chk.violations) > 12:
                break
        chk.notes.setdefault('runs', {})[name] = {'complete_runs': total, 'replayed': len(runs)}
