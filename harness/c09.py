"""C09 swarm and genetic runs: scripted and real runs checked against Swarm.tla."""
import random

import numpy as np

from common import tla
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable, IntegerVariable, DiscreteVariable, IndexVariable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.solvers.optsolver import G_TOL
from metku.optimization.solvers.pso import PSO
from metku.optimization.solvers.ga import GA

U = 1000000


class Instance:
    """A problem with its own evaluation of objective and violation."""

    def __init__(self, spec):
        self.s = spec
        self.p = OptimizationProblem(name='pop')
        self.off = 0
        if spec.get('locked'):
            z = Variable('z', 0, 100, value=3.0)
            self.p.add(z)
            z.lock()
            self.off = 1
        self.vars = []
        for i, v in enumerate(spec['vars']):
            if v['kind'] == 'disc':
                w = DiscreteVariable(f'x{i}', values=list(v['vals']))
            elif v['kind'] == 'int':
                w = IntegerVariable(f'x{i}', v['lo'], v['hi'])
            elif v['kind'] == 'index':
                w = IndexVariable(f'x{i}', values=[f'P{j}' for j in range(v['hi'] + 1)])
            else:
                w = Variable(f'x{i}', v['lo'], v['hi'])
            self.p.add(w)
            self.vars.append(w)
        self.calls = []          # (iteration, design)
        self.p.add(ObjectiveFunction('f', self.obj, obj_type='MAX' if spec['max'] else 'MIN', problem=self.p))
        for i, c in enumerate(spec['cons']):
            self.p.add(NonLinearConstraint(lambda x, c=c: self.g(c, x[self.off:]), con_type=c['sense'], problem=self.p))
        self.lo = [v['lo'] if v['kind'] != 'disc' else min(v['vals']) for v in spec['vars']]
        self.hi = [v['hi'] if v['kind'] != 'disc' else max(v['vals']) for v in spec['vars']]
        self.hook = None

    def obj(self, x):
        x = [float(t) for t in x[self.off:]]
        if self.hook:
            self.hook()
        self.calls.append((self.p.num_iters, tuple(x)))
        return self.f(x)

    def f(self, x):
        return float(sum(q * (t - m) ** 2 + l * t for q, m, l, t in zip(self.s['q'], self.s['m'], self.s['l'], x)))

    def g(self, c, x):
        return float(np.dot(c['a'], x)) + c['k']

    def minf(self, x):
        return -self.f(x) if self.s['max'] else self.f(x)

    def viols(self, x):
        res = []
        for c in self.s['cons']:
            g = self.g(c, x)
            res.append(max(g, 0) if c['sense'] == '<' else max(-g, 0) if c['sense'] == '>' else abs(g))
        return res

    def viol(self, x):
        return sum(self.viols(x)) + sum(max(l - t, 0) + max(t - h, 0) for t, l, h in zip(x, self.lo, self.hi))

    def fitness(self, x):
        if self.s.get('weak'):
            return self.minf(x) + self.s['weak'] * sum(min(v, 100) for v in self.viols(x))
        return self.minf(x) + 2e6 * sum(min(v, 100) ** 2 for v in self.viols(x))


class Trace:
    def __init__(self, inst, f, g):
        self.inst, self.fun, self.gun = inst, f, g
        self.ids, self.x = {}, []

    def id(self, x, add=True):
        t = tuple(float(v) for v in x)
        if t not in self.ids:
            if not add:
                return 0
            self.ids[t] = len(self.x) + 1
            self.x.append(t)
        return self.ids[t]

    def finish(self, rounds):
        fs = [self.fun(x) for x in self.x]
        gs = [self.gun(x) for x in self.x]
        # equal up to rounding counts as equal
        def ranks(vals, zero):
            res = {}
            r, last = 0, None
            for v in sorted(set(vals)):
                if zero and v <= G_TOL:
                    res[v] = 0
                    continue
                if last is None or v - last > 1e-9 * max(1.0, abs(v)):
                    r += 1
                    last = v
                res[v] = r
            return [res[v] for v in vals]
        vs = self.inst.s['vars']
        kinds, vals = [], []
        for v in vs:
            if v['kind'] == 'cont':
                kinds.append('cont'), vals.append([])
            else:
                kinds.append('disc')
                vals.append([int(round(t * U)) for t in (v['vals'] if v['kind'] == 'disc' else range(v['lo'], v['hi'] + 1))])
        return dict(f=ranks(fs, False), g=ranks(gs, True), x=[[int(round(t * U)) for t in x] for x in self.x],
                    lo=[int(round(t * U)) for t in self.inst.lo], hi=[int(round(t * U)) for t in self.inst.hi],
                    kind=kinds, vals=vals, rounds=rounds)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def trace_pso(inst, solver, res):
    """Rounds of a swarm run from its stored populations and the evaluations seen."""
    t = Trace(inst, inst.minf, inst.viol)
    rounds, by = [], {}
    for it, x in inst.calls:
        by.setdefault(it, []).append(x)
    n = len(solver.xvals)
    for r in range(n):
        pop, gb = solver.xvals[r], solver.fvals[r]
        seen = by.get(r, [])
        pos = [[t.id(p.x)] for p in pop]
        # what is stored is what was evaluated
        ok = set(tuple(float(v) for v in p.x) for p in pop) == set(seen)
        for p in pop:
            if t.id(p.best, False) and not close(p.best_f, inst.minf(p.best)):
                ok = False
            if not close(p.scv, inst.viol(p.x)) or not close(p.fval, inst.minf(p.x)):
                ok = False
        rounds.append(dict(pos=pos, pb=[t.id(p.best, False) for p in pop], gb=t.id(gb, False), truthful=bool(ok)))
    f, x = res
    last = dict(rounds[-1])
    last.update(pos=[[] for _ in last['pos']], gb=t.id(x, False),
                truthful=bool(t.id(x, False) and (inst.viol(x) > G_TOL or close(f, inst.minf(x)))))
    rounds.append(last)
    return t.finish(rounds)


def trace_ga(inst, snaps, res):
    t = Trace(inst, inst.fitness, lambda x: 0.0)
    by = {}
    for it, x in inst.calls:
        by.setdefault(it, []).append(x)
    its = sorted(by)
    rounds = []
    for n, it in enumerate(its):
        pos = [t.id(x) for x in by[it]]
        # the best known when the next round starts (or at the end)
        f, x = snaps[its[n + 1]] if n + 1 < len(its) else res
        gid = t.id(x, False)
        rounds.append(dict(pos=[pos], pb=[], gb=gid, truthful=bool(gid and close(f, inst.fitness(x)))))
    return t.finish(rounds)


class ScriptedPSO(PSO):
    def __init__(self, moves, **kw):
        super().__init__(**kw)
        self.moves = moves

    def update_velocity(self, part, verb=False, part_nd=0):
        i = [n for n, p in enumerate(self.swarm) if p is part][0]
        part.v = np.array(self.moves[self.problem.num_iters][i], float) - part.x

    def craziness(self, part):
        pass


def scripted(chk, spec, points, moves):
    inst = Instance(spec)
    script = [[points[d - 1] for d in m] for m in moves]
    first = list(script[0])
    inst.p.random_values = lambda: np.array(first.pop(0), float)
    s = ScriptedPSO(script, pop_size=len(script[0]), crazy_prob=-1)
    ok, res = chk.guard('scripted', s.solve, inst.p, maxiter=len(moves) - 1, detail=dict(moves=moves, problem=spec))
    if not ok:
        return None
    chk.steps += len(moves)
    if not chk.expect(len(s.xvals) == len(moves), 'scripted/rounds',
                      f'{len(s.xvals)} populations stored for {len(moves)} rounds', moves=moves):
        return None
    return trace_pso(inst, s, res)


def generate(rng, ga):
    n = rng.choice([1, 2, 2, 3])
    kinds = ['index', 'int'] if ga and rng.random() < .7 else ['cont', 'disc', 'int', 'disc']
    if ga:
        kinds = [k for k in kinds if k != 'disc']      # genes of a discrete variable are not rounded by GA
    vs = []
    for i in range(n):
        k = rng.choice(kinds)
        if k == 'disc':
            vs.append(dict(kind=k, vals=rng.sample([-2.0, -1.25, 0.5, 1.0, 1.75, 3.5, 4.0, 6.25], rng.randint(2, 5))))
        elif k == 'index':
            vs.append(dict(kind=k, lo=0, hi=rng.randint(1, 5)))
        else:
            lo = rng.randint(-3, 2)
            vs.append(dict(kind=k, lo=lo, hi=lo + rng.randint(1, 5)))
    cons = []
    for _ in range(rng.choice([0, 1, 1, 2, 2])):
        sense = rng.choice('<>') if n == 1 or rng.random() < .8 else '='
        cons.append(dict(sense=sense, a=[rng.choice([-2, -1, 1, 1, 3]) for _ in range(n)],
                         k=rng.choice([-4, -2, -1, 0, 1, 2, 20, -20]) + rng.choice([0, .05, -.05] if not ga else [0, .05, -.05, .02, -.02, .09])))
    return dict(vars=vs, cons=cons, max=rng.random() < .4, locked=rng.random() < .3,
                q=[rng.choice([0, 1, 2, -1]) for _ in range(n)], m=[rng.choice([0, 1, 2.5]) for _ in range(n)],
                l=[rng.choice([-3, 0, 1, 4, .3, -.2]) for _ in range(n)])


def check_traces(chk, traces, label, info):
    for lo in range(0, len(traces), 400):
        part = traces[lo:lo + 400]
        r = chk.tlc('Swarm', defs=dict(Mode='"trace"', NP='1', FT='<<>>', GT='<<>>', MaxRounds='0', Traces=tla(part)),
                    timeout=1500)
        far = {}
        for l in r.lines:
            far[l['tr']] = max(far.get(l['tr'], 0), l['k'])
        for i, t in enumerate(part):
            chk.traces += 1
            got = far.get(i + 1, 0)
            if got < len(t['rounds']):
                e = t['rounds'][got]
                chk.violation(f'{label}/round', dict(
                    what=f'bests are not truthful in round {got + 1} of {len(t["rounds"])}: {e} '
                         f'(designs {t["x"][:12]}, objective ranks {t["f"][:12]}, violation ranks {t["g"][:12]})',
                    problem=info[lo + i], trace=dict(t, rounds=t['rounds'][:got + 1])))


def run(chk):
    import warnings
    warnings.filterwarnings('ignore')
    gen = np.random.Generator(np.random.PCG64(chk.seed))
    np.random.default_rng = lambda *a, **k: gen           # solvers draw from it: make runs repeatable
    np.random.seed(chk.seed)
    random.seed(chk.seed)
    # scripted rounds: all visits of the design graph
    tables = [
        (dict(vars=[dict(kind='disc', vals=[0.0, 1.0, 2.0, 3.0])], cons=[dict(sense='<', a=[1], k=-2)], max=False,
              q=[0], m=[0], l=[-1]), [[0.0], [1.0], [2.0], [3.0]]),
        (dict(vars=[dict(kind='cont', lo=0, hi=3)], cons=[dict(sense='>', a=[1], k=-2)], max=True,
              q=[1], m=[1], l=[0], locked=True), [[0.0], [1.5], [2.0], [3.0]]),
        (dict(vars=[dict(kind='disc', vals=[0.0, 2.0]), dict(kind='disc', vals=[5.0, 7.0])],
              cons=[dict(sense='=', a=[1, 1], k=-8)], max=False, q=[0, 0], m=[0, 0], l=[1, 1]),
         [[0.0, 5.0], [2.0, 5.0], [0.0, 7.0], [2.0, 7.0]]),
    ]
    traces, info = [], []
    for spec, points in tables:
        inst = Instance(spec)
        fs = [inst.minf(p) for p in points]
        gs = [inst.viol(p) for p in points]
        ft = [sorted(set(fs)).index(f) + 1 for f in fs]
        gt = [0 if g <= G_TOL else sorted(set(gs)).index(g) + 1 for g in gs]
        r = chk.tlc('Swarm', defs=dict(Mode='"design"', NP='2', FT=tla(ft), GT=tla(gt),
                                       MaxRounds=str(chk.pick(3, 4)), Traces='<<>>'),
                    invariants=['Truth'], properties=['Monotone'], workers=4)
        moves = [l['moves'] for l in r.lines]
        moves.sort()
        n = chk.pick(250, 1500)
        if len(moves) > n:
            moves = chk.rng.sample(moves, n)
        for m in moves:
            t = scripted(chk, spec, points, m)
            if t is None:
                if len(chk.violations) > 3:
                    return
                continue
            traces.append(t)
            info.append(dict(problem=spec, moves=m))
    check_traces(chk, traces, 'scripted', info)
    # real runs
    traces, info = [], []
    for i in range(chk.pick(180, 1400)):
        spec = generate(chk.rng, False)
        inst = Instance(spec)
        s = PSO(pop_size=chk.rng.choice([2, 4, 7]), crazy_prob=chk.rng.choice([0.1, 0.9]))
        ok, res = chk.guard('pso', s.solve, inst.p, maxiter=chk.rng.choice([3, 8, 15]), detail=dict(problem=spec))
        if not ok:
            if len(chk.violations) > 3:
                return
            continue
        chk.steps += len(inst.calls)
        traces.append(trace_pso(inst, s, res))
        info.append(spec)
    check_traces(chk, traces, 'pso', info)
    if traces:
        chk.samples.append(dict(problem=info[0], rounds=traces[0]['rounds'][:3]))
    traces, info = [], []
    from deap import tools
    for i in range(chk.pick(180, 1400)):
        spec = generate(chk.rng, True)
        inst = Instance(spec)
        kw = {}
        if chk.rng.random() < .5:
            w = spec['weak'] = chk.rng.choice([1.5, 8.0])
            kw['penalty'] = lambda g, w=w: w * float(sum(min(max(v, 0), 100) for v in g))
        if len(spec['vars']) == 1:
            kw.update(crossover_fun=lambda a, b: (a, b), crossover_kwargs={})
        s = GA(pop_size=chk.rng.choice([3, 4, 8]), mutation_rate=chk.rng.choice([.1, .6]),
               mutation_fun=tools.mutUniformInt,
               mutation_kwargs=dict(low=[int(v['lo']) for v in spec['vars']], up=[int(v['hi']) for v in spec['vars']],
                                    indpb=.5), **kw)
        snaps = {}

        def hook(inst=inst, s=s, snaps=snaps):
            it = inst.p.num_iters
            if it not in snaps:
                snaps[it] = (s.best_f, None if s.best_x is None else list(s.best_x))
        inst.hook = hook
        x0 = [v['lo'] for v in spec['vars']] if chk.rng.random() < .3 else None
        ok, res = chk.guard('ga', s.solve, inst.p, x0=x0, maxiter=chk.rng.choice([3, 8, 15]), detail=dict(problem=spec))
        if not ok:
            if len(chk.violations) > 3:
                return
            continue
        chk.steps += len(inst.calls)
        traces.append(trace_ga(inst, snaps, res))
        info.append(spec)
    check_traces(chk, traces, 'ga', info)
