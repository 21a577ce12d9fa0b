"""C06 branch and bound: design checked by TLC, recorded runs of BnB checked against BranchBound.tla."""
import random

import numpy as np
from scipy.optimize import linprog

from common import tla, MachineryError
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import (Variable, IntegerVariable, BinaryVariable,
                                          DiscreteVariable)
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction, LinearObjective
from metku.optimization.solvers.optsolver import OptSolver
from metku.optimization.solvers.bnb import BnB

U = 100000      # units per 1.0


def q(x):
    return int(round(float(x) * U))


class Relaxation(OptSolver):
    """Exact solution of the continuous relaxation of a linear problem within
    the current variable bounds; records what it was asked."""

    def __init__(self, inst, allv, rec, snap):
        super().__init__()
        self.inst, self.allv, self.rec, self.snap = inst, allv, rec, snap

    def solve(self, problem, x0=None, verb=False, **kw):
        inst, av = self.inst, self.allv
        if x0 is not None:      # a start belongs to the free variables
            problem.substitute_variables(np.asarray(x0, dtype=float) + np.zeros(len([v for v in av if not v.locked])))
        lo = [v.value if v.locked else v.lb for v in av]
        hi = [v.value if v.locked else v.ub for v in av]
        A, b, Ae, be = [], [], [], []
        for c in inst['cons']:
            a = [float(t) for t in c['a']]
            if c['sense'] == '<':
                A.append(a), b.append(c['b'])
            elif c['sense'] == '>':
                A.append([-t for t in a]), b.append(-c['b'])
            else:
                Ae.append(a), be.append(c['b'])
        sign = -1.0 if inst['max'] else 1.0
        c = [sign * t for t in inst['c']]
        if any(l > h for l, h in zip(lo, hi)):
            ok, x = False, [float(t) for t in lo]
        else:
            r = linprog(c, A_ub=A or None, b_ub=b or None, A_eq=Ae or None, b_eq=be or None,
                        bounds=list(zip(lo, hi)), method='highs-ds')
            ok = r.status == 0
            if r.status not in (0, 2):
                raise MachineryError(f'linprog status {r.status}')
            x = [min(max(t, l), h) for t, l, h in zip(r.x, lo, hi)] if ok else [float(t) for t in lo]
        f = float(np.dot(c, x))
        ev = dict(op='solve', lo=[q(t) for t in lo], hi=[q(t) for t in hi], feas=ok,
                  x=[q(t) for t in x], f=q(f))
        ev.update(self.snap())
        self.rec.append(ev)
        self.feasible = ok
        self.result = type('Result', (), dict(success=ok, fun=f))()
        self.X = np.array([t for t, v in zip(x, av) if not v.locked])
        return (f if ok else np.inf), self.X


def spec_inst(inst):
    sign = -1 if inst['max'] else 1
    return dict(vals=[set(q(v) for v in vs) for vs in inst['vals']],
                lo=[min(q(v) for v in vs) for vs in inst['vals']],
                hi=[max(q(v) for v in vs) for vs in inst['vals']],
                c=[sign * c for c in inst['c']],
                cons=[dict(a=c['a'], b=q(c['b']), sense=c['sense']) for c in inst['cons']])


def generate(rng, n=None):
    n = n or rng.choice([1, 2, 2, 2, 3, 3])
    kinds, vals = [], []
    for _ in range(n):
        k = rng.choice(['int', 'int', 'disc', 'disc', 'disc', 'bin'])
        if k == 'int':
            lo = rng.randint(-2, 3)
            vs = list(range(lo, lo + rng.randint(2, 5)))
        elif k == 'bin':
            vs = [0, 1]
        else:
            vs = rng.sample([-1.5, 0.0, 0.3, 0.7, 1.1, 2.0, 2.4, 3.3, 5.0, 5.1, 8.2], rng.randint(2, 5))
        kinds.append(k), vals.append(vs)
    c = [rng.choice([-5, -3, -2, -1, 1, 2, 3, 4]) for _ in range(n)]
    cons = []
    pl = rng.choice([0, .5, .5, 1])
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        a = [rng.choice([-3, -2, -1, 0, 1, 1, 2, 3, 4]) for _ in range(n)]
        if not any(a):
            continue
        sense = rng.choice(['<', '>', '<', '>', '='])
        p = [rng.choice(vs) for vs in vals]           # a level some designs reach
        b = sum(s * t for s, t in zip(a, p))
        if sense != '=' and rng.random() < .6:
            b += rng.choice([-1.05, -.55, -.05, .05, .45])
        cons.append(dict(a=a, b=round(b, 2), sense=sense, lin=rng.random() < pl))
    return dict(kinds=kinds, vals=vals, c=c, cons=cons, max=rng.random() < .4,
                linobj=rng.random() < .5, x0=rng.random() < .6,
                prio=[rng.choice([0, 0, 1]) for _ in range(n)])


SPECIAL = [   # allowed value exactly at a rounded bound; values close to allowed ones; nothing feasible
    dict(kinds=['int'], vals=[[0, 1, 2, 3]], c=[1], cons=[dict(a=[3], b=3.0, sense='>', lin=True)], max=True,
         linobj=True, x0=False, prio=[0]),
    dict(kinds=['disc', 'int'], vals=[[0.3, 0.1, 0.7], [0, 1, 2, 3]], c=[-1, -1],
         cons=[dict(a=[10, 1], b=3.0, sense='<', lin=True)], max=False, linobj=True, x0=False, prio=[0, 0]),
    dict(kinds=['disc'], vals=[[2, 3, 1]], c=[1], cons=[dict(a=[1], b=2.0005, sense='>', lin=False)], max=False,
         linobj=False, x0=True, prio=[0]),
    dict(kinds=['disc', 'disc'], vals=[[1, 2], [1, 2]], c=[1, 1],
         cons=[dict(a=[2, 2], b=5.0, sense='=', lin=False)], max=False, linobj=True, x0=True, prio=[0, 0]),
    dict(kinds=['disc'], vals=[[1.0, 2.0, 4.0]], c=[1], cons=[dict(a=[1], b=4.5, sense='>', lin=True)], max=False,
         linobj=True, x0=False, prio=[0]),
    dict(kinds=['int', 'int'], vals=[[0, 1, 2, 3, 4], [0, 1, 2, 3, 4]], c=[-5, -4],
         cons=[dict(a=[6, 4], b=17.0, sense='<', lin=True), dict(a=[1, 2], b=6.0, sense='<', lin=False)], max=False,
         linobj=True, x0=False, prio=[0, 1]),
]


def build(inst):
    p = OptimizationProblem(name='bnb')
    av = []
    for j, (k, vs) in enumerate(zip(inst['kinds'], inst['vals'])):
        if k == 'int':
            v = IntegerVariable(f'x{j}', min(vs), max(vs))
        elif k == 'bin':
            v = BinaryVariable(f'x{j}')
        else:
            v = DiscreteVariable(f'x{j}', values=list(vs))
        v.branch_priority = inst['prio'][j]
        v.value = vs[0]
        p.add(v)
        av.append(v)
    typ = 'MAX' if inst['max'] else 'MIN'
    if inst['linobj']:
        p.add(LinearObjective('f', c=list(inst['c']), obj_type=typ, problem=p))
    else:
        p.add(ObjectiveFunction('f', lambda x, c=inst['c']: float(np.dot(c, x)), obj_type=typ, problem=p))
    for n, c in enumerate(inst['cons']):
        if c['lin']:
            p.add(LinearConstraint(a=list(c['a']), b=c['b'], con_type=c['sense'], name=f'g{n}', problem=p))
        else:
            p.add(NonLinearConstraint(lambda x, a=c['a'], b=c['b']: float(np.dot(a, x)) - b,
                                      con_type=c['sense'], name=f'g{n}', problem=p))
    return p, av


def run_one(chk, inst, idx):
    p, av = build(inst)
    rec = []
    solver = None

    def snap():
        if solver is None or solver.best_x is None or not np.isfinite(solver.best_f):
            return dict(best=[], bestf=0)
        return dict(best=[q(t) for t in solver.best_x], bestf=q(solver.best_f))
    before = [(v.lb, v.ub, v.locked) for v in av]
    cons = list(p.cons)
    lbs = Relaxation(inst, av, rec, snap)
    solver = BnB(p, lbs)
    x0 = np.array([float(vs[0]) for vs in inst['vals']]) if inst['x0'] else None
    ok, res = chk.guard('solve', solver.solve, p, x0=x0, maxiter=3000, limit=60, detail=dict(instance=inst))
    if not ok:
        return None
    f, x = res
    if x is None or not np.isfinite(f):
        e = dict(best=[], bestf=0)
    else:
        e = dict(best=[q(t) for t in x], bestf=q(f))
    after = [(v.lb, v.ub, v.locked) for v in av]
    e.update(op='end', restored=(before == after and list(p.cons) == cons
                                 and all(c.problem is p for c in cons) and p.obj.problem is p))
    rec.append(e)
    return rec


def run(chk):
    small = [dict(kinds=0, vals=[[0, 1, 2], [0, 1, 2]], c=[-3, -2], cons=[dict(a=[2, 1], b=3, sense='<')], max=False),
             dict(kinds=0, vals=[[0, 2, 3], [1, 2]], c=[1, 1], cons=[dict(a=[1, 1], b=3, sense='>')], max=False),
             dict(kinds=0, vals=[[0, 1, 2], [0, 1]], c=[2, 1], cons=[dict(a=[2, 2], b=3, sense='=')], max=True),
             dict(kinds=0, vals=[[0, 1], [0, 1], [0, 1]], c=[-1, -1, -1], cons=[dict(a=[1, 1, 1], b=2, sense='<')],
                  max=False)]
    chk.tlc('BranchBound', defs=dict(Insts=tla([spec_inst(i) for i in small]), Traces='<<>>', Mode='"design"'),
            spec='DesignSpec', view=None, emit=None, properties=['Finishes'],
            invariants=['NothingLost', 'Disjoint', 'IncumbentOk', 'EndsOptimal', 'NeverStuck'])
    n = chk.pick(350, 3000)
    insts = SPECIAL + [generate(chk.rng) for _ in range(n)]
    si, traces, used = [], [], []
    for i, inst in enumerate(insts):
        rec = run_one(chk, inst, i)
        if rec is None:
            if len(chk.violations) > 4:
                return
            continue
        si.append(spec_inst(inst))
        traces.append(dict(inst=len(si), events=rec))
        used.append(inst)
    chk.steps += sum(len(t['events']) for t in traces)
    for lo in range(0, len(traces), 400):
        part = traces[lo:lo + 400]
        ins = si[lo:lo + 400]
        part = [dict(t, inst=t['inst'] - lo) for t in part]
        r = chk.tlc('BranchBound', defs=dict(Insts=tla(ins), Traces=tla(part), Mode='"trace"'), timeout=1500)
        far = {}
        for l in r.lines:
            far[l['tr']] = max(far.get(l['tr'], 0), l['k'])
        for i, t in enumerate(part):
            chk.traces += 1
            got = far.get(i + 1, 0)
            if got < len(t['events']):
                e = t['events'][got]
                chk.violation(f'run/{e["op"]}', dict(
                    what=f'recorded run leaves the specification at event {got + 1} of {len(t["events"])}: {e}',
                    instance=used[lo + i], events=t['events'][:got + 1]))
    if traces:
        chk.samples.append(dict(instance=used[-1], events=traces[-1]['events'][:4]))
    chk.assumptions.append('relaxations are solved exactly (scipy HiGHS) by the lower-bounding solver handed to BnB')
