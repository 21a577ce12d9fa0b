"""Adapter between Problem.tla and metku's OptimizationProblem (C02, C03, C19)."""
import numpy as np

from common import tla
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable, IntegerVariable, DiscreteVariable, IndexVariable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction, LinearObjective


def poly(F, D):
    n = len(D)
    return (F['k'] + sum(F['l'][i] * D[i] + F['q'][i] * D[i] * D[i] for i in range(n))
            + F['m'] * D[0] * D[1 if n > 1 else 0])


class Structure:
    """Stand-in structure: an analysis records the fields it was made for."""

    def __init__(self):
        self.results, self.calls = {}, []

    def calculate(self, load_id=None, *args, **kwargs):
        self.calls.append(load_id)
        self.results[load_id] = self.fields()

    def fields(self):
        return [getattr(self, f'f{i}') - off for i, off in enumerate(self.offset)]


def F(n, k=0, l=(), q=(), m=0):
    return dict(k=k, l=list(l) + [0] * (n - len(l)), q=list(q) + [0] * (n - len(q)), m=m)


def con(n, type, lin=False, fea=False, lids=(), bvar=0, **kw):
    return dict(type=type, lin=lin, fea=fea, lids=list(lids), bvar=bvar, f=F(n, **kw))


def defs(cfg):
    lids = set(cfg.get('lids', {'ALL'}))
    return {
        'N': cfg['n'], 'Dom': tla([set(s) for s in cfg['dom']]), 'Lb': tla(cfg['lb']), 'Ub': tla(cfg['ub']),
        'Out': tla(set(cfg.get('out', ()))) if cfg.get('out') else '{}', 'Kind': tla(cfg['kind']),
        'Start': tla(cfg['start']), 'Con': tla(cfg['con']),
        'Objf': tla({k: v for k, v in cfg['obj'].items() if k != 'linear'}),
        'Lids': tla({str(x) for x in lids}), 'PotTol4': 1,
        'Lockable': tla(set(cfg.get('lockable', range(1, cfg['n'] + 1)))) if cfg.get('lockable', True) else '{}',
        'Ops': tla(set(cfg['ops']))}


def tla_cfg(cfg):
    """Load cases are strings in the specification, whatever metku gets."""
    c = dict(cfg)
    c['con'] = [dict(x, lids=[str(l) for l in x['lids']]) for x in cfg['con']]
    return defs(c)


def snap(x):
    if x is None:
        return None
    x = float(x)
    r = round(x)
    return r if abs(x - r) < 2e-3 * max(1, abs(r)) else x


class Adapter:
    def __init__(self, cfg, init):
        self.cfg = cfg
        n = cfg['n']
        s = self.structure = Structure()
        s.offset = []
        self.n_eval = 0
        self.p = OptimizationProblem(name='p', structure=s)
        self.vars = []
        for i in range(n):
            kind, st = cfg['kind'][i], cfg['start'][i]
            tgt = {'property': f'f{i}', 'objects': [s]}
            if kind == 'cont':
                v = Variable(f'x{i}', cfg['lb'][i], cfg['ub'][i], target=tgt, value=st)
            elif kind == 'int':
                v = IntegerVariable(f'x{i}', cfg['lb'][i], cfg['ub'][i], target=tgt, value=st)
            elif kind == 'disc':
                v = DiscreteVariable(f'x{i}', values=sorted(cfg['dom'][i], reverse=True), target=tgt, value=st)
            else:
                v = IndexVariable(f'x{i}', values=[j + 5 for j in range(cfg['ub'][i] + 1)], target=tgt, value=st)
            off = 5 if kind == 'index' else 0
            s.offset.append(off)
            setattr(s, f'f{i}', st + off)
            self.vars.append(v)
            self.p.add(v)
        self.cons = []
        for c in cfg['con']:
            f = c['f']
            kw = {}
            if c['fea']:
                kw = dict(fea_required=True, load_ids=None if list(c['lids']) == ['ALL'] else list(c['lids']))
            if c['lin']:
                b = -f['k'] if not c['bvar'] else self.vars[c['bvar'] - 1]
                obj = LinearConstraint(a=f['l'], b=b, con_type=c['type'], name='lin')
            elif c['fea']:
                obj = NonLinearConstraint(
                    (lambda x, f=f, c=c: sum(poly(f, s.results[l]) if l in s.results else 999999
                                             for l in dict.fromkeys(c['lids']))),
                    con_type=c['type'], name='fea', **kw)
            else:
                obj = NonLinearConstraint((lambda x, f=f: poly(f, x)), con_type=c['type'], name='nl')
            self.cons.append(obj)
            self.p.add(obj)
        o = cfg['obj']
        typ = 'MAX' if o['max'] else 'MIN'
        if o.get('linear'):
            fun = LinearObjective('obj', o['f']['l'], typ)
        elif o['fea']:
            fun = ObjectiveFunction('obj', lambda x: poly(o['f'], s.results['ALL']) if 'ALL' in s.results else 999999,
                                    obj_type=typ, fea_required=True)
        else:
            fun = ObjectiveFunction('obj', lambda x: poly(o['f'], x), obj_type=typ)
        self.p.add(fun)

    def point(self, xs):
        self.n_eval += 1
        return np.array(xs, dtype=float) if self.n_eval % 3 else [float(x) for x in xs]

    def apply(self, a):
        p, op = self.p, a['op']
        before = len(self.structure.calls)
        out = {}
        if op == 'subst':
            p.substitute_variables(self.point(a['x']))
            out = {'X': [snap(x) for x in p.X]}
        elif op == 'direct':
            self.vars[a['v'] - 1].substitute(a['x'])
        elif op == 'lock':
            self.vars[a['v'] - 1].lock()
        elif op == 'lock_at':
            self.vars[a['v'] - 1].lock(a['x'])
        elif op == 'unlock':
            self.vars[a['v'] - 1].unlock()
        elif op == 'fea':
            if a['l'] == 'ALL':
                p.fea()
            else:
                p.fea(int(a['l']))
        elif op == 'con':
            g = self.cons[a['c'] - 1](self.point(a['x']))
            out = {'g': snap(g), 'pot': bool(self.cons[a['c'] - 1].potential)}
        elif op in ('cons', 'eq', 'ineq'):
            fn = {'cons': p.eval_cons, 'eq': p.eval_eq_con, 'ineq': p.eval_ineq_con}[op]
            out = {'g': [snap(g) for g in fn(self.point(a['x']))]}
        elif op == 'feasible':
            out = {'feas': bool(p.feasible(self.point(a['x'])))}
        elif op == 'obj':
            out = {'f': snap((p.obj.neg_call if a['neg'] else p.obj)(self.point(a['x'])))}
        elif op == 'linearize':
            A, B, df, fx = p.linearize(np.array(a['x'], dtype=float), only_potential=a['pot'])
            out = {'A': [[snap(x) for x in row] for row in np.atleast_2d(A)] if len(A) else [],
                   'B': [snap(x) for x in B], 'df': [snap(x) for x in df], 'fx': snap(fx)}
        calls = len(self.structure.calls) - before
        out['again'] = calls > a.get('maxfea', 0)
        return out

    def project(self):
        p = self.p
        # bookkeeping that must agree with itself whatever the specification state
        free = [v for v in self.vars if not v.locked]
        assert p.vars == free and p.all_vars == self.vars, 'free/all variable lists'
        assert p.locked_vars == [v for v in self.vars if v.locked], 'locked variable list'
        assert p.fixed_vals == [v.value if v.locked else None for v in self.vars], 'fixed values'
        assert p.nvars() == len(free) and list(p.var_values()) == [v.value for v in free], 'free values'
        assert list(p.xlb()) == [v.lb for v in free] and list(p.xub()) == [v.ub for v in free], 'free bounds'
        assert [list(b) for b in p.var_bounds()] == [[v.lb for v in free], [v.ub for v in free]], 'free bounds'
        assert p.num_fem_analyses == len(self.structure.calls), \
            f'{p.num_fem_analyses} analyses reported, {len(self.structure.calls)} made'
        return {'val': [snap(v.value) for v in self.vars], 'locked': [bool(v.locked) for v in self.vars],
                'fld': [snap(x) for x in self.structure.fields()]}


INV = ['DoneIsCurrent', 'InBounds']
PROP = ['EvaluationsAreFresh', 'LockedKept', 'NoRepeat']
