"""C20 CONLIN and MMA approximations (Approximation.tla)."""
import numpy as np

from common import tla
from problem import F, con, poly, snap, Structure
from metku.optimization.structopt import OptimizationProblem
from metku.optimization.variables import Variable
from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
from metku.optimization.objective import ObjectiveFunction
from metku.optimization.opt_functions import MMAFunction, Linearize, NumGrad, conlin_fun, mma_fun
from metku.optimization.solvers.mma import MMAProblem

BASE = dict(n=2, dom=[{2, 3, 4}, {2, 4}], lb=[1, 1], ub=[5, 6], start=[3, 2], lockable={1, 2})
CONFIGS = {
    'conlin': dict(BASE, kinds={'conlin'}, asym={(0, 6)}, mu={10},
                   con=[con(2, '<', k=-5, l=[2, -7], q=[1, 0]), con(2, '>', k=1, l=[-4, 1], m=1),
                        con(2, '<', lin=True, k=-6, l=[1, 2]), con(2, '=', lin=True, bvar=2, l=[3, 0])],
                   obj=dict(f=F(2, 1, [1, -10], [2, 0], 1), max=False)),
    'mma': dict(BASE, kinds={'mma'}, asym={(0, 6), (-2, 5)}, mu={10},
                con=[con(2, '<', k=-5, l=[2, -7], q=[1, 0]), con(2, '>', lin=True, l=[1, 2], bvar=1)],
                obj=dict(f=F(2, 1, [1, -10], [2, 0], 1), max=True)),
    'mma80': dict(BASE, kinds={'mma'}, asym={(0, 6), (1, 5)}, mu={25, 80}, dom=[{2, 3}, {2}], lockable={2},
                  con=[con(2, '=', k=-5, l=[2, -7], q=[1, 0]), con(2, '>', lin=True, l=[1, 2])],
                  obj=dict(f=F(2, 1, [1, -10], [2, 0], 1), max=False)),
    'mmaproblem': dict(BASE, kinds={'mmaproblem'}, asym={(0, 6), (-2, 5)}, mu={10}, lb=[1, -3],
                       con=[con(2, '<', k=-5, l=[2, -7], q=[1, 0]), con(2, '<', lin=True, k=-6, l=[1, 2])],
                       obj=dict(f=F(2, 1, [1, -10], [2, 0], 1), max=False)),
    'linear': dict(BASE, kinds={'conlin', 'mma', 'mmaproblem'}, asym={(0, 6)}, mu={20}, dom=[{2, 3}, {2, 4}],
                   con=[con(2, '<', lin=True, k=-6, l=[1, 2])], obj=dict(f=F(2, 1, [1, -10], [2, 0], 1), max=False)),
    # constraints that read a structural analysis
    'fea': dict(BASE, kinds={'conlin', 'mma', 'mmaproblem'}, asym={(0, 6)}, mu={20}, dom=[{2, 3}, {2, 4}],
                con=[con(2, '<', fea=True, lids=['ALL'], k=-5, l=[2, -7], q=[1, 0]), con(2, '>', lin=True, k=-6, l=[1, 2])],
                obj=dict(f=F(2, 1, [-3, 10]), max=False)),
    'three': dict(n=3, dom=[{2, 4}, {3}, {2, 3}], lb=[1, 1, 2], ub=[5, 6, 4], start=[2, 3, 3], lockable={1, 2, 3},
                  kinds={'conlin', 'mmaproblem'}, asym={(0, 6)}, mu={20},
                  con=[con(3, '<', k=-5, l=[2, -7, 4], q=[1, 0, -1]), con(3, '<', lin=True, k=-6, l=[1, 2, -3])],
                  obj=dict(f=F(3, 1, [1, -10, 5], [2, 0, 0], 1), max=False)),
}
DEEP = {
    'three_mma': dict(n=3, dom=[{2, 4}, {3, 4}, {2, 3}], lb=[1, 1, 2], ub=[5, 6, 4], start=[2, 3, 3], lockable={1, 3},
                      kinds={'conlin', 'mma'}, asym={(0, 6), (1, 5)}, mu={20},
                      con=[con(3, '<', k=-5, l=[2, -7, 4], q=[1, 0, -1]), con(3, '<', lin=True, k=-6, l=[1, 2, -3])],
                      obj=dict(f=F(3, 1, [1, -10, 5], [2, 0, 0], 1), max=False)),
}
K = 360


def defs(cfg):
    return {'N': cfg['n'], 'Dom': tla([set(s) for s in cfg['dom']]), 'Lb': tla(cfg['lb']), 'Ub': tla(cfg['ub']),
            'Start': tla(cfg['start']),
            'Con': tla([{k: v for k, v in c.items() if k != 'lids'} for c in cfg['con']]), 'Objf': tla(cfg['obj']),
            'Asym': tla(cfg['asym']), 'Kinds': tla(cfg['kinds']), 'Mu': tla(cfg['mu']),
            'Lockable': tla(cfg['lockable']), 'K': K}


class Adapter:
    def __init__(self, cfg, init, grads):
        self.cfg, n = cfg, cfg['n']
        s = self.s = Structure()
        s.offset = [0] * n
        self.p = OptimizationProblem(name='p', structure=s)
        self.vars = []
        for i in range(n):
            v = Variable(f'x{i}', cfg['lb'][i], cfg['ub'][i], value=cfg['start'][i],
                         target={'property': f'f{i}', 'objects': [s]})
            setattr(s, f'f{i}', cfg['start'][i])
            self.vars.append(v)
            self.p.add(v)
        for c in cfg['con']:
            f = c['f']
            if c['lin']:
                b = -f['k'] if not c['bvar'] else self.vars[c['bvar'] - 1]
                if c['bvar'] and f['k']:
                    f = dict(f, k=0)
                o = LinearConstraint(a=f['l'], b=b, con_type=c['type'], name='lin')
            elif c['fea']:
                o = NonLinearConstraint(lambda x, f=f: poly(f, s.results['ALL']), con_type=c['type'], name='fea',
                                        fea_required=True)
            else:
                o = NonLinearConstraint(lambda x, f=f: poly(f, x), con_type=c['type'], name='nl')
                if grads:
                    o.grad = lambda x, f=f: self.exact(f, x)
            self.p.add(o)
        o = cfg['obj']
        self.p.add(ObjectiveFunction('obj', lambda x: poly(o['f'], x), obj_type='MAX' if o['max'] else 'MIN'))
        if grads:
            self.p.grad = lambda x: (-1 if o['max'] else 1) * self.exact(o['f'], x)
        self.q, self.tol = None, 1e-6 if grads and not any(c['fea'] for c in cfg['con']) else 0.1   # differences of the gradient are multiplied by K

    def exact(self, f, x):
        """Exact gradient with respect to the free variables."""
        D, it = [], iter(x)
        for v in self.vars:
            D.append(v.value if v.locked else next(it))
        g = [f['l'][i] + 2 * f['q'][i] * D[i] for i in range(len(D))]
        if len(D) > 1:
            g[0] += f['m'] * D[1]
            g[1] += f['m'] * D[0]
        return np.array([gi for gi, v in zip(g, self.vars) if not v.locked], dtype=float)

    def near(self, v):
        r = round(float(v))
        return r if abs(v - r) <= self.tol * max(1, abs(r) / 1000) else float(v)

    def apply(self, a):
        op, p = a['op'], self.p
        x = np.array(a['x'], dtype=float) if 'x' in a else None
        if op == 'form':
            L, U = np.full(len(x), float(a['L'])), np.full(len(x), float(a['U']))
            if a['kind'] == 'conlin':
                self.q = p.conlin(x)
            elif a['kind'] == 'mma':
                self.q = p.mma(x, U, L, mu=a['mu'] / 100)
            else:
                self.q = MMAProblem(p, x, U, L)
            return {'f': self.near(K * self.q.obj(x))}
        if op == 'lock':
            self.vars[a['v'] - 1].lock()
        elif op == 'unlock':
            self.vars[a['v'] - 1].unlock()
        elif op == 'subst':
            p.substitute_variables(x)
        elif op == 'con':
            return {'g': snap(p.cons[a['c'] - 1](x))}
        elif op == 'acon':
            return {'g': self.near(K * self.q.cons[a['c'] - 1](x))}
        elif op == 'aobj':
            return {'f': self.near(K * self.q.obj(x))}

    def project(self):
        p, q = self.p, self.q
        assert len(p.cons) == len(self.cfg['con']) and all(c.problem is p for c in p.cons), 'a constraint left the problem'
        assert p.all_vars == self.vars, 'variables of the problem changed'
        out = {'val': [snap(v.value) for v in self.vars], 'locked': [bool(v.locked) for v in self.vars]}
        if q is not None:
            assert q is not p and all(c.problem is q for c in q.cons), 'constraints of the approximation'
            assert [c.type for c in q.cons] == [c.type for c in p.cons], 'constraint types of the approximation'
            assert not any(v in self.vars for v in q.all_vars), 'variables of the problem in the approximation'
            out['aval'] = [snap(v.value) for v in q.vars]
            self.lo, self.hi = [snap(100 * v.lb) for v in q.vars], [snap(100 * v.ub) for v in q.vars]
        return out

    def compare_state(self, t):
        now = [float(v.value) for v in self.vars]
        assert np.allclose(now, t['val'], rtol=0, atol=1e-9), f"design {now} of the problem; specification {t['val']}"
        if self.q is not None and 'lo' in t['app']:
            lo, hi = [100 * v.lb for v in self.q.vars], [100 * v.ub for v in self.q.vars]
            assert np.allclose(lo, t['app']['lo']) and np.allclose(hi, t['app']['hi']), \
                f"bounds {lo} {hi} of the approximation; specification {t['app']['lo']} {t['app']['hi']}"


INV = ['ExactAtPoint', 'PointInBounds', 'BoundsInside', 'Conservative']


def functions(chk, g, cfg):
    """The stand-alone functions at the specification's points: MMAFunction with its
    gradient, mma_fun, conlin_fun, Linearize and NumGrad."""
    n, todo = cfg['n'], []
    for ks, es in g.out.items():
        s = g.states[ks]
        ap = s['app']
        if ap['kind'] == 'none' or len(ap['order']) != n:
            continue
        todo += [(ap, a) for a, _ in es if a['op'] in ('aobj', 'acon')]
    if chk.quick and len(todo) > 2500:
        todo = chk.rng.sample(todo, 2500)
    for ap, a in todo:
            if a['op'] == 'acon':
                c = cfg['con'][a['c'] - 1]
                if c['lin']:
                    continue
                f, sg, want = c['f'], 1, a['out']['g']
            else:
                f, sg, want = cfg['obj']['f'], -1 if cfg['obj']['max'] else 1, a['out']['f']
            xk, x = np.array(ap['at'], dtype=float), np.array(a['x'], dtype=float)

            def fun(z):
                return sg * poly(f, z)
            d = sg * np.array([f['l'][i] + 2 * f['q'][i] * xk[i] for i in range(n)], dtype=float)
            if n > 1:
                d[0] += sg * f['m'] * xk[1]
                d[1] += sg * f['m'] * xk[0]
            L, U = np.full(n, float(ap['L'])), np.full(n, float(ap['U']))
            where = dict(detail=dict(at=ap, x=a['x'], f=f))
            if ap['kind'] == 'conlin':
                ok, v = chk.guard('fun/conlin', lambda: conlin_fun(xk, fun(xk), d)(x), **where)
                if ok:
                    chk.expect(abs(K * v - want) < 1e-6 * max(1, abs(want)), 'fun/conlin/value', f'{K * v} for {want}', **where['detail'])
            else:
                ok, m = chk.guard('fun/MMAFunction', lambda: MMAFunction(list(xk), fun(xk), list(d), list(L), list(U)), **where)
                if ok:
                    v = m(x)
                    chk.expect(abs(K * v - want) < 1e-6 * max(1, abs(want)), 'fun/MMAFunction/value', f'{K * v} for {want}', **where['detail'])
                    gr = [(u - b) ** 2 * e / (u - z) ** 2 if e >= 0 else (b - l) ** 2 * e / (z - l) ** 2
                          for z, b, e, l, u in zip(x, xk, d, L, U)]
                    chk.expect(np.allclose(m.grad(x), gr), 'fun/MMAFunction/gradient', f'{m.grad(x)} for {gr}', **where['detail'])
                v = mma_fun(xk, fun(xk), d, L, U)(x)
                chk.expect(abs(K * v - want) < 1e-6 * max(1, abs(want)), 'fun/mma/value', f'{K * v} for {want}', **where['detail'])
            for grad in (None, lambda z, d=d: d):
                ok, r = chk.guard('fun/Linearize', lambda: Linearize(fun, xk, grad), **where)
                if ok:
                    chk.expect(np.allclose(r[0], d, rtol=1e-3, atol=1e-3) and abs(r[1] - fun(xk)) < 1e-9
                               and abs(r[2] - d @ xk) < 1e-3 * max(1, abs(d @ xk)), 'fun/Linearize/value', f'{r} for {d}',
                               **where['detail'])
            chk.expect(np.allclose(NumGrad(fun, list(xk)), d, rtol=1e-3, atol=1e-3), 'fun/NumGrad', 'gradient', **where['detail'])
            chk.steps += 1


def run(chk):
    configs = dict(CONFIGS)
    if not chk.quick:
        configs.update(DEEP)
    for name, cfg in configs.items():
        g = chk.graph('Approximation', defs=defs(cfg), invariants=INV, properties=['Separate'], workers=1, timeout=800)
        chk.notes.setdefault('edges', {})[name] = g.n
        chk.replay(lambda init, c=cfg: Adapter(c, init, False), g.tours(chk.rng, 200, edge_budget=chk.pick(10000, 90000)), name)
        chk.replay(lambda init, c=cfg: Adapter(c, init, True), g.walks(chk.rng, chk.pick(150, 1500), 50), name + '/gradients')
        functions(chk, g, cfg)
