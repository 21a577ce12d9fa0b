"""C02 evaluations at exactly the requested design (Problem.tla, Registry.tla)."""
from problem import Adapter, F, con, tla_cfg, INV, PROP

N3 = dict(n=3, dom=[{0, 2}, {1, 3}, {0, 1}], lb=[0, 1, 0], ub=[2, 3, 1], kind=['cont'] * 3, start=[2, 1, 0])
CONFIGS = {
    'lin_nl': dict(N3, out={-1, 5}, con=[
        con(3, '<', lin=True, k=-6, l=[1, 2, 3]), con(3, '>', k=-3, l=[0, 1, -2], q=[1, 0, 0], m=1),
        con(3, '=', lin=True, bvar=2, l=[2, 0, 5])],
        obj=dict(f=F(3, 1, [1, 10, 100], [0, 0, 7], 3), max=False, fea=False),
        ops={'subst', 'direct', 'lock', 'lock_at', 'con', 'cons', 'split', 'feasible', 'obj'}),
    'max': dict(N3, con=[con(3, '<', k=-2, l=[1, -1, 1]), con(3, '=', k=-2, l=[1, 0, 0])],
                obj=dict(f=F(3, 0, [3, -10, 100]), max=True, fea=False, linear=True),
                ops={'subst', 'lock', 'lock_at', 'con', 'feasible', 'split', 'obj'}),
    'mixed': dict(n=3, dom=[{0, 1, 2}, {0, 2}, {4, 6}], lb=[0, 0, 4], ub=[2, 2, 6], kind=['index', 'int', 'disc'],
                  start=[1, 0, 4], out={9},
                  con=[con(3, '<', lin=True, k=-7, l=[3, -1, 1]), con(3, '>', k=-9, l=[2, 1, 1], m=1)],
                  obj=dict(f=F(3, 2, [5, 10, 1], [1, 0, 0]), max=False, fea=False),
                  ops={'subst', 'direct', 'lock', 'lock_at', 'con', 'cons', 'feasible', 'obj'}),
}
DEEP = {
    'four': dict(n=4, dom=[{0, 2}, {1, 3}, {0, 1}, {-1, 1}], lb=[0, 1, 0, -1], ub=[2, 3, 1, 1], kind=['cont'] * 4,
                 start=[2, 1, 0, 1], con=[
                     con(4, '<', lin=True, k=-6, l=[1, 2, 3, 7]), con(4, '>', k=-3, l=[0, 1, -2, 5], q=[1, 0, 0, 2], m=1)],
                 obj=dict(f=F(4, 1, [1, 10, 100, 1000], [0, 0, 7, 0], 3), max=False, fea=False),
                 ops={'subst', 'lock', 'lock_at', 'con', 'obj'}),
}


def run_configs(chk, configs, budget=None, walks=(200, 2000)):
    for name, cfg in configs.items():
        g = chk.graph('Problem', defs=tla_cfg(cfg), invariants=INV, properties=PROP, workers=1, timeout=800)
        mk = lambda init, c=cfg: Adapter(c, init)
        chk.replay(mk, g.tours(chk.rng, 200, edge_budget=budget), name)
        chk.replay(mk, g.walks(chk.rng, chk.pick(*walks), 50), name)
        chk.notes.setdefault('edges', {})[name] = g.n


def run(chk):
    run_configs(chk, CONFIGS)
    if not chk.quick:
        run_configs(chk, DEEP)


class Registry:
    def __init__(self, init):
        from metku.optimization.structopt import OptimizationProblem
        from metku.optimization.variables import Variable
        from metku.optimization.constraints import LinearConstraint, NonLinearConstraint
        from metku.optimization.objective import ObjectiveFunction
        self.p = OptimizationProblem(name='r')
        self.v = [Variable(f'v{i}', 0, 1, value=0.5) for i in range(3)]
        self.c = [LinearConstraint(a=[1, 1, 1], b=1, name='a'), NonLinearConstraint(lambda x: 0, con_type='=', name='b')]
        self.given = len(self.c)
        self.o = [ObjectiveFunction('o1', lambda x: 1), ObjectiveFunction('o2', lambda x: 2)]
        self.new = 0

    def apply(self, a):
        p, op = self.p, a['op']
        if op == 'var':
            getattr(p, a['how'])(self.v[a['v'] - 1])
        elif op == 'vars':
            l = [self.v[i - 1] for i in a['v']]
            if a['how'] == 'set':
                p.vars = l
            else:
                p.add_variables(l)
        elif op == 'del':
            p.del_var(self.v[a['v'] - 1])
        elif op == 'clear':
            p.clear_vars()
        elif op == 'con':
            c = self.c[a['c'] - 1]
            getattr(p, a['how'])([c] if a['how'] == 'add_constraints' else c)
        elif op == 'new':
            if a['kind'] == 'linear':
                self.c.append(p.linear_constraint(a=[1, 0, 0], b=0, name='new'))
            else:
                self.c.append(p.non_linear_constraint(con_fun=lambda x: 0, name='new'))
            self.new += 1
        elif op == 'obj':
            p.add(self.o[a['o'] - 1])
        elif op == 'bad':
            try:
                p.add('something else')
            except ValueError:
                return 'ValueError'
            return 'accepted'

    def project(self):
        p = self.p
        assert all(c.problem is p for c in p.cons), 'constraint does not know its problem'
        assert p.obj is None or p.obj.problem is p, 'objective does not know its problem'
        nl = [c for c in p.cons if type(c).__name__ == 'NonLinearConstraint']
        assert p.nnonlincons() == len(nl), 'number of nonlinear constraints'
        assert p.nlincons() == len([c for c in nl if c.type != '=']), 'number of nonlinear inequalities'
        assert p.nlineqcons() == len([c for c in nl if c.type == '=']), 'number of nonlinear equalities'
        return {'vs': [self.v.index(v) + 1 for v in p.all_vars], 'cs': [self.c.index(c) + 1 for c in p.cons],
                'obj': 0 if p.obj is None else self.o.index(p.obj) + 1, 'made': self.new}


def registry(chk):
    g = chk.graph('Registry', defs=dict(NV=3, NC=2, NO=2, MaxNew=chk.pick(1, 2)),
                  invariants=['NoDuplicates'], properties=['KeepsOthers'], workers=1)
    chk.replay(Registry, g.tours(chk.rng, 200), 'registry')
    chk.notes.setdefault('edges', {})['registry'] = g.n


_run = run


def run(chk):
    _run(chk)
    registry(chk)
