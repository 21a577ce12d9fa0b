"""C01 design variables: replay of every transition of Variables.tla."""
from common import tla
from metku.optimization.variables import (Variable, IntegerVariable, BinaryVariable, IndexVariable,
                                          DiscreteVariable, CrossSectionVariable)
from metku.optimization.variable_group import VariableGroup, VariableTypeEnum


class Box:
    pass


def d(kind, objs, props, vals, table=(), lb=0, ub=8, f=(), init=0, style='target', grp=0):
    return dict(kind=kind, objs=set(objs), props=list(props), vals=set(vals), table=list(table),
                lb=lb, ub=ub, f=set(f), init=init, style=style, grp=grp)


CONFIGS = {
    # two continuous variables sharing an object and a property
    'cont': dict(objects=2, props={'h', 'b'}, var=[
        d('cont', {1, 2}, ['h'], {0, 2}, lb=-2, f={2}, init=1),
        d('cont', {1}, ['b', 'h'], {-3, 4}, lb=4, f={2, 4}, style='props')]),
    'cont_wide': dict(objects=4, props={'h'}, var=[
        d('cont', {1, 2, 3, 4}, ['h'], {0, 1}, f={2}, init=5),
        d('cont', {4}, ['h'], {7, 0}, f={4}, style='prop1')]),
    # target functions, list of properties with and without function
    'fun': dict(objects=2, props={'A', 'I', 'b'}, var=[
        d('fun', {1, 2}, ['A', 'I', 'b'], {0, 3}, f={2}, init=2),
        d('cont', {2}, ['b'], {5}, style='prop1')]),
    'intdisc': dict(objects=2, props={'h', 'b', 't'}, var=[
        d('int', {1, 2}, ['h'], {0, 3}, lb=0, ub=5, init=1),
        d('disc', {2}, ['h', 'b'], {2, 6}, table=[6, 2, 4], lb=2, ub=6),
        d('disc', {1}, ['t'], {0, 4}, table=[0, 4], lb=0, ub=4, style='prop1')]),
    'index': dict(objects=2, props={'profile', 'h'}, var=[
        d('index', {1, 2}, ['profile'], {0, 1, 2}, table=[70, 50, 60], lb=0, ub=2),
        d('index', {2}, ['h', 'profile'], {0, 1}, table=[11, 10], lb=0, ub=1, style='props')]),
    'binary': dict(objects=2, props={'profile', 'cross_section', 'active'}, var=[
        d('binprof', {1, 2}, ['profile'], {0, 1}, lb=0, ub=1),
        d('binprof', {2}, ['cross_section'], {0, 1}, lb=0, ub=1),
        d('binmem', {1}, ['active'], {0, 1}, lb=0, ub=1)]),
    'xsec': dict(objects=2, props={'h', 'b'}, var=[
        d('xsec', {1, 2}, ['h'], {0, 2}, f={2}, init=1),
        d('xsec', {1}, ['b'], {3}, lb=4, f={4})]),
    # several properties at once: written to the targets themselves (sections)
    'xsec_list': dict(objects=2, props={'h', 'b', 't'}, var=[
        d('xsec', {1, 2}, ['h', 'b'], {0, 2}, lb=2, f={2}, init=1),
        d('xsec', {2}, ['t', 'h'], {3}, lb=4, f={4})]),
    'xsec_fun': dict(objects=2, props={'A', 'I', 'b'}, var=[
        d('xfun', {1, 2}, ['A', 'b', 'I'], {1, 2}, lb=-2, f={2}, init=1),
        d('xsec', {2}, ['b', 'A'], {3}, f={4})]),
    # groups: variables created through a VariableGroup
    'group_cont': dict(objects=2, props={'h', 'b'}, var=[
        d('cont', {1, 2}, ['h'], {1, 2}, lb=1, ub=4, init=2, grp=1),
        d('cont', {1, 2}, ['b'], {3, 5}, lb=3, ub=6, init=3, grp=1)]),
    'group_cont_list': dict(objects=2, props={'h', 'b', 't'}, var=[
        d('cont', {1}, ['h', 'b'], {1, 2}, lb=1, ub=4, init=1, f={2}, grp=1),
        d('cont', {1}, ['t'], {3, 5}, lb=3, ub=6, init=5, grp=1)]),
    'group_disc': dict(objects=2, props={'h', 'b'}, var=[
        d('disc', {2}, ['h'], {1, 2}, table=[1, 2, 7], lb=1, ub=7, init=2, grp=1),
        d('disc', {2}, ['b'], {3, 4}, table=[4, 3], lb=3, ub=4, init=4, grp=1)]),
    'group_index': dict(objects=2, props={'profile'}, var=[
        d('index', {1, 2}, ['profile'], {0, 1, 2}, table=[33, 31, 32], lb=0, ub=2, init=1, grp=1)]),
}
# thorough: wider products
DEEP = {
    'cont3': dict(objects=3, props={'h', 'b'}, var=[
        d('cont', {1, 2}, ['h'], {1, 2}, f={2}),
        d('cont', {2, 3}, ['b', 'h'], {3}, f={4}, style='props'),
        d('xsec', {1, 3}, ['b'], {5, 6}, f={2})]),
    'mixed': dict(objects=2, props={'h', 'profile', 'A'}, var=[
        d('index', {1, 2}, ['profile'], {0, 1, 2}, table=[70, 50, 60], lb=0, ub=2),
        d('binprof', {2}, ['profile'], {0, 1}, lb=0, ub=1),
        d('fun', {1}, ['A', 'h'], {2, 3}, f={2})]),
}


class Adapter:
    def __init__(self, cfg, unit=1):
        self.cfg, self.unit = cfg, unit
        self.objs = []
        xsec = [any(v['kind'] == 'xsec' and len(v['props']) == 1 and o in v['objs'] for v in cfg['var']) for o in range(1, cfg['objects'] + 1)]
        for o in range(cfg['objects']):
            b = Box()
            b.inner = Box()
            # a cross-section variable writes to the member's cross-section
            b.store = b.inner if xsec[o] else b
            if xsec[o]:
                b.cross_section = b.inner
            for p in cfg['props']:
                setattr(b.store, p, -1)
            self.objs.append(b)
        self.vars = []
        grouped = [v for v in cfg['var'] if v['grp']]
        if grouped:
            self.vars = self.group(grouped)
        else:
            self.sections = {}
            for i, v in enumerate(cfg['var'], 1):
                self.vars.append(self.single(i, v))

    def target_objs(self, v):
        return [self.objs[o - 1] if v['kind'] != 'cont' or self.objs[o - 1].store is self.objs[o - 1]
                else self.objs[o - 1].store for o in sorted(v['objs'])]

    def group(self, vs):
        kind = vs[0]['kind']
        objs = self.target_objs(vs[0])
        kw = dict(objects=objs) if len(objs) > 1 else dict(object=objs[0])
        attrs = [v['props'] if len(v['props']) > 1 else v['props'][0] for v in vs]
        if kind == 'cont':
            g = VariableGroup(name='g', var_type=VariableTypeEnum.CONTINUOUS, attributes=attrs,
                              value=[v['init'] for v in vs], lower_bounds=[v['lb'] for v in vs],
                              upper_bounds=[v['ub'] for v in vs], **kw)
        elif kind == 'disc':
            g = VariableGroup(name='g', var_type=VariableTypeEnum.DISCRETE, attributes=attrs,
                              value=[v['init'] for v in vs], values=[v['table'] for v in vs], **kw)
        else:
            g = VariableGroup(name='g', var_type=VariableTypeEnum.INDEX, attribute=attrs[0],
                              value=vs[0]['init'], values=vs[0]['table'], **kw)
        return list(g.variables)

    def single(self, i, v):
        objs = self.target_objs(v)
        props = v['props']
        prop = props if len(props) > 1 or v['kind'] in ('fun', 'xfun') else props[0]
        if v['style'] == 'target':
            kw = dict(target={'property': prop, 'objects': objs})
        elif v['style'] == 'props':
            kw = dict(target_properties=props, target_objects=objs)
        else:
            kw = dict(target_property=props[0], target_object=objs[0])
        n, k = f'x{i}', v['kind']
        u = self.unit
        if k == 'cont':
            return Variable(n, v['lb'] * u, v['ub'] * u, value=v['init'] * u, **kw)
        if k == 'fun':
            return Variable(n, v['lb'], v['ub'], value=v['init'],
                            target_fun={'A': lambda y: 3 * y + 1, 'I': lambda y: y * y}, **kw)
        if k == 'xsec':
            return CrossSectionVariable(n, v['lb'] * u, v['ub'] * u, value=v['init'] * u, **kw)
        if k == 'xfun':
            return CrossSectionVariable(n, v['lb'], v['ub'], value=v['init'],
                                        target_fun={'A': lambda y: 3 * y + 1, 'I': lambda y: y * y}, **kw)
        if k == 'int':
            return IntegerVariable(n, v['lb'], v['ub'], value=v['init'], **kw)
        if k == 'disc':
            return DiscreteVariable(n, values=v['table'], value=v['init'], **kw)
        if k == 'index':
            return IndexVariable(n, values=v['table'], value=v['init'], **kw)
        if k == 'binprof':
            return BinaryVariable(n, section=900 + i, value=v['init'], **kw)
        if k == 'binmem':
            return BinaryVariable(n, value=v['init'], target={'property': 'member', 'objects': objs})
        raise KeyError(k)

    def apply(self, a):
        op, v = a['op'], self.vars[a['v'] - 1]
        if op == 'substitute':
            v.substitute(a['x'] * self.unit)
        elif op == 'substitute_real':
            v.substitute(a['x'] + 0.5)
        elif op == 'lock':
            v.lock()
        elif op == 'lock_at':
            v.lock(a['x'] * self.unit)
        elif op == 'unlock':
            v.unlock()
        elif op == 'scale':
            v.scale(a['x'])

    def project(self):
        fld = []
        for b in self.objs:
            f = {}
            for p in self.cfg['props']:
                x = getattr(b.store, p)
                f[p] = int(x) if isinstance(x, bool) else (x if x == -1 else x / self.unit)
            fld.append(f)
        u = self.unit
        return {'val': [v.value / u for v in self.vars], 'locked': [bool(v.locked) for v in self.vars],
                'scal': [v.scaling for v in self.vars], 'lb': [v.lb / u for v in self.vars],
                'ub': [v.ub / u for v in self.vars], 'fld': fld}


def run(chk):
    configs = dict(CONFIGS)
    if not chk.quick:
        configs.update(DEEP)
    for name, cfg in configs.items():
        defs = {'Var': tla([{k: v for k, v in x.items() if k not in ('style', 'grp')} for x in cfg['var']]),
                'Objects': cfg['objects'], 'Props': tla(cfg['props'])}
        g = chk.graph('Variables', defs=defs,
                      properties=['LockedNeverChanges', 'WritesAreTargeted', 'EveryTargetWritten'], workers=1)
        budget = chk.pick(60000, None)
        chk.replay(lambda init, c=cfg: Adapter(c), g.tours(chk.rng, 150, edge_budget=budget), name)
        chk.replay(lambda init, c=cfg: Adapter(c), g.walks(chk.rng, chk.pick(100, 1500), 40), name)
        if all(v['kind'] in ('cont', 'xsec') and not v['grp'] for v in cfg['var']):
            # the same behaviours with non-integer magnitudes
            chk.replay(lambda init, c=cfg: Adapter(c, 0.0625), g.walks(chk.rng, chk.pick(150, 1500), 40), name + '/real')
        chk.notes.setdefault('edges', {})[name] = g.n
