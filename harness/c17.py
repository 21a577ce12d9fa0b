"""C17: section properties belong to the current dimensions and material."""
import warnings

import numpy as np

from common import MachineryError, tla

warnings.simplefilter('ignore')


def flat(v):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    if isinstance(v, dict):
        v = [[k, v[k]] for k in sorted(v)]
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            out += flat(x)
        return out
    if isinstance(v, (bool, int, float, np.floating, np.integer)):
        return [float(v)]
    return [str(v)]


def near(a, b):
    a, b = flat(a), flat(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not (x == y or abs(x - y) <= 1e-9 * max(abs(x), abs(y), 1e-12)):
            if not (x != x and y != y):
                return False
    return True


def at(*names):
    return [(n, lambda s, n=n: getattr(s, n)) for n in names]


def call(name, *args, **kw):
    return (f'{name}{args or ""}{kw or ""}', lambda s: getattr(s, name)(*args, **kw))


D, M, F = 'dim', 'mat', 'force'
BASE = {
    'geometry': ({D}, at('A', 'I', 'Iy', 'Iz', 'Au', 'section_factor', 'box_section_factor')
                 + [call('iy'), call('iz'), call('i0'), call('weight'), call('self_weight'), call('cost'), call('shadow_effect')]),
    'torsion': ({D}, at('It', 'Iw')),
    'moduli': ({D}, at('Wpl', 'Wel', 'Wply', 'Wplz', 'Wely', 'Welz')),
    'shear': ({D, M}, at('Ashear', 'VRd', 'VzRd') + [call('shear_force_resistance')]),
    'class': ({D, M, F}, [call('section_class'), call('flange_class'), call('web_class_comp'), call('web_class_bend')] + at('C')),
    'bending': ({D, M, F}, at('MRd', 'MyRd', 'MzRd') + [call('bending_resistance'), call('bending_resistance', C=2),
                                                     call('bending_resistance', C=3, axis='z'),
                                                     call('plastic_bending_resistance'), call('elastic_bending_resistance', axis='z')]),
    'section': ({D, M, F}, [call('section_resistance'), call('section_resistance', return_list=False),
                            call('axial_force_resistance')] + at('NRd')),
    'stress': ({D, F}, [call('sigma_com'), call('sigmaN'), call('sigmaM')]),
    'material': ({M}, at('fy', 'fu', 'G', 'E', 'eps', 'epsilon')),
    'curves': ({D, M}, at('imp_factor')),
}


def queries(kind):
    q = dict(BASE)
    if kind in ('RHS', 'SHS'):
        q['shear'] = (q['shear'][0], q['shear'][1] + at('VyRd') + [call('shear_force_resistance', axis='y')])
        q['sizes'] = ({D}, at('H', 'B', 'T', 'h', 'b', 't', 'r', 'R', 'c_web', 'c_flange'))
        q['curves'] = ({D, M}, at('imp_factor', 'imp_factor_LT', 'imp_factor_LT_gen'))
        q['z-axis'] = ({D, M, F}, [call('section_resistance', 'z')])
    if kind in ('CHS', 'CustomCHS'):
        q['shear'] = (q['shear'][0], q['shear'][1] + at('VyRd'))
        q['sizes'] = ({D}, at('D', 'T', 'h', 'b', 't'))
    if kind in ('I', 'CustomI'):
        q['sizes'] = ({D}, at('h', 'b', 'tf', 'tw', 'r', 'hw', 'cf') + [call('compressed_flange')])
        q['curves'] = ({D, M}, at('imp_factor', 'imp_factor_LT', 'imp_factor_LT_gen'))
    if kind == 'WI':
        q['sizes'] = ({D}, at('h', 'b', 'tf', 'bt', 'bb', 'tt', 'tb', 'tw', 'hw', 'cf_top', 'cf_bottom', 'cw', 'Aw', 'At', 'Ab'))
        q['curves'] = ({D, M}, at('imp_factor', 'imp_factor_LT', 'imp_factor_LT_gen'))
        q['centres'] = ({D}, at('zs', 'zj', 'zw', 'zt', 'zb') + [call('elastic_neutral_axis'), call('plastic_neutral_axis')])
        q['flanges'] = ({D, M}, at('MfRd', 'NtopRd', 'NbottomRd'))
        q['effective area'] = ({D, M}, at('Aeff') + [call('effective_area'), call('effective_area', psi=0.4)])
        q['effective bending'] = ({D, M}, at('W_eff_y', 'I_eff_y', 'W_eff_y') + [call('effective_second_moment_area_y', psi_init=-1),
                                                                            call('effective_second_moment_area_y', psi_init=0.5)])
        q['Weff'] = ({D, M}, [('Weff', lambda s: s.Weff[0]), call('bending_resistance', C=4)])
        q['effective plates'] = ({D, M}, [call('effective_web', psi=0.5), call('effective_flange', 'bottom'), call('effective_web', psi=-1.4),
                                          call('effective_flange', 'top')] + at('hneg'))
        q['plate buckling'] = ({D, M, F}, [call('shear_buckling_resistance'), call('shear_buckling_resistance', 1200, 'rigid'),
                                           call('transverse_load_resistance', 60.0), call('transverse_load_resistance', 30.0, 'c')])
    return q


def answer(fn, s):
    try:
        return fn(s)
    except Exception as e:      # that a new section raises, too
        return type(e).__name__


class Kind:
    def __init__(self, name, kind, make, dims, mats, forces, setter=None, linked=None):
        """dims: [(attribute, [values])]; make(dict of dims, material)"""
        self.name, self.kind, self.make, self.dims, self.mats, self.forces = name, kind, make, dims, mats, forces
        self.setter = setter or (lambda s, k, v: setattr(s, k, v))
        self.linked = linked or [{i + 1} for i in range(len(dims))]
        self.q = list(queries(kind).items())
        self.ref = {}

    def values(self, d):
        return {n: vs[i - 1] for (n, vs), i in zip(self.dims, d)}

    def fresh(self, d, g, f):
        s = self.make(self.values(d), self.mats[g - 1])
        self.load(s, f)
        return s

    def load(self, s, f):
        n, m, v = self.forces[f - 1]
        s.Ned, s.Med, s.Ved = n, [m, 0.0], [0.0, v]

    def expected(self, q, d, g, f):
        k = (q, tuple(d), g, f)
        if k not in self.ref:     # a new section for every single answer
            self.ref[k] = [flat(answer(fn, self.fresh(d, g, f))) for _, fn in self.q[q - 1][1][1]]
        return self.ref[k]


class Section:
    def __init__(self, k, init):
        self.k = k
        self.d, self.g, self.f = list(init['d']), init['g'], init['f']
        self.s = k.fresh(self.d, self.g, self.f)
        self.prev = {}

    def apply(self, a):
        k = self.k
        if a['op'] == 'dim':
            name, vals = k.dims[a['k'] - 1]
            k.setter(self.s, name, vals[a['v'] - 1])
            for j in k.linked[a['k'] - 1]:
                self.d[j - 1] = a['v']
        elif a['op'] == 'mat':
            self.g = a['x']
            self.s.material = k.mats[self.g - 1]
        elif a['op'] == 'force':
            self.f = a['x']
            k.load(self.s, self.f)
        elif a['op'] == 'query':
            name, (uses, fns) = k.q[a['q'] - 1]
            exp = k.expected(a['q'], self.d, self.g, self.f)
            got = []
            for (what, fn), e in zip(fns, exp):
                v = answer(fn, self.s)
                got.append(flat(v))
                if not near(v, e):
                    raise AssertionError(f'{what} of {k.name} {k.values(self.d)} {k.mats[self.g - 1]} is {flat(v)}, '
                                         f'that of a new section {e}')
            if a['again'] and self.prev.get(a['q']) is not None and not near(got, self.prev[a['q']]):
                raise AssertionError(f'{name} answered {self.prev[a["q"]]} before and {got} now')
            self.prev[a['q']] = got
        return None

    def project(self):
        return dict(d=self.d, g=self.g, f=self.f)


def kinds():
    from metku.sections.steel.CHS import CHS, CustomCHS
    from metku.sections.steel.ISection import HEA, HEB, IPE, CustomISection
    from metku.sections.steel.RHS import RHS, SHS
    from metku.sections.steel.wi import WISection
    mats = ['S235', 'S355', 'S460M']
    P = lambda: [(0.0, 0.0, 0.0), (-2e5, 3e7, 4e4), (1.5e5, -2e7, -6e4), (-4e5, 0.0, 0.0), (0.0, -5e7, 1e4)]
    small = [(0.0, 0.0, 0.0), (-6e4, 3e6, 1e4), (5e4, -2e6, -9e3), (0.0, 4e6, 0.0)]

    def turned(s, v):
        s.rotate = v['rotate']
        return s
    yield Kind('RHS', 'RHS', lambda v, g: turned(RHS(v['H'], v['B'], v['T'], fy=g), v),
               [('H', [200, 120, 300]), ('B', [100, 150]), ('T', [5.0, 8.0, 12.5]), ('rotate', [False, True])],
               mats, P()[:3])
    yield Kind('SHS', 'SHS', lambda v, g: RHS(v['H'], v['B'], v['T'], fy=g) if v['H'] != v['B'] else SHS(v['H'], v['T'], fy=g),
               [('H', [150, 250]), ('B', [150, 250]), ('T', [5.0, 6.3])], mats, P()[1:4])
    yield Kind('custom CHS', 'CustomCHS', lambda v, g: CustomCHS(v['D'], v['T'], fy=g), [('D', [139.7, 323.9, 60.0]), ('T', [4.0, 10.0, 6.0])],
               mats, small)
    yield Kind('CHS', 'CHS', lambda v, g: CHS(168.3, 5.0, fy=g), [], mats, small)
    for nm, mk in (('IPE 300', lambda g: IPE(300, fy=g)), ('HEA 200', lambda g: HEA(200, fy=g)), ('HEB 400', lambda g: HEB(400, fy=g)),
                   ('IPE 550', lambda g: IPE(550, fy=g))):
        yield Kind(nm, 'I', lambda v, g, mk=mk: mk(g), [], mats + ['S700'], P())

    def iset(s, k, v):
        setattr(s, k, v)
        s.cross_section_properties()
    yield Kind('custom I', 'CustomI', lambda v, g: CustomISection(v['H'], v['B'], v['tf'], v['tw'], v['r'], fy=g),
               [('H', [300, 180]), ('B', [150, 220]), ('tf', [10.7, 42.0]), ('tw', [7.1, 5.0]), ('r', [15.0, 8.0])], ['S355', 'S460M'], P()[1:3], iset)
    wi = lambda v, g: WISection(v['h'], v['tw'], [v['bt'], v['bb']], [v['tt'], v['tb']], fy=g, weld_throat=v.get('a', 5))
    one = {'h': 600, 'tw': 6, 'bt': 250, 'bb': 250, 'tt': 12, 'tb': 12}
    yield Kind('welded I, web', 'WI', lambda v, g: wi(dict(one, **{'h': v['h'], 'tw': v['tw'], 'a': v['weld_throat'], 'bt': v['b'], 'bb': v['b']}), g),
               [('h', [600, 1200]), ('tw', [6, 10]), ('weld_throat', [5, 3]), ('b', [250, 420])], ['S355', 'S460M'], P()[1:4])
    yield Kind('welded I, flanges', 'WI', lambda v, g: wi(dict(one, **v), g),
               [('bt', [250, 400]), ('bb', [250, 320]), ('tt', [12, 45]), ('tb', [12, 8])], ['S355', 'S700'], P()[1:3])
    def both(s, k, v):
        if k == 'tf':
            s.tf = [v, v]
        else:
            setattr(s, k, v)
    yield Kind('welded I, both', 'WI', lambda v, g: wi(dict(one, tt=v['tt'], tb=v['tb'], h=v['h'], tw=v['tw']), g),
               [('tt', [12, 42]), ('tb', [12, 42]), ('h', [600, 900]), ('tw', [6, 5]), ('tf', [12, 42])], ['S355', 'S235'], P()[4:], both,
               linked=[{1}, {2}, {3}, {4}, {1, 2, 5}])
    # changes as small as the finite differences of an optimisation make
    fine = lambda x: [x, x + 0.03, x * (1 + 1e-6)]
    yield Kind('RHS, small changes', 'RHS', lambda v, g: RHS(v['H'], v['B'], v['T'], fy=g),
               [('H', fine(200)), ('B', fine(100)), ('T', fine(5.0))], mats[1:2], P()[1:2])
    yield Kind('custom CHS, small changes', 'CustomCHS', lambda v, g: CustomCHS(v['D'], v['T'], fy=g),
               [('D', fine(139.7)), ('T', fine(4.0))], mats[1:2], small[:1])
    yield Kind('custom I, small changes', 'CustomI', lambda v, g: CustomISection(v['H'], v['B'], v['tf'], v['tw'], v['r'], fy=g),
               [('H', fine(300)), ('B', fine(150)[::2]), ('tf', fine(10.7)), ('tw', fine(7.1)[::2]), ('r', fine(15.0)[::2])],
               mats[1:2], P()[1:2], iset)
    yield Kind('welded I, small changes', 'WI', lambda v, g: wi(dict(one, **v), g),
               [('h', fine(600)), ('tw', fine(6)[::2]), ('bt', fine(250)[::2]), ('tt', fine(12)[::2]), ('tb', fine(12)[1:])], mats[1:2], P()[1:2])


def run(chk):
    import metku.sections.steel.wi  # noqa: F401 (sets warning filters)
    import metku.sections.steel.CHS  # noqa: F401
    warnings.simplefilter('ignore')
    for k in kinds():
        n = len(k.q)
        names = [q for q, _ in k.q]
        mutating = [i + 1 for i, q in enumerate(names) if q in ('class', 'effective area', 'effective bending')]
        defs = dict(Dims=tla([len(v) for _, v in k.dims]), NMat=str(len(k.mats)), NForce=str(len(k.forces)), Queries=str(n),
                    Uses='<<' + ', '.join(tla(set(u)) for _, (u, _) in k.q) + '>>',
                    Linked='<<' + ', '.join(tla(set(x)) for x in k.linked) + '>>', Track=tla(set(mutating[:1])) if not k.dims else '{}')
        g = chk.graph('SectionState', defs=defs, properties=['QueriesChangeNothing', 'SettingKeepsOthers', 'SameAgain'])
        chk.replay(lambda s: Section(k, s), g.tours(chk.rng, max_len=150, edge_budget=chk.pick(9000, 60000)), k.name)
        chk.replay(lambda s: Section(k, s), g.walks(chk.rng, chk.pick(40, 400), 60), k.name)
        chk.notes[k.name] = f'{len(g.states)} states, {g.n} transitions, {n} query groups'
