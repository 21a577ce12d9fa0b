"""C16: automatic sizing selects the first adequate profile."""
import contextlib
import io
import math
import warnings

import ec3
from common import MachineryError, tla

warnings.simplefilter('ignore')
LC = (3, 8)
MATS = ('S355', 'S235')
CURVE = {'S235': 235.0, 'S355': 355.0}


# ---------------------------------------------------------------- catalogues
def catalogue(fam):
    """names in order, and the section each name stands for (made by its class)"""
    from metku.sections.steel import catalogue as cat
    from metku.sections.steel.CHS import CHS
    from metku.sections.steel.ISection import HEA, HEB, IPE
    from metku.sections.steel.RHS import RHS, SHS
    if fam == 'IPE':
        return [(k, lambda g, k=k: IPE(int(k_num(k)), fy=g)) for k in cat.ipe_profiles]
    if fam in ('HEA', 'HEB'):
        T, d = (HEA, cat.hea_profiles) if fam == 'HEA' else (HEB, cat.heb_profiles)
        return [(k, lambda g, k=k: T(int(k_num(k)), fy=g)) for k in d]
    if fam == 'RHS':
        out = []
        for k, v in cat.rhs_profiles.items():
            if v['t'] < 3.0:
                continue
            mk = lambda g, v=v: RHS(v['h'], v['b'], v['t'], fy=g)
            p = mk('S355')
            p.Ned = -1e5
            if p.section_class() <= 3:
                out.append((k, mk))
        return out
    if fam == 'SHS':
        return [(k, lambda g, v=v: SHS(v['h'], v['t'], fy=g)) for k, v in cat.shs_profiles.items()]
    if fam == 'CHS':
        return [(k, lambda g, v=v: CHS(v['d'], v['t'], fy=g)) for k, v in cat.chs_profiles.items()]
    raise MachineryError(fam)


def k_num(k):
    return ''.join(ch if ch.isdigit() else ' ' for ch in k).split()[0]


_cats = {}


def cat_of(fam):
    if fam not in _cats:
        _cats[fam] = catalogue(fam)
    return _cats[fam]


def label(p):
    """what a section object is, by its own dimensions and material"""
    d = [type(p).__name__]
    for a in ('h', 'b', 't', 'tf', 'tw', 'r', 'D', 'T'):
        if hasattr(p, a) and not (a in ('h', 'b', 't') and type(p).__name__ == 'CHS'):
            v = getattr(p, a)
            d.append([round(float(x), 3) for x in v] if hasattr(v, '__len__') else round(float(v), 3))
    d.append(round(float(p.fy), 3))
    return str(d)


# ------------------------------------------------------------------- members
class Kind:
    """geometry and force scenarios of one member"""

    def __init__(self, ends, mtype, nel, lcr, sway, seed, targets):
        self.ends, self.mtype, self.nel, self.lcr, self.sway = ends, mtype, nel, lcr, sway
        self.seed, self.targets = seed, targets
        (x1, y1), (x2, y2) = ends
        self.L = math.hypot(x2 - x1, y2 - y1)
        self.cache = {}

    def key(self):
        return (tuple(self.ends), self.mtype, self.nel, tuple(self.lcr), self.sway, self.seed, tuple(self.targets))

    def member(self, section, nodes=None):
        from metku.raami.frame_member import SteelFrameMember
        from metku.raami.frame_node import FrameNode
        nodes = nodes or [FrameNode(list(e)) for e in self.ends]
        m = SteelFrameMember(nodes, section, self.mtype, nel=self.nel, lcr=list(self.lcr), sway=self.sway)
        return m

    def prepare(self, m):
        """the member as it is after the analysis model was generated"""
        m.calc_nodal_coordinates()
        if not m.member.sections:
            m.create_sections()

    def shape(self, f):
        """basic force pattern of scenario f in both load cases"""
        n = self.nel + 1
        k = (self.seed + f) % 4
        N = [[-1.0] * n, [-0.2] * n, [0.6] * n, [0.0] * n][k]
        M = [[(-1) ** i * 0.5 * (i + 1) / n for i in range(n)], [1.0 - 0.3 * i for i in range(n)],
             [0.4] * n, [0.0] * (n - 1) + [1.0]][k]
        V = [[0.3] * n, [0.0] * n, [1.0 - 0.5 * i for i in range(n)], [-0.5] * n][k]
        N2 = [-0.7 * x - 0.1 for x in N]
        M2 = [0.8 * x - 0.1 for x in M][::-1]
        return [(N, V, M), (N2, V, M2)]

    def forces(self, f):
        s = self.scale(f)
        out = {}
        for lc, (N, V, M) in zip(LC, self.shape(f)):
            out[lc] = {'N': [4e2 * s * x for x in N], 'Vz': [1e2 * s * x for x in V],
                       'My': [4e4 * s * x for x in M]}
        return out

    def scale(self, f):
        """so that profile k of a catalogue, in S355, is just adequate"""
        key = ('scale', f)
        if key not in self.cache:
            fam, k = self.targets[f - 1]
            if fam == 'none':
                self.cache[key] = 0.0
                return 0.0
            c = cat_of(fam)
            mk = c[min(k, len(c)) - 1][1]
            lo, hi = 1e-3, 1e6
            for _ in range(40):
                mid = (lo * hi) ** 0.5
                self.cache[key] = mid
                if self.fresh_util(mk('S355'), self.forces(f)) <= 0.985:
                    lo = mid
                else:
                    hi = mid
            self.cache[key] = lo
        return self.cache[key]

    def fresh(self, section):
        m = self.member(section)
        self.prepare(m)
        return m

    def fresh_design(self, section, forces):
        m = self.fresh(section)
        out = {}
        for lc in LC:
            m.nodal_forces[lc] = {k: list(v) for k, v in forces[lc].items()}
            m.design(lc)
            out[lc] = m.utilization[lc]
        return out

    def fresh_util(self, section, forces):
        return max(self.fresh_design(section, forces).values())

    def util(self, fam, p, g, f):
        key = (fam, p, g, f)
        if key not in self.cache:
            self.cache[key] = self.fresh_design(cat_of(fam)[p - 1][1](MATS[g - 1]), self.forces(f))
        return self.cache[key]

    def slender(self, sec):
        fy = sec.fy
        return max(ec3.buckling(sec.A, fy, I, self.L * lc, al)[0] for I, lc, al in zip(sec.I, self.lcr, sec.imp_factor))


_kinds = {}


def kind(*a):
    k = Kind(*a)
    return _kinds.setdefault(k.key(), k)


def permille(x):
    n = math.ceil(1000 * x - 1e-7)
    return min(n, 10 ** 9)


def record(d):
    return dict(d)


def par(umax=1000, bmin=10, bmax=100000, cls=3, sl=5000):
    return dict(umax=umax, bmin=bmin, bmax=bmax, cls=cls, sl=sl, filters=True)


DEFAULT = par()


def configs(quick):
    K = kind
    beam = lambda t, s=0: K(((0, 0), (6000, 0)), 'beam', 2, (1.0, 1.0), False, s, t)
    col = lambda t, s=1: K(((0, 0), (0, 4000)), 'column', 3, (2.0, 1.0), True, s, t)
    dia = lambda t, s=2: K(((0, 0), (3000, 4000)), 'brace', 1, (0.9, 0.7), False, s, t)
    one = lambda: [dict(of={1}, check={1}, slend={1}, flag={1}, lead=1, filters=True, kind='member')]
    fams = ['IPE', 'HEA', 'HEB', 'RHS', 'SHS', 'CHS']
    # one member, every catalogue, both materials
    yield 'member/catalogues', dict(
        kinds=[col((('IPE', 6), ('HEA', 3), ('CHS', 30), ('IPE', 13)))], fams=fams, g=2, units=one(),
        pars=[DEFAULT], puts={(1, 1, 5), (1, 4, 60), (1, 6, 20), (1, 5, 94), (1, 2, 24), (1, 3, 1)})
    yield 'member/limits', dict(
        kinds=[beam((('SHS', 30), ('SHS', 55), ('none', 0)))], fams=['SHS', 'HEA', 'IPE'], g=1, units=one(),
        pars=[DEFAULT, par(umax=700), par(bmin=90), par(bmax=70), par(cls=2), par(sl=900), par(umax=1300, bmin=60, bmax=150),
              par(bmin=400, bmax=300), par(cls=1, sl=1500)],
        puts={(1, 1, 94)})
    yield 'member/brace', dict(
        kinds=[dia((('RHS', 40), ('CHS', 70), ('RHS', 200)))], fams=['RHS', 'CHS'], g=2, units=one(),
        pars=[DEFAULT, par(umax=850, bmax=100), par(sl=700, cls=1)], puts={(1, 1, 300), (1, 2, 5)})
    pair = [dict(of={1, 2}, check={1, 2}, slend={i}, flag={1, 2}, lead=i, filters=True, kind='pair') for i in (1, 2)]
    yield 'pair', dict(
        kinds=[col((('IPE', 5), ('HEA', 9), ('none', 0))), K(((9000, 0), (9000, 4000)), 'column', 3, (2.0, 1.0), True, 4,
                                                           (('HEA', 5), ('IPE', 9), ('none', 0)))],
        fams=['IPE', 'HEA'], g=1, units=pair, pars=[DEFAULT, par(umax=600)], puts={(1, 1, 17), (2, 2, 2)}, start=[0, 2])
    grp = lambda n: [dict(of=set(range(1, n + 1)), check=set(range(1, n + 1)), slend=set(range(1, n + 1)),
                          flag=set(range(1, n + 1)), lead=1, filters=True, kind='group')]
    yield 'group', dict(
        kinds=[beam((('IPE', 4), ('IPE', 11))), col((('IPE', 7), ('IPE', 2))), dia((('SHS', 25), ('IPE', 9)))],
        fams=['IPE', 'SHS', 'HEB'], g=2, units=grp(3),
        pars=[DEFAULT, par(umax=800, sl=1200), par(bmin=120, cls=1)], puts={(1, 2, 60), (1, 3, 4), (1, 1, 1)}, start=[0, 2, 0])
    span = lambda x, t, s: K(((x, 0), (x + 4000, 0)), 'beam', 2, (1.0, 1.0), False, s, t)
    ms = [dict(of={1, 2}, check={1, 2}, slend=set(), flag={1, 2}, lead=1, filters=False, kind='multispan')]
    yield 'multispan', dict(
        kinds=[span(0, (('IPE', 4), ('IPE', 9), ('none', 0)), 0), span(4000, (('IPE', 6), ('SHS', 40)), 1)], fams=['IPE', 'SHS', 'HEA'],
        g=2, units=ms, pars=[DEFAULT, par(umax=700), par(cls=1)], puts={(1, 2, 50), (1, 1, 3)}, nf=2)
    yield 'group/multispan', dict(
        kinds=[span(0, (('IPE', 4), ('IPE', 9)), 0), span(4000, (('IPE', 6), ('SHS', 40)), 1), col((('IPE', 8), ('HEA', 3)))],
        fams=['IPE', 'HEA'], g=1, units=[dict(of={1, 2, 3}, check={1, 2, 3}, slend={1, 2, 3}, flag={1, 2, 3}, lead=1, filters=True,
                                              kind='group+multispan')],
        pars=[DEFAULT, par(umax=900, sl=1000)], puts={(1, 2, 20)})


def tables(cf):
    fams, kinds, ng = cf['fams'], cf['kinds'], cf['g']
    nf = cf.get('nf') or len(kinds[0].targets)
    cats = [cat_of(f) for f in fams]
    secs = [[[mk(MATS[g]) for _, mk in c] for g in range(ng)] for c in cats]
    ids, idt = {}, []
    for c in secs:
        row = []
        for p in c[0]:
            for k, v in ids.items():
                if (k[0] - p.A) ** 2 + (k[1] - p.Iy) ** 2 < 1e-6:
                    row.append(v)
                    break
            else:
                ids[(p.A, p.Iy)] = len(ids) + 1
                row.append(len(ids))
        idt.append(row)
    for c in secs:
        for g in c:
            for p in g:
                p.Ned = -1
    cls = [[[int(p.section_class()) for p in g] for g in c] for c in secs]
    sl = [[[[permille(k.slender(p)) for p in g] for g in c] for c in secs] for k in kinds]
    wid = [[int(math.floor(p.b + 1e-9)) if abs(p.b - round(p.b)) < 1e-9 else int(math.floor(p.b)) for p in c[0]] for c in secs]
    u = []
    close = 0
    for k in kinds:
        rows = []
        for f in range(1, nf + 1):
            rows.append([[[permille(max(k.util(fam, p + 1, g + 1, f).values())) for p in range(len(cat_of(fam)))]
                          for g in range(ng)] for fam in fams])
        u.append(rows)
    return dict(NM=len(kinds), NF=nf, Cats=[len(c) for c in cats], NG=ng, B=wid, Cls=cls, Sl=sl, U=u, Id=idt)


class Sized:
    turn = 0

    def __init__(self, cf, init):
        from metku.raami.frame_member import MemberGroup, MultiSpanSteelMember
        from metku.raami.frame_node import FrameNode
        from metku.raami.raami import Raami
        Sized.turn += 1
        self.cf = cf
        fam = cf['fams'][0]
        start = iter(cf.get('start') or [2] * len(cf['kinds']))
        mk = lambda: cat_of(fam)[next(start) - 1][1]('S355')
        self.frame = Raami()
        self.frame.load_ids = list(LC)
        un = cf['units'][0]
        ks = cf['kinds']
        self.ms = None
        if 'multispan' in un['kind']:
            mk = lambda: cat_of(fam)[1][1]('S355')
            nodes = [FrameNode(list(ks[0].ends[0])), FrameNode(list(ks[0].ends[1])), FrameNode(list(ks[1].ends[1]))]
            self.ms = MultiSpanSteelMember(nodes, mk(), 'beam', mem_id='B', nel=2)
            self.m = list(self.ms.members)
            for k, m in zip(ks[2:], range(2, len(ks))):
                self.m.append(k.member(mk()))
            self.ms.frame = self.frame
        else:
            self.m = [k.member(mk()) for k in ks]
        for k, m in zip(ks, self.m):
            k.prepare(m)
            m.frame = self.frame
        if un['kind'] == 'pair':
            self.m[0].symmetry_pair, self.m[1].symmetry_pair = self.m[1], self.m[0]
        self.unit = {}
        for i, u in enumerate(cf['units'], 1):
            if u['kind'] in ('member', 'pair'):
                self.unit[i] = self.m[u['lead'] - 1]
            elif u['kind'] == 'multispan':
                self.unit[i] = self.ms
            else:
                parts = [self.ms, *self.m[2:]] if self.ms else self.m
                if Sized.turn % 2 and not cf.get('start'):
                    g = MemberGroup(parts)
                else:
                    g = MemberGroup([])
                    for p in parts:
                        g.add_member(p)
                g.frame = self.frame
                self.unit[i] = g
        self.f = [0] * len(self.m)
        self.shown = [dict() for _ in self.m]
        for j in range(len(self.m)):
            self.load(j + 1, 1)

    def load(self, m, f):
        self.f[m - 1] = f
        for lc, d in self.cf['kinds'][m - 1].forces(f).items():
            self.m[m - 1].nodal_forces[lc] = {k: list(v) for k, v in d.items()}

    def apply(self, a):
        cf = self.cf
        if a['op'] == 'load':
            self.load(a['m'], a['f'])
        elif a['op'] == 'put':
            self.unit[a['u']].cross_section = cat_of(cf['fams'][a['c'] - 1])[a['p'] - 1][1]('S355')
        elif a['op'] == 'size':
            P, un = cf['pars'][a['par'] - 1], cf['units'][a['u'] - 1]
            fam = cf['fams'][a['c'] - 1]
            kw = dict(material=MATS[a['g'] - 1])
            if P is not DEFAULT:
                kw.update(sec_class=P['cls'], max_utility=P['umax'] / 1000)
                if un['filters']:
                    kw.update(bmin=P['bmin'], bmax=P['bmax'], max_slenderness=P['sl'] / 1000)
            name = 'CURRENT' if a['cur'] else [fam, fam.lower()][self.turn % 2]
            with contextlib.redirect_stdout(io.StringIO()):
                r = self.unit[a['u']].optimum_design(name, self.turn % 3 == 0, **kw)
            for m in un['check']:
                self.shown[m - 1] = None
            self.last = a
            return 1 if r else 0

    def project(self):
        return {}

    def compare_state(self, t):
        cf = self.cf
        for j, (m, s) in enumerate(zip(self.m, t['sec'])):
            fam = cf['fams'][s['c'] - 1]
            want = cat_of(fam)[s['p'] - 1][1](MATS[s['g'] - 1])
            if label(m.cross_section) != label(want):
                raise AssertionError(f'member {j + 1} has {label(m.cross_section)}, expected {label(want)}')
            if m.member.profile is not m.cross_section:
                raise AssertionError(f'member {j + 1} is designed with another section object')
            if abs(m.material.fy - want.fy) > 1e-9:
                raise AssertionError(f'member {j + 1} reports material {m.material}')
            if self.shown[j] is None:
                self.shown[j] = cf['kinds'][j].util(fam, s['p'], s['g'], self.f[j])
            got = m.utilization
            if set(got) != set(self.shown[j]) or any(abs(got[k] - v) > 1e-6 * max(1, v) for k, v in self.shown[j].items()):
                raise AssertionError(f'member {j + 1} reports utilisation {got}, fresh design {self.shown[j]}')
            if m.resistance_check != all(v <= 1 for v in got.values()):
                raise AssertionError(f'resistance check {m.resistance_check} of member {j + 1} with {got}')
        for i, un in enumerate(cf['units'], 1):
            o = self.unit[i]
            if label(o.cross_section) != label(self.m[un['lead'] - 1].cross_section):
                raise AssertionError(f'{un["kind"]} reports {label(o.cross_section)}')
            if un['kind'] not in ('member', 'pair') and getattr(self, 'last', None):
                parts = [self.m[q - 1] for q in un['check']]
                for lc in LC:
                    if abs(o.utilization[lc] - max(p.utilization[lc] for p in parts)) > 1e-9:
                        raise AssertionError(f'{un["kind"]} reports utilisation {o.utilization}')
                if o.resistance_check != all(v <= 1 for v in o.utilization.values()):
                    raise AssertionError(f'resistance check {o.resistance_check} of the {un["kind"]} with {o.utilization}')


def histories(chk):
    for name, cf in configs(chk.quick):
        T = tables(cf)
        if cf.get('start'):      # 0: the profile that sizing will find first
            n = next(p for p in range(T['Cats'][0]) if all(T['U'][m][0][0][0][p] <= 1000 for m in range(T['NM'])))
            cf['start'] = [s or n + 1 for s in cf['start']]
        fam = list(range(1, len(cf['fams']) + 1))
        defs = {k: tla(v) for k, v in T.items()}
        defs.update(Mode='"size"', Start=tla(cf.get('start') or [2] * T['NM']), Units=tla(cf['units']), Pars=tla(cf['pars']),
                    Puts='{' + ', '.join(tla(p) for p in sorted(cf['puts'])) + '}', Family=tla(fam), Traces='<<>>')
        g = chk.graph('Sizing', defs=defs, properties=['SizedRight'])
        first = [(g.states[i], [(a, g.states[t])]) for i in g.inits for a, t in g.out[i]]
        chk.replay(lambda s: Sized(cf, s), first, f'sizing/{name}')
        chk.replay(lambda s: Sized(cf, s), g.tours(chk.rng, max_len=40, edge_budget=chk.pick(130, 2500)), f'sizing/{name}')
        chk.replay(lambda s: Sized(cf, s), g.walks(chk.rng, chk.pick(6, 120), 20), f'sizing/{name}')


# ------------------------------------------------------- the frame-wide loop
class Plan:
    """A frame: nodes, members (ends, starting profile), groups, pairs, loads."""

    def __init__(self, name, nodes, members, supports, loads, groups=(), pairs=(), prof='CURRENT', symmetric=False):
        self.name, self.nodes, self.members, self.supports, self.loads = name, nodes, members, supports, loads
        self.groups, self.pairs, self.prof, self.symmetric = groups, pairs, prof, symmetric

    def build(self, sections, link):
        from metku.raami import frame_loads as fl
        from metku.raami.frame_member import MemberGroup, SteelFrameMember
        from metku.raami.frame_node import FrameNode
        from metku.raami.frame_supports import FixedSupport, XYHingedSupport
        from metku.raami.raami import Raami
        f = Raami()
        n = [FrameNode(list(x)) for x in self.nodes]
        for x in n:
            f.add(x)
        ms = []
        for (a, b, mt, nel, hinges, lcr), sec in zip(self.members, sections):
            m = SteelFrameMember([n[a], n[b]], sec, mt, nel=nel, hinges=list(hinges), lcr=list(lcr))
            f.add(m)
            ms.append(m)
        for i, fixed in self.supports:
            f.add((FixedSupport if fixed else XYHingedSupport)(n[i]))
        for what, i, v, *rest in self.loads:
            f.add(fl.LineLoad(ms[i], v, *rest) if what == 'line' else fl.PointLoad(n[i], v, *rest))
        groups = []
        if link:
            for g in self.groups:
                groups.append(MemberGroup([ms[i] for i in g], name=f'G{len(groups)}'))
                f.member_groups[f'G{len(groups)}'] = groups[-1]
            if self.symmetric:
                f.symmetry()
            for a, b in self.pairs:
                if self.symmetric:
                    if ms[a].symmetry_pair is not ms[b] or ms[b].symmetry_pair is not ms[a]:
                        raise AssertionError(f'members {a} and {b} lie symmetrically, pairs are '
                                             f'{[m.symmetry_pair for m in ms]}')
                else:
                    ms[a].symmetry_pair, ms[b].symmetry_pair = ms[b], ms[a]
        with contextlib.redirect_stdout(io.StringIO()):
            f.generate_fem()
        return f, ms, groups

    def units(self):
        """lists of members sized together, with the limits they are checked by"""
        out = [list(g) for g in self.groups]
        seen = {i for g in out for i in g}
        mate = {a: b for p in self.pairs for a, b in (p, p[::-1])}
        for i in range(len(self.members)):
            if i not in seen:
                u = [i] + ([mate[i]] if i in mate else [])
                seen |= set(u)
                out.append(u)
        return out


def plans(quick):
    ipe, hea, heb, rhs, shs, chs = 'IPE', 'HEA', 'HEB', 'RHS', 'SHS', 'CHS'
    H, R = (False, False), (1.0, 1.0)
    portal = [(0, 0), (0, 5000), (8000, 5000), (8000, 0)]
    for sc in (1.0, 4.0) if quick else (0.3, 1.0, 2.0, 4.0, 9.0):
        yield Plan(f'portal x{sc}', portal, [(0, 1, 'column', 2, H, (2.0, 1.0)), (1, 2, 'beam', 4, H, R), (3, 2, 'column', 2, H, (2.0, 1.0))],
                   [(0, True), (3, True)], [('line', 1, [-10.0 * sc, -10.0 * sc], 'y', 2), ('line', 0, [4.0 * sc, 4.0 * sc], 'x', 5)],
                   pairs=[(0, 2)], symmetric=True), [(hea, 3), (ipe, 5), (hea, 3)]
        yield Plan(f'two bays x{sc}', [(0, 0), (0, 4000), (6000, 4000), (6000, 0), (12000, 4000), (12000, 0)],
                   [(0, 1, 'column', 1, H, (1.5, 1.0)), (3, 2, 'column', 2, H, R), (5, 4, 'column', 2, H, R),
                    (1, 2, 'beam', 3, H, R), (2, 4, 'beam', 3, (True, False), R), (0, 2, 'brace', 1, (True, True), R)],
                   [(0, False), (3, False), (5, False)],
                   [('line', 3, [-12.0 * sc, -18.0 * sc], 'y', 2), ('line', 4, [-9.0 * sc, -9.0 * sc], 'y', 2),
                    ('node', 1, [2e4 * sc, 0, 0], 7), ('line', 4, [-4.0 * sc, -20.0 * sc], 'y', 7)],
                   groups=[(0, 1, 2), (4, 3)]), [(shs, 40), (shs, 40), (shs, 40), (ipe, 8), (ipe, 8), (chs, 20)]
        yield Plan(f'mixed x{sc}', [(0, 0), (0, 3500), (7000, 4200), (7000, 0)],
                   [(0, 1, 'column', 2, H, R), (1, 2, 'beam', 3, H, (1.0, 0.5)), (3, 2, 'column', 1, H, (1.2, 1.0)), (0, 2, 'brace', 1, (True, True), R)],
                   [(0, True), (3, False)], [('line', 1, [-8.0 * sc, -3.0 * sc], 'y', 1), ('node', 2, [-3e4 * sc, -5e4 * sc, 0], 4)],
                   groups=[(0, 2)], prof='HEB' if sc > 1 else 'RHS'), [(heb, 2), (heb, 2), (rhs, 30), (rhs, 30)]


def frame_loop(chk):
    traces, names = [], []
    for plan, start in plans(chk.quick):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                traces.append(record_run(plan, start))
            names.append(plan.name)
        except MachineryError:
            raise
        except Exception as e:      # the loop itself failed
            chk.violation(f'frame/{plan.name}/{type(e).__name__}', dict(what=f'{plan.name}: {type(e).__name__}: {e}'))
    if not traces:
        return
    defs = {k: '0' for k in ('NM', 'NF', 'NG')}
    defs.update({k: '<<>>' for k in ('Cats', 'Units', 'Pars', 'U', 'B', 'Cls', 'Sl', 'Id', 'Family', 'Start')})
    defs.update(Mode='"frame"', Puts='{}', Traces=tla(traces))
    r = chk.tlc('Sizing', defs=defs)
    rounds = {}
    for l in r.lines:
        if l['ok']:
            rounds[l['tr']] = max(rounds.get(l['tr'], 0), l['rd'])
    for i, (t, name) in enumerate(zip(traces, names), 1):
        chk.traces += 1
        chk.steps += len(t['rounds'])
        k = rounds.get(i, 0)
        if k < len(t['rounds']):
            chk.violation(f'frame/{name}/round', dict(what=f'{name}: sizing round {k + 1} of {len(t["rounds"])} is not one of the specification',
                                                      round=t['rounds'][k], trace=t))
        elif t['final'] != t['rounds'][-1]['after']:
            chk.violation(f'frame/{name}/final', dict(what=f'{name}: profiles after the sizing', trace=t))


def record_run(plan, start):
    secs = lambda: [cat_of(f)[k][1]('S355') for f, k in start]
    f, ms, groups = plan.build(secs(), True)
    units = plan.units()
    lcs = list(f.load_ids)
    objs = [*groups, *[ms[u[0]] for u in units[len(groups):]]]
    number = {id(o): k for k, o in enumerate(objs, 1)}
    number.update({id(ms[j]): k for k, u in enumerate(units, 1) if k > len(groups) for j in u})

    def now():
        """one profile per unit: all its members have it"""
        out = []
        for u in units:
            ls = sorted({label(ms[i].cross_section) for i in u})
            out.append(ls[0] if len(ls) == 1 else 'different: ' + ' / '.join(ls))
        return out

    rounds, t0 = [], now()
    analyse = f.structural_analysis

    def watched(*a, **k):
        r = analyse(*a, **k)
        rounds.append(dict(an=now(), sized=[], objs=[m.cross_section for m in ms]))
        return r
    f.structural_analysis = watched
    for o in {id(o): o for o in [*objs, *ms]}.values():
        def sized(*a, o=o, real=o.optimum_design, **k):
            r = real(*a, **k)
            if not rounds:
                rounds.append(dict(an=['none'], sized=[], objs=[m.cross_section for m in ms]))
            u = number.get(id(o), 0)
            rounds[-1]['sized'].append(dict(u=u, got=now()[u - 1] if u else 'unknown unit', flag=bool(r)))
            return r
        o.optimum_design = sized
    f.optimize_members(plan.prof)
    for r in rounds:
        r['after'] = None
    for r in rounds:
        firsts = right(plan, units, r['objs'], lcs)
        for s in r['sized']:
            s['first'] = firsts[s['u'] - 1] if s['u'] else 'none'
        r['after'] = now() if r is rounds[-1] else None
        del r['objs']
    for r in rounds[:-1]:
        r['after'] = []
    return dict(start=t0, rounds=rounds, nu=len(units), max=9, final=now())


def right(plan, units, sections, lcs):
    """the first adequate profile of every unit for the forces of a fresh frame with these sections"""
    import copy
    g, ms, _ = plan.build([copy.copy(s) for s in sections], False)
    with contextlib.redirect_stdout(io.StringIO()):
        g.structural_analysis('all', 'REM')
    out = []
    for u in units:
        lead = ms[u[0]]
        fam = plan.prof if plan.prof != 'CURRENT' else type(lead.cross_section).__name__
        # a group asks the slenderness of all its members, a symmetric pair that of the one sized
        asked = u if list(u) in [list(x) for x in plan.groups] else u[:1]
        best = None
        for k, (_, mk) in enumerate(cat_of(fam)):
            p = mk('S355')
            best = label(p)
            p.Ned = -1
            if p.section_class() > 3 or p.b < 10:
                continue
            ks = [Kind((plan.nodes[plan.members[i][0]], plan.nodes[plan.members[i][1]]), plan.members[i][2], plan.members[i][3],
                       plan.members[i][5], False, 0, ()) for i in u]
            if any(kk.slender(p) > 5.0 for kk, i in zip(ks, u) if i in asked):
                continue
            if all(util(kk, mk('S355'), ms[i], lcs) <= 1.0 for kk, i in zip(ks, u)):
                break
        out.append(best)
    return out


def util(k, section, m, lcs):
    x = k.fresh(section)
    for lc in lcs:
        x.nodal_forces[lc] = m.nodal_forces[lc]
        x.design(lc)
    return max(x.utilization.values())


def run(chk):
    import metku.sections.steel.CHS, metku.raami.frame_member  # noqa: E401 (they set warning filters)
    warnings.simplefilter('ignore')
    histories(chk)
    frame_loop(chk)
