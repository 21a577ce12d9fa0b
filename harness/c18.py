"""C18: cross-section class, the resistances that follow from it, moment and interaction factors."""
import warnings
from math import pi, sqrt

from common import MachineryError, tla
import ec3

warnings.simplefilter('ignore')
FY = {'S220GD': 220, 'S235': 235, 'S275': 275, 'S355': 355, 'S420': 420, 'S460M': 460, 'S700': 700}


GRADE = {v: k for k, v in FY.items()}
ALPHA = dict(a0=0.13, a=0.21, b=0.34, c=0.49, d=0.76)


class Tables:
    """The functions of the design code module themselves."""

    def __init__(self, init):
        from metku.eurocodes.en1993 import en1993_1_1 as ec
        self.ec = ec
        self.sections = {}
        self.order = ['h', 'b', 'tf', 'material']

    def apply(self, a):
        getattr(self, a['op'])(a)

    def project(self):
        return dict(turn=0)

    def part(self, a):
        ec, e = self.ec, sqrt(235 / a['fy'])
        if a['kind'] == 'combined':
            psi = a['p'] / 20 if not a['q'] else -(a['q'] / 10) ** 2
            fn = lambda r, x: ec.internal_part_comp_bend(r, x, a['a'] / 20, psi)
        else:
            f = dict(comp=ec.internal_part_in_compression, bend=ec.internal_part_in_bending,
                     outstand=ec.outstand_part_in_compression, tube=ec.CHS_class)[a['kind']]
            fn = lambda r, x: f(r, x)
        lim = a['limits']
        edges = sorted({x for iv in lim for x in iv if x < 10 ** 9})
        pts = {1.0}
        for x in edges:
            pts |= {x - 1, x + 1, x * 0.97, x * 1.03}
        pts |= {(x + y) / 2 for x, y in zip(edges, edges[1:])} | {(edges or [1000.0])[-1] * 1.7}
        for p in sorted(pts):
            p = p / 1000 * 1000
            if p <= 0 or any(lo <= p <= hi for lo, hi in lim):
                continue
            want = next((k + 1 for k, (lo, hi) in enumerate(lim) if p < lo), 4)
            got = fn(p / 1000, e)
            if got != want:
                raise AssertionError(f'c/t = {p / 1000} has class {got}, table: {want}')
            if a['kind'] not in ('bend', 'tube'):
                got = fn(p / 1000, a['fy'])     # the yield strength may be given instead of epsilon
                if got != want:
                    raise AssertionError(f'c/t = {p / 1000} has class {got} with the yield strength given, table: {want}')

    def near(self, what, got, want):
        w = want[0] / want[1]
        if abs(got - w) > 1e-9 * max(1, abs(w)):
            raise AssertionError(f'{what} = {got}, table: {w}')

    def cm(self, a):
        for f in (1e6, 3.7):
            self.near('Cm', self.ec.equivalent_moment_factor([a['m1'] * f, a['m2'] * f], a['ms'] * f, a['load']), a['cm'])
        if 2 * a['ms'] == a['m1'] + a['m2']:
            self.near('Cm', self.ec.equivalent_moment_factor([a['m1'] * 1e6, a['m2'] * 1e6], None, a['load']), a['cm'])

    def curve(self, a):
        from metku.sections.steel.ISection import CustomISection
        from metku.sections.steel.wi import WISection
        (h, b, tf), g = a['d'], GRADE[a['fy']]
        if a['kind'] == 'rolled':
            fresh = CustomISection(h, b, tf, 0.6 * tf, 12, fy=g)
            dims = dict(h=h, b=b, tf=tf)
        else:
            bb, tt = [b, b + a['w']], [tf, tf - a['x']]
            if a['up']:
                bb.reverse()
            fresh = WISection(h, 4, bb, tt, fy=g, weld_throat=3)
            dims = dict(h=h, b=bb, tf=tt)
        old = self.sections.setdefault(a['kind'], fresh)
        for key in self.order:
            setattr(old, key, dims[key]) if key in dims else setattr(old, 'material', g)
        self.order = self.order[1:] + self.order[:1]
        for what, s in (('new', fresh), ('changed', old)):
            got = list(s.imp_factor) + [s.imp_factor_LT_gen, s.imp_factor_LT]
            want = [ALPHA[c] for c in a['curves']]
            if got != want:
                raise AssertionError(f'{what} {a["kind"]} section {dims} {g}: imperfection factors {got}, tables {want}')

    def k(self, a):
        ec, l, u, c, cl = self.ec, a['l'] / 10, a['u'] / 10, a['c'] / 20, a['cl']
        self.near('kyy', ec.kyy(u, l, c, section_class=cl), a['kyy'])
        self.near('kzz', ec.kzz(u, l, c, section_class=cl, profile='hollow'), a['hollow'])
        self.near('kzz', ec.kzz(u, l, c, section_class=cl, profile='open'), a['open'])
        ky = a['kyy'][0] / a['kyy'][1]
        kz = a['open'][0] / a['open'][1]
        self.near('kyz', ec.kyz(kz, section_class=cl), [(0.6 if cl < 3 else 1.0) * kz, 1])
        self.near('kzy', ec.kzy(ky=ky, UN=u, slend=l, CmLT=c, section_class=cl), [(0.6 if cl < 3 else 0.8) * ky, 1])
        if c > 0.25:
            self.near('kzy', ec.kzy(ky=ky, UN=u, slend=l, CmLT=c, section_class=cl, susceptible_to_torsion=True), a['tors'])


# ------------------------------------------------------------------ sections
def radius(t):
    return 2 * t if t <= 6 else 2.5 * t if t <= 10 else 3 * t


def i_sec(name, make, h, b, tf, tw, r):
    A = 2 * b * tf + (h - 2 * tf) * tw + (4 - pi) * r * r
    c = h - 2 * tf - 2 * r
    return dict(name=name, make=make, kind='I', A=A, top=(0.5 * (b - tw) - r) / tf, web=c / tw, Aw=c * tw, straight=c / h,
                Av=A - 2 * b * tf + (tw + 2 * r) * tf, aw=min((A - 2 * b * tf) / A, 0.5))


def rhs(name, make, h, b, t):
    R = radius(t)
    A = 2 * t * (h + b - 4 * R) + pi * (R * R - (R - t) ** 2)
    c = h - 2 * R
    return dict(name=name, make=make, kind='RHS', A=A, top=(b - 2 * R) / t, web=c / t, Aw=2 * c * t, straight=c / h,
                Av=A * h / (b + h), Avy=A * b / (b + h), aw=min((A - 2 * b * t) / A, 0.5))


def chs(name, make, d, t):
    A = pi * (d - t) * t
    return dict(name=name, make=make, kind='CHS', A=A, top=d / t, web=d / t, Aw=A, straight=1.0, Av=2 * A / pi, Avy=2 * A / pi)


def wi(name, make, h, tw, b, t, a):
    hw = h - sum(t)
    wl = sqrt(2) * a
    c = hw - 2 * wl
    A = hw * tw + b[0] * t[0] + b[1] * t[1]
    zc = (b[0] * t[0] * (h - t[0] / 2) + hw * tw * (t[1] + hw / 2) + b[1] * t[1] * t[1] / 2) / A
    zmax = max(zc, h - zc)
    return dict(name=name, make=make, kind='WI', A=A, top=(0.5 * (b[0] - tw) - wl) / t[0], bot=(0.5 * (b[1] - tw) - wl) / t[1],
                web=c / tw, Aw=c * tw, At=b[0] * t[0], Ab=b[1] * t[1], Aweld=wl * tw, ft=(h - zc) / zmax, fb=zc / zmax,
                zt=(h - zc - t[0]) / zmax, zb=(zc - t[1]) / zmax, straight=c / h,
                hwtw=hw * tw, aw=min((A - b[0] * t[0] - b[1] * t[1]) / A, 0.5))


def sections(thorough):
    from metku.sections.steel.CHS import CHS, CustomCHS
    from metku.sections.steel.ISection import HEA, HEB, IPE, CustomISection
    from metku.sections.steel.RHS import RHS, SHS
    from metku.sections.steel.wi import WISection
    out = [
        i_sec('IPE 200', lambda g: IPE(200, fy=g), 200, 100, 8.5, 5.6, 12),
        i_sec('HEA 260', lambda g: HEA(260, fy=g), 250, 260, 12.5, 7.5, 24),
        i_sec('IPE 600', lambda g: IPE(600, fy=g), 600, 220, 19, 12, 24),
        i_sec('HEB 1000', lambda g: HEB(1000, fy=g), 1000, 300, 36, 19, 30),
        i_sec('I wide', lambda g: CustomISection(300, 300, 9, 10, 15, fy=g), 300, 300, 9, 10, 15),
        i_sec('I thin web', lambda g: CustomISection(500, 150, 16, 5, 10, fy=g), 500, 150, 16, 5, 10),
        rhs('RHS 200x100x5', lambda g: RHS(200, 100, 5.0, fy=g), 200, 100, 5.0),
        rhs('RHS 300x100x5', lambda g: RHS(300, 100, 5.0, fy=g), 300, 100, 5.0),
        rhs('RHS 100x200x6.3', lambda g: RHS(100, 200, 6.3, fy=g), 100, 200, 6.3),
        rhs('SHS 150x4', lambda g: SHS(150, 4.0, fy=g), 150, 150, 4.0),
        rhs('SHS 250x12.5', lambda g: SHS(250, 12.5, fy=g), 250, 250, 12.5),
        chs('CHS 168.3x4', lambda g: CHS(168.3, 4.0, fy=g), 168.3, 4.0),
        chs('CHS 323.9x5', lambda g: CustomCHS(323.9, 5.0, fy=g), 323.9, 5.0),
        chs('CHS 60.3x5', lambda g: CHS(60.3, 5.0, fy=g), 60.3, 5.0),
    ]
    for n, h, tw, b, t, a in (('WI equal', 500, 8, [200, 200], [15, 15], 5), ('WI slender', 1000, 6, [300, 300], [16, 16], 4),
                              ('WI thin bottom', 600, 8, [200, 300], [20, 10], 5), ('WI heavy top', 500, 6, [350, 150], [18, 12], 4),
                              ('WI heavy bottom', 700, 10, [180, 320], [10, 25], 6), ('WI top has half', 300, 6, [300, 120], [30, 10], 3)):
        out.append(wi(n, lambda g, h=h, tw=tw, b=b, t=t, a=a: WISection(h, tw, list(b), list(t), fy=g, weld_throat=a), h, tw, b, t, a))
    return out


class Loaded:
    def __init__(self, cat, grades, init):
        self.d = cat[init['s'] - 1]
        self.grades = grades
        self.st = dict(s=init['s'], g=init['g'], n=init['n'], m=init['m'])
        self.s = self.d['make'](grades[init['g'] - 1])
        self.load()

    def load(self):
        s, st = self.s, self.st
        fy = FY[self.grades[st['g'] - 1]]
        self.fy, self.A = fy, self.d['A']
        s.Ned = st['n'] / 20 * self.d['A'] * fy
        s.Med = [st['m'] / 20 * float(s.Wel[0]) * fy, 0.0]
        self.V = 0.3 * self.d['A'] * fy / sqrt(3)
        s.Ved = [0.5 * self.V, self.V]

    def apply(self, a):
        st = self.st
        if a['op'] == 'force':
            st['n'], st['m'] = a['n'], a['m']
            self.load()
        elif a['op'] == 'grade':
            st['g'] = a['g']
            self.s.material = self.grades[a['g'] - 1]
            self.load()
        elif a['op'] == 'ask':
            self.ask(a)

    def project(self):
        return dict(self.st)

    def near(self, what, got, want, tol=2e-4):
        if not abs(got - want) <= tol * max(abs(want), 1e-12):
            raise AssertionError(f'{self.d["name"]} {self.grades[self.st["g"] - 1]} n={self.st["n"]} m={self.st["m"]}: {what} is {got}, '
                                 f'specification {want}')

    def ask(self, a):
        s, d, fy = self.s, self.d, self.fy
        cls = s.section_class()
        who = f'{d["name"]} {self.grades[self.st["g"] - 1]} n={self.st["n"]} m={self.st["m"]}'
        if cls not in a['cls'] or s.C != cls:
            raise AssertionError(f'class of {who} is {cls} (C: {s.C}), specification {a["cls"]}')
        mod, tog = a['modulus'][cls - 1], a['together'][cls - 1]
        W = dict(plastic=lambda: s.Wpl[0], elastic=lambda: s.Wel[0], effective=lambda: s.Weff[0])[mod]()
        MRd = float(W) * fy
        M, c = s.bending_resistance()
        if c != cls:
            raise AssertionError(f'bending resistance of {who} uses class {c}, section class {cls}')
        self.near('bending resistance', M, MRd)
        self.near('MRd', s.MRd, MRd)
        self.near('MyRd', s.MyRd, MRd)
        for k in (1, 2, 3):
            Wk = (s.Wpl if k < 3 else s.Wel)[0]
            self.near(f'bending resistance of class {k}', s.bending_resistance(C=k)[0], float(Wk) * fy)
        self.near('plastic resistance', s.plastic_bending_resistance(), float(s.Wpl[0]) * fy)
        self.near('elastic resistance', s.elastic_bending_resistance(), float(s.Wel[0]) * fy)
        NRd = d['A'] * fy
        self.near('axial resistance', s.NRd, NRd)
        self.near('axial resistance', s.axial_force_resistance(), NRd)
        Av = d['Av'] if 'Av' in d else (1.2 if fy <= 460 else 1.0) * d['hwtw']
        VRd = Av * fy / sqrt(3)
        for what, v in (('VRd', s.VRd), ('VzRd', s.VzRd), ('shear resistance', s.shear_force_resistance())):
            self.near(what, v, VRd)
        if 'Avy' in d:
            self.near('VyRd', s.VyRd, d['Avy'] * fy / sqrt(3))
        n, m = abs(self.st['n']) / 20, abs(self.st['m']) / 20
        UM = m * float(s.Wel[0]) * fy / MRd
        both = n + UM
        if tog == 'reduced moment':
            red = 1 - n ** 1.7 if d['kind'] == 'CHS' else min((1 - n) / (1 - 0.5 * d['aw']), 1.0)
            both = UM / red
        want = [n, self.V / VRd, UM, both]
        got = list(s.section_resistance())
        if len(got) != 4:
            raise AssertionError(f'{len(got)} utilisations')
        for what, x, y in zip(('axial', 'shear', 'bending', 'interaction'), got, want):
            if abs(x - y) > 2e-4 * max(abs(y), 1e-3) + 1e-9:
                self.near(what + ' utilisation', x, y)
        self.near('utilisation', s.section_resistance(return_list=False), max(want))


def cat_tubes():
    return [d for d in sections(False) if d['kind'] in ('RHS', 'CHS')]


def run(chk):
    from metku.sections.steel.CHS import CHS  # noqa: F401 (sets warning filters)
    warnings.simplefilter('ignore')
    T = chk.tier == 'thorough'
    tabs = dict(Grades=tla({220, 235, 250, 275, 355, 420, 460, 590, 700} if T else {220, 235, 355, 460, 700}),
                Alphas=tla(set(range(0, 21)) if T else {0, 1, 4, 8, 9, 10, 11, 12, 14, 17, 20}),
                Psis=tla(set(range(-19, 21, 1 if T else 3)) | {-19, 0, 20}), PsiRoots=tla({10, 11, 12, 14, 17} if T else {10, 12, 17}),
                Moments=tla(set(range(-4, 5)) if T else {-4, -3, -1, 0, 1, 2, 4}), Slend=tla({0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 20}),
                Util=tla({0, 1, 5, 9, 10}), Cms=tla({8, 12, 18, 20}), Dims=tla({(100, 100, 10)}), Modes=tla({'part', 'cm', 'k'}))
    g = chk.graph('CodeTables', defs=tabs, properties=['Nested', 'CmRange', 'CmSymmetric'])
    chk.replay(lambda s: Tables(s), g.tours(chk.rng, max_len=40), 'tables')
    hs = {360, 361, 600, 601, 900} if not T else {300, 359, 360, 361, 599, 600, 601, 900}
    bs = {300, 450} if not T else {200, 299, 300, 301, 450}
    tabs.update(Modes=tla({'curve'}), Grades=tla({235, 355, 420, 460, 700}),
                Dims=tla({(h, b, t) for h in hs for b in bs for t in (12, 40, 41, 100, 101)}))
    g = chk.graph('CodeTables', defs=tabs, properties=['CurvesOrdered'])
    chk.replay(lambda s: Tables(s), g.tours(chk.rng, max_len=40), 'buckling curves')
    for s, name in ((d['make']('S355'), d['name']) for d in cat_tubes()):
        chk.expect(list(s.imp_factor) == [ALPHA['c']] * 2, f'tube curve {name}',
                   f'{name}: imperfection factors {list(s.imp_factor)}, cold-formed tubes follow curve c')
    cat = sections(T)
    grades = ['S355', 'S235', 'S700', 'S460M', 'S220GD'] if T else ['S355', 'S235', 'S700', 'S220GD']
    ns = [-22, -18, -11, -7, -4, -2, -1, 0, 1, 3, 9] if T else [-22, -13, -4, -1, 0, 1, 3]
    ms = [-17, -12, -6, 0, 6, 12, 17] if T else [-17, -6, 0, 6]
    rec = []
    for d in cat:
        for n in ns:
            for m in ms:
                if n > 0 and abs(n * 100 - 100 * d['straight'] * abs(m)) < 8:
                    raise MachineryError(f'{d["name"]}: {n}, {m} too close to a case boundary')
        rec.append({k: v if isinstance(v, str) else round(v) for k, v in dict(
            kind=d['kind'], top=100 * d['top'], bot=100 * d.get('bot', d['top']), web=100 * d['web'], A=d['A'], Aw=d['Aw'],
            At=d.get('At', 0), Ab=d.get('Ab', 0), Aweld=d.get('Aweld', 0), zt=1000 * d.get('zt', 1), zb=1000 * d.get('zb', 1),
            ft=1000 * d.get('ft', 1), fb=1000 * d.get('fb', 1), straight=100 * d['straight']).items()})
    g = chk.graph('SectionClass', defs=dict(Secs=tla(rec), Grades=tla([FY[x] for x in grades]), Ns=tla(set(ns)), Ms=tla(set(ms))),
                  properties=['Answered', 'TensionIsClassOne'])
    chk.notes['sections'] = f'{len(cat)} sections, {len(g.states)} states, {g.n} transitions'
    chk.replay(lambda s: Loaded(cat, grades, s), g.tours(chk.rng, max_len=200), 'sections')
