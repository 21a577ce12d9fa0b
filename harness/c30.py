"""C30: composite beams and concrete filled tubes follow EN 1994-1-1 (Composite.tla)"""
import contextlib
import io
import warnings
from math import pi, sqrt

import numpy as np

from common import tla

warnings.simplefilter('ignore')
E = 210000.0
GRADE = {235: 'S235', 355: 'S355', 420: 'S420', 460: 'S460M'}
CONCRETE = {12: 'C12/15', 16: 'C16/20', 20: 'C20/25', 25: 'C25/30', 30: 'C30/37', 35: 'C35/45', 40: 'C40/50', 45: 'C45/55', 50: 'C50/60'}


def same(what, got, want, tol=1e-9):
    got = float(np.squeeze(got))
    if not abs(got - want) <= tol * max(abs(want), 1e-9):
        raise AssertionError(f'{what}: {got}, by EN 1994-1-1: {want}')


def Ecm(fck):
    return 22000 * ((fck + 8) / 10) ** 0.3


def creep(fck, RH, h0, t, t0):
    """EN 1992-1-1, Annex B"""
    fcm = fck + 8
    a1, a2, a3 = ((35 / fcm) ** e if fcm > 35 else 1.0 for e in (0.7, 0.2, 0.5))
    phi = (1 + (1 - RH / 100) / (0.1 * h0 ** (1 / 3)) * a1) * a2
    beta = min(1.5 * (1 + (0.012 * RH) ** 18) * h0 + 250 * a3, 1500 * a3)
    return phi * 16.8 / sqrt(fcm) / (0.1 + t0 ** 0.2) * ((t - t0) / (beta + t - t0)) ** 0.3


class Beam:
    made = 0

    def __init__(self, init):
        from metku.eurocodes.en1992 import constants
        from metku.sections.composite import composite_beam as m
        warnings.simplefilter('ignore')
        Beam.made += 1
        self.s, self.steps = dict(init['s']), init['steps']
        s = self.s
        concrete = constants.Concrete(CONCRETE[s['fck']])
        self.RH = (50, 80, 35)[Beam.made % 3]
        slab = m.CompositeSlab(s['hc'] + s['ha'], concrete, s['ha']) if s['ha'] or Beam.made % 2 else m.ConcreteSlab(s['hc'], concrete)
        self.m = m.CompositeIBeam(1000 * s['L'], self.steel(), slab, RH=self.RH)

    def steel(self):
        from metku.sections.steel.wi import WISection
        s = self.s
        w = WISection(s['hw'] + s['tt'] + s['tb'], s['tw'], [s['bt'], s['bb']], [s['tt'], s['tb']], fy=GRADE[s['fy']], weld_throat=0)
        return w

    def project(self):
        return {'s': dict(self.s), 'steps': self.steps}

    def apply(self, a):
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(self, a['op'])(a)

    def change(self, a):
        from metku.eurocodes.en1992 import constants
        from metku.sections.composite import composite_beam as m
        f = a['field']
        self.s[f] = a['to']
        self.steps += 1
        s = self.s
        if f == 'L':
            self.m.length = 1000 * s['L']
        elif f == 'fck':
            self.m.slab.material = constants.Concrete(CONCRETE[s['fck']])
            self.m.slab.material.RH = self.RH
        elif f == 'hc':
            self.m.slab.hc = s['hc']
        elif f == 'ha':
            self.m.slab = m.CompositeSlab(s['hc'] + s['ha'], self.m.slab.material, s['ha'])
        else:
            self.m.steel = self.steel()

    def plates(self):
        """steel plates below the top of the slab: (top, thickness, width)"""
        s, h = self.s, self.s['hc'] + self.s['ha']
        return [(h, s['tt'], s['bt']), (h + s['tt'], s['hw'], s['tw']), (h + s['tt'] + s['hw'], s['tb'], s['bb'])]

    def plastic(self, a):
        s = self.s
        share = a['at'][0] / a['at'][1]
        h = s['hc'] + s['ha']
        x = {'slab': share * s['hc'], 'flange': h + share, 'web': h + s['tt'] + share}[a['part']]
        same('plastic neutral axis', self.m.plastic_neutral_axis(), x)
        fcd = 0.85 * s['fck'] / 1.5
        depth = min(x, s['hc'])
        M, N = -fcd * depth * 250 * s['L'] * depth / 2, -fcd * depth * 250 * s['L']
        for top, t, b in self.plates():
            up = min(max(x - top, 0), t)              # compressed part of the plate
            for part, y, sign in (up, top + up / 2, -1), (t - up, top + up + (t - up) / 2, 1):
                N += sign * part * b * s['fy']
                M += sign * part * b * s['fy'] * y
        if abs(N) > 1e-6 * fcd * depth * 250 * s['L']:
            raise AssertionError(f'the specification is not in equilibrium: {N}')
        same('moment resistance', self.m.MplRd(), M)
        same('resultant of the concrete', self.m.Rc(), fcd * s['hc'] * 250 * s['L'])
        same('resultant of the steel', self.m.Ra(), s['fy'] * sum(t * b for _, t, b in self.plates()))
        same('shear resistance', self.m.VRd(), float(np.squeeze(self.steel().shear_force_resistance())))

    def elastic(self, a):
        s, m = self.s, self.m
        phi = creep(s['fck'], self.RH, 2 * s['hc'], 1e8, 28)
        phi1 = creep(s['fck'], self.RH, 2 * s['hc'], 1e8, 1)
        same('creep coefficient', m.creep_coefficient(), phi)
        Ec = Ecm(s['fck'])
        same('short-term modular ratio', m.n0, E / Ec)
        same('modular ratio with creep', m.nC, E / Ec * (1 + 1.1 * phi))
        same('modular ratio with shrinkage', m.nS, E / Ec * (1 + 0.55 * phi1))
        if a['creep']:
            Ec /= 1 + 1.1 * phi
        how = 'creep' if a['creep'] else None
        parts = [(E, top + t / 2, t * b, b * t ** 3 / 12) for top, t, b in self.plates()] + \
                [(Ec, s['hc'] / 2, 250 * s['L'] * s['hc'], 250 * s['L'] * s['hc'] ** 3 / 12)]
        EA = sum(e * A for e, y, A, I in parts)
        y0 = sum(e * A * y for e, y, A, I in parts) / EA
        EI = sum(e * (I + A * (y - y0) ** 2) for e, y, A, I in parts)
        same('effective width', m.beff, 250 * s['L'])
        same('axial stiffness', m.EAcom(how), EA)
        same('elastic neutral axis', m.centroid(how), y0)
        same('bending stiffness', m.EIcom(how), EI)
        if not a['creep']:
            same('degree of composite action', (m.composite_coefficient() + 1) * (m.EIa + m.EIc), EI)
        same('weight of wet concrete', m.slab.weight() if hasattr(m.slab, 'weight') else m.slab.concrete_weight(), 25e-3 * (s['hc'] + s['ha']))


class Tube:
    made = 0

    def __init__(self, init):
        from metku.eurocodes.en1992 import constants, en1992_1_1
        from metku.sections.composite.composite_column import ConcreteFilledTube
        warnings.simplefilter('ignore')
        Tube.made += 1
        self.s, self.steps = dict(init['s']), init['steps']
        s = self.s
        self.m = ConcreteFilledTube(1000 * s['L'], self.steel(), constants.Concrete(CONCRETE[s['fck']]), en1992_1_1.Rebar(s['d']))
        self.place()

    def steel(self):
        from metku.sections.steel.RHS import RHS
        s = self.s
        return RHS(s['h'], s['b'], s['t'], fy=GRADE[s['fy']])

    def place(self):
        self.m.u = self.m.v = self.s['u']

    def project(self):
        return {'s': dict(self.s), 'steps': self.steps}

    def apply(self, a):
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(self, a['op'])(a)

    def change(self, a):
        from metku.eurocodes.en1992 import constants, en1992_1_1
        f = a['field']
        self.s[f] = a['to']
        self.steps += 1
        s, m = self.s, self.m
        if f == 'L':
            m.length = 1000 * s['L']
        elif f == 'fck':
            m.concrete = constants.Concrete(CONCRETE[s['fck']])
        elif f == 'd':
            m.rebar = en1992_1_1.Rebar(s['d'])
        elif f != 'u':
            m.steel = self.steel()
        self.place()

    def grains(self, axis='y'):
        """slices of the concrete across the axis: position, width, thickness (bars not deducted)"""
        s = self.s
        H, B = (s['h'], s['b']) if axis == 'y' else (s['b'], s['h'])
        t, r = s['t'], self.m.steel.R - s['t']
        h, b = H / 2 - t, B - 2 * t
        n = 4000
        # half of the height; the corners by their angle
        z1 = (np.arange(n) + 0.5) / n * (h - r)
        w1 = np.full(n, b)
        d1 = np.full(n, (h - r) / n)
        th = (np.arange(n) + 0.5) / n * pi / 2
        z2 = h - r + r * np.sin(th)
        w2 = b - 2 * r + 2 * r * np.cos(th)
        d2 = r * (np.sin(th + pi / 4 / n) - np.sin(th - pi / 4 / n))
        return np.r_[z1, z2], np.r_[w1, w2], np.r_[d1, d2]

    def numbers(self, axis='y'):
        s = self.s
        z, w, dz = self.grains(axis)
        A1 = pi * s['d'] ** 2 / 4
        zb = (s['h'] if axis == 'y' else s['b']) / 2 - s['t'] - s['u'] - s['d'] / 2
        Is = 4 * (pi * s['d'] ** 4 / 64 + A1 * zb ** 2)
        return dict(As=4 * A1, Ac=2 * (w * dz).sum() - 4 * A1, Is=Is, Ic=2 * (w * z ** 2 * dz).sum() - Is, Ws=4 * A1 * zb,
                    Wc=2 * (w * z * dz).sum() - 4 * A1 * zb, zb=zb)

    def section(self, a):
        m, n, s = self.m, self.numbers(), self.s
        near = lambda what, got, want: same(what, got, want, 1e-5)
        near('area of the bars', m.As, n['As'])
        near('area of the concrete', m.Ac, n['Ac'])
        near('second moment of area of the bars', m.Is, n['Is'])
        near('second moment of area of the concrete', m.Ic, n['Ic'])
        near('plastic modulus of the bars', m.Wps, n['Ws'])
        near('plastic modulus of the concrete', m.Wpc, n['Wc'])
        near('cover', m.u, s['u'])
        near('horizontal cover', m.v, s['u'])
        near('area of the steel', m.Aa, m.steel.A)
        near('weight', m.weight_per_length, (m.steel.A * 7850e-9 + n['As'] * 7850e-9) * 9.81 + n['Ac'] * 24e-6)

    def strengths(self):
        s = self.s
        return s['fy'], s['fck'] / 1.5, 500 / 1.15

    def squash(self, a):
        m, n, s = self.m, self.numbers(), self.s
        near = lambda what, got, want: same(what, got, want, 1e-5)
        fy, fc, fs = self.strengths()
        N = fy * m.steel.A + fc * n['Ac'] + fs * n['As']
        near('resistance to compression', m.NplRd(), N)
        near('characteristic resistance', m.NplRk(), fy * m.steel.A + s['fck'] * n['Ac'] + 500 * n['As'])
        near('steel contribution', m.steel_contribution_ratio(), fy * m.steel.A / N)
        near('ratio of reinforcement', m.reinforcement_ratio(), n['As'] / n['Ac'])
        near('resistance of the concrete', m.NpmRd(), fc * n['Ac'])
        near('imperfection', m.e0(), 1000 * s['L'] / (300 if a['few'] else 200))
        near('factor of bending', m.alpha_m(), 0.9 if fy <= 355 else 0.8)
        near('shear resistance', m.VRd(), float(np.squeeze(self.steel().shear_force_resistance())))

    def bend(self, a):
        m, n, s = self.m, self.numbers(), self.s
        fy, fc, fs = self.strengths()
        most = fy * m.steel.Wpl[0] + fs * n['Ws'] + 0.5 * fc * n['Wc']
        same('greatest moment', m.Mpl_max_Rd(), most, 1e-5)
        got = float(np.squeeze(m.MplRd()))
        if not 0 < got <= most * (1 + 1e-9):
            raise AssertionError(f'moment resistance {got}, not within 0 and {most}')
        if a['where'] == 'partly':
            return
        # pure bending: tension in the concrete does not count; axis hn above the centre
        def force(x):
            return 2 * x * (2 * s['t'] * 2 * fy + (s['b'] - 2 * s['t']) * fc)
        need = fc * n['Ac']
        inside = a['where'] == 'inside'
        hn = (need - (n['As'] * (2 * fs - fc) if inside else 0)) / force(1.0)
        lost = fy * 2 * s['t'] * hn ** 2 + 0.5 * fc * (s['b'] - 2 * s['t']) * hn ** 2 + (n['Ws'] * (fs - 0.5 * fc) if inside else 0)
        same('moment resistance', got, most - lost, 1e-5)

    def buckle(self, a):
        m, s = self.m, self.s
        n = self.numbers(a['axis'])
        near = lambda what, got, want: same(what, got, want, 1e-5)
        m.ned, m.nged = -1e6, -1e4 * a['dead']
        k = (1.0, 0.7, 2.0)[(self.steps + s['t']) % 3]
        m.lcr = [k, 1.0] if a['axis'] == 'y' else [1.0, k]
        Ec = Ecm(s['fck']) / (1 + a['dead'] / 100 * creep(s['fck'], 50, 1e11, 1e11, 28))
        Ia = m.steel.I[0 if a['axis'] == 'y' else 1]
        EI = E * Ia + E * n['Is'] + 0.6 * Ec * n['Ic']
        near('effective stiffness', m.EIeff(a['axis']), EI)
        near('effective stiffness of second order', m.EIeffII(a['axis']), 0.9 * (E * Ia + E * n['Is'] + 0.5 * Ec * n['Ic']))
        Ncr = pi ** 2 * EI / (1000 * s['L'] * k) ** 2
        near('critical force', m.Ncr(a['axis']), Ncr)
        near('critical force of second order', m.Ncreff(a['axis']), pi ** 2 * m.EIeffII(a['axis']) / (1000 * s['L'] * k) ** 2)
        fy, fc, fs = self.strengths()
        lam = sqrt((fy * m.steel.A + s['fck'] * n['Ac'] + 500 * n['As']) / Ncr)
        near('slenderness', m.slenderness(a['axis']), lam)
        alpha = 0.21 if a['few'] else 0.34
        phi = 0.5 * (1 + alpha * (lam - 0.2) + lam ** 2)
        chi = min(1 / (phi + sqrt(phi ** 2 - lam ** 2)), 1.0)
        near('buckling resistance', m.NbRd(a['axis']), chi * (fy * m.steel.A + fc * n['Ac'] + fs * n['As']))


def rolled(chk):
    """rolled sections: the fillets act as part of the steel below the web's edge"""
    from metku.eurocodes.en1992 import constants
    from metku.sections.composite import composite_beam as c
    from metku.sections.steel.ISection import IPE, HEA
    warnings.simplefilter('ignore')
    for cls, size in (IPE, 200), (IPE, 300), (IPE, 500), (HEA, 200), (HEA, 400), (HEA, 800):
        for L in 2, 4, 8:
            for hc, ha in (60, 0), (80, 45), (150, 50):
                for fck in 20, 30, 50:
                    p = cls(size)
                    m = c.CompositeIBeam(1000 * L, p, c.CompositeSlab(hc + ha, constants.Concrete(CONCRETE[fck]), ha))
                    Ra, Rc, Rf = p.fy * p.A, 0.85 * fck / 1.5 * hc * 250 * L, p.fy * p.b * p.tf
                    h = hc + ha
                    if Ra <= Rc:
                        x, M, tol = Ra / Rc * hc, Ra * (h + p.h / 2 - Ra / Rc * hc / 2), 1e-9
                    elif Rc >= Ra - 2 * Rf:
                        d = (Ra - Rc) / 2 / p.b / p.fy
                        x, M, tol = h + d, Ra * (h + p.h / 2) - Rc * hc / 2 - 2 * d * p.b * p.fy * (h + d / 2), 1e-9
                    else:
                        d = (Ra - Rc - 2 * Rf) / 2 / p.tw / p.fy
                        if d > p.h / 2:
                            continue
                        x = h + p.tf + d
                        M = Ra * (h + p.h / 2) - Rc * hc / 2 - 2 * Rf * (h + p.tf / 2) - 2 * d * p.tw * p.fy * (h + p.tf + d / 2)
                        tol = 0.02
                    k = f'rolled/{cls.__name__}{size}/{L}/{hc}/{ha}/{fck}'
                    for what, got, want in ('neutral axis', m.plastic_neutral_axis(), x), ('moment resistance', m.MplRd(), M):
                        chk.expect(abs(got - want) <= tol * want, f'{k}/{what}', f'{what} of {cls.__name__} {size}: {got}, by EN 1994-1-1: {want}')


def studs(chk):
    from metku.eurocodes.en1994 import en1994_1_1 as c
    for size, stud in c.S3L_Studs.items():
        for length in 60, 76, 77, 95, 105, 150:
            d = stud['D']
            if length < 3 * d:
                continue
            for fck in CONCRETE:
                for fu in 400, 450, 500:
                    s = c.ShearStud(stud, length, fu=fu)
                    a = 1.0 if length > 4 * d else 0.2 * (length / d + 1)
                    want = min(0.8 * fu * pi * d ** 2 / 4, 0.29 * a * d ** 2 * sqrt(fck * Ecm(fck))) / 1.25
                    got = s.PRd(fck, Ecm(fck))
                    chk.expect(abs(got - want) <= 1e-9 * want, f'stud/{size}/{length}/{fck}/{fu}', f'resistance of a stud {d}: {got}, by EN 1994-1-1, 6.6.3.1: {want}')


def run(chk):
    T = chk.tier == 'thorough'
    chk.guard('rolled', rolled, chk)
    chk.guard('studs', studs, chk)
    S = lambda rows: '{' + ', '.join(tla(x) for x in rows) + '}'
    pool = dict(bt=[100, 200, 300], tt=[8, 12, 25], bb=[100, 200, 350], tb=[10, 30], hw=[200, 500, 900], tw=[6, 12], fy=[235, 355, 460],
                hc=[60, 100, 200], ha=[0, 45], L=[2, 5, 12], fck=[20, 30, 50])
    base = [dict(bt=200, tt=12, bb=200, tb=12, hw=300, tw=8, fy=355, hc=100, ha=45, L=8, fck=25),
            dict(bt=300, tt=25, bb=300, tb=25, hw=400, tw=12, fy=355, hc=60, ha=0, L=6, fck=20),
            dict(bt=150, tt=10, bb=300, tb=20, hw=600, tw=8, fy=420, hc=70, ha=60, L=5, fck=30)]
    defs = dict(Mode='"beam"', Bases=S(base), Pool=tla({k: set(v) for k, v in pool.items()}), Depth='3' if T else '2')
    g = chk.graph('Composite', defs=defs, invariants=['Balanced', 'Shift'])
    chk.notes['beam'] = f'{len(g.states)} states, {g.n} transitions'
    chk.replay(Beam, g.tours(chk.rng, 80, 120000 if T else 12000), 'beam')
    pool = dict(h=[120, 200, 300, 400], b=[120, 200, 300], t=[5, 6, 8, 10, 12], d=[8, 12, 16, 20, 28], u=[20, 30, 45, 90], fy=[235, 355, 420], L=[1, 3, 6, 12],
                fck=[20, 25, 30, 50])
    base = [dict(h=200, b=200, t=8, d=16, u=30, fy=355, L=4, fck=30), dict(h=300, b=200, t=10, d=20, u=30, fy=355, L=3, fck=50),
            dict(h=250, b=250, t=6, d=12, u=20, fy=420, L=6, fck=40), dict(h=400, b=300, t=5, d=28, u=30, fy=235, L=8, fck=50),
            dict(h=300, b=300, t=5, d=12, u=90, fy=235, L=5, fck=50)]
    defs = dict(Mode='"tube"', Bases=S(base), Pool=tla({k: set(v) for k, v in pool.items()}), Depth='3' if T else '2')
    g = chk.graph('Composite', defs=defs, invariants=['Inside'])
    chk.notes['tube'] = f'{len(g.states)} states, {g.n} transitions'
    where = {}
    for es in g.out.values():
        for a, _ in es:
            if a['op'] == 'bend':
                where[a['where']] = where.get(a['where'], 0) + 1
    chk.notes['neutral axis'] = where
    chk.replay(Tube, g.tours(chk.rng, 80, 60000 if T else 6000), 'tube')
