"""C22: steel at elevated temperature (EN 1993-1-2)."""
import warnings
from math import exp, log10, sqrt

from common import tla

warnings.simplefilter('ignore')
E_C, E_S = 210000.0, 200000.0


def close(got, want, tol=1e-9):
    return abs(float(got) - want) <= tol * max(1.0, abs(want))


def carbon_heat(t):
    if t < 600:
        return 425 + 0.773 * t - 1.69e-3 * t ** 2 + 2.22e-6 * t ** 3
    if t < 735:
        return 666 + 13002 / (738 - t)
    return 545 + 17820 / (t - 731) if t < 900 else 650


def stainless_heat(t):
    return 450 + 0.280 * t - 2.91e-4 * t ** 2 + 1.34e-7 * t ** 3


class Material:
    """Factors, thermal properties and stress-strain relationship of one steel along a heating."""

    def __init__(self, init):
        from metku.eurocodes.en1993 import en1993_1_2 as fire
        from metku.materials.steel_data import Steel
        self.fire, self.kind, self.temp = fire, init['kind'], init['temp']
        self.grade = Steel('S355')
        self.other = Steel('S460M')

    def project(self):
        return dict(kind=self.kind, temp=self.temp)

    def apply(self, a):
        return getattr(self, a['op'])(a)

    def same(self, what, got, want, tol=1e-9):
        if not close(got, want, tol):
            raise AssertionError(f'{what} of {self.kind} at {self.temp} degrees is {got}, standard: {want}')

    def heat(self, a):
        self.temp = next(t for t in TEMPS if t > self.temp)
        f, t = self.fire, self.temp
        k = {p: v[0] / v[1] / 1e4 for p, v in a['factors'].items()}
        for x in (t, float(t)):
            for p in k:
                self.same(p, f.reduce_property(x, p, self.kind), k[p])
        if self.kind == 'carbon':
            self.same('E', f.EaT(t, 205000), k['kE'] * 205000)
            self.same('fy', f.fyT(t, 275), k['ky'] * 275)
            self.same('fp', f.fpT(t, 275), k['kp'] * 275)
            for g in (self.grade, self.other):
                self.same('E of the grade', g.Etemp(t), k['kE'] * g.E)
                self.same('fy of the grade', g.fy_temp(t), k['ky'] * g.fy)
                self.same('fp of the grade', g.fp_temp(t), k['kp'] * g.fy)
        elif self.kind == '1.4301':
            self.same('E', f.EaT(t, 200000, '1.4301'), k['kE'] * 200000)
            self.same('f0.2', f.f02pT(t, 210), k['k02'] * 210)
            self.same('fu', f.fuT(t, 520, '1.4301'), k['ku'] * 520)
        else:
            self.same('kb', f.kbT(t), k['kb'])

    def thermal(self, a):
        f, t = self.fire, self.temp
        if self.kind == 'carbon':
            got = f.therm_elongation(t), f.therm_conductivity(t), f.spec_heat(t)
            dl = a['stretch'][0] * 1e-10
        else:
            got = f.therm_elongation_stainless(t), f.therm_conductivity_stainless(t), f.spec_heat_stainless(t)
            dl = a['stretch'][0] * 1e-13 * a['stretch'][1]
        if abs(got[0] - dl) > 1e-9 * abs(dl) + 1e-12:
            raise AssertionError(f'thermal elongation of {self.kind} at {t} degrees is {got[0]}, standard: {dl}')
        self.same('conductivity', got[1], a['cond'] / 1e4)
        self.same('specific heat', got[2], a['heat'][0] / a['heat'][1])
        own = (carbon_heat if self.kind == 'carbon' else stainless_heat)(t)
        assert close(own, a['heat'][0] / a['heat'][1])      # the formula used for the members below

    def strain(self, a):
        f, t, e = self.fire, self.temp, a['e'] / 1000
        if self.kind == 'carbon':
            fy = 355.0
            fyt, fpt, Et = f.reduce_property(t, 'ky') * fy, f.reduce_property(t, 'kp') * fy, f.reduce_property(t, 'kE') * E_C
            ep = fpt / Et
            if a['region'] != 'curve':
                want = a['rel'] * 1e-7 * fyt
            elif e <= ep:
                want = Et * e
            else:
                want = ellipse(e, ep, 0.02, fpt, fyt, Et)
            if abs(e - ep) > 1e-9:
                self.same(f'stress at strain {e}', f.stress(e, t, E_C, fy, a['hard']), want)
                self.same(f'stress at strain {e} of the grade', self.grade.stress_temp(e, t, a['hard']), want)
            self.same('ultimate strength', f.fuT(t, fyt), a['ult'] / 1e4 * fyt)
            self.same('ultimate strength of the grade', self.grade.fu_temp(t), a['ult'] / 1e4 * fyt)
        else:
            fy, fu = 210.0, 520.0
            r = lambda p: f.reduce_property(t, p, '1.4301')
            f02, fut, Et, Ect, eu = r('k02') * fy, r('ku') * fu, r('kE') * E_S, r('kEct') * E_S, r('epsU')
            ec = f02 / Et + 0.002 if Et else 0
            if not Et or e > eu or abs(e - ec) < 1e-9:
                return
            if e <= ec:
                b = (1 - ec * Ect / f02) * Et * ec / ((Et * ec / f02 - 1) * f02)
                if b <= 0:
                    return      # Ect of the annex exceeds the secant stiffness (above 1000 C)
                want = Et * e / (1 + (Et * ec - f02) / (f02 * ec ** b) * e ** b)
            else:
                x = (eu - ec) * Ect - 2 * (fut - f02)
                if abs(x) < 1e-9:
                    return
                c = (fut - f02) ** 2 / x
                d2, c2 = c * (eu - ec) * Ect + c * c, (eu - ec) * (eu - ec + c / Ect)
                if d2 < 0 or c2 < (eu - e) ** 2 or c2 <= 0:
                    return      # the curve of the annex does not exist for this strength
                want = f02 - c + sqrt(d2) / sqrt(c2) * sqrt(c2 - (eu - e) ** 2)
            self.same(f'stress at strain {e}', f.stress_stainless(e, t, E_S, fy, fu), want)


def ellipse(e, ep, ey, fp, fy, E):
    """Between the proportional limit and yield: an ellipse tangent to both branches."""
    if fy == fp:
        return fy
    c = (fy - fp) ** 2 / ((ey - ep) * E - 2 * (fy - fp))
    b = sqrt(c * (ey - ep) * E + c * c)
    a = sqrt((ey - ep) * (ey - ep + c / E))
    return fp - c + b / a * sqrt(a * a - (ey - e) ** 2)


class Member:
    """An unprotected member; `gas` is the history of the gas temperature."""

    def __init__(self, init):
        from metku.eurocodes.en1993 import en1993_1_2 as fire
        self.fire, self.gas = fire, []
        self.before = {}

    def project(self):
        return dict(kind='member', gas=self.gas)

    def apply(self, a):
        return getattr(self, a['op'])(a)

    def compare_state(self, t):
        if t['gas'] == self.gas:
            return
        self.gas = [list(x) for x in t['gas']]
        ksh, amv, t0, dt = self.m
        table = [lv for lv, h in self.gas for _ in range(h)]
        tmax = len(table) * dt
        look = lambda minutes: table[min(int(round(minutes * 60 / dt)), len(table) - 1)]
        f = self.fire
        for run, heat, em in ((f.steel_temp, carbon_heat, 0.7), (f.stainless_steel_temp, stainless_heat, 0.4)):
            self.history(run, heat, em, look, 35, tmax, len(table))
            for curve, ac in ((f.standard_fire, 25), (f.hydrocarbon_fire, 50)):
                own = (lambda m: 20 + 345 * log10(8 * m + 1)) if ac == 25 else \
                    (lambda m: 20 + 1080 * (1 - 0.325 * exp(-0.167 * m) - 0.675 * exp(-2.5 * m)))
                for m in (0, 0.5, 5, 30, 61.3):
                    if not close(curve(m), own(m)):
                        raise AssertionError(f'{curve.__name__} after {m} minutes is {curve(m)}, EN 1991-1-2: {own(m)}')
                self.history(run, heat, em, curve, ac, tmax, len(table))
            self.history(run, heat, em, look, 35, tmax - dt / 2, len(table))
            T1, _ = run(ksh, amv, tmax, look, dt, t0)
            old = self.before.get((run.__name__, ksh, amv, t0, dt))
            if old and len(old) <= len(T1) and any(not close(x, y) for x, y in zip(old, T1)):
                raise AssertionError(f'{run.__name__}: what happens later changed the temperatures before it')
            self.before[run.__name__, ksh, amv, t0, dt] = list(T1)

    def history(self, run, heat, em, gas, ac, tmax, n):
        ksh, amv, t0, dt = self.m
        T, times = run(ksh, amv, tmax, gas, dt, t0)
        what = f'{run.__name__}(ksh={ksh}, Am/V={amv}, tmax={tmax}, dt={dt}, from {t0})'
        if len(T) != n + 1 or len(times) != n + 1:
            raise AssertionError(f'{what}: {len(T)} temperatures at {len(times)} times, expected {n + 1}')
        if T[0] != t0:
            raise AssertionError(f'{what}: starts at {T[0]}')
        lo = hi = t0
        for i in range(n):
            if not close(times[i + 1], (i + 1) * dt / 60):
                raise AssertionError(f'{what}: time {i + 1} is {times[i + 1]} min')
            g = gas(i * dt / 60)
            h = ac * (g - T[i]) + em * 5.67e-8 * ((g + 273) ** 4 - (T[i] + 273) ** 4)
            want = T[i] + ksh * amv / (heat(T[i]) * 7850) * h * dt
            if not close(T[i + 1], want, 1e-7):
                raise AssertionError(f'{what}: from {T[i]} degrees in gas at {g} to {T[i + 1]}, equation 4.25: {want}')
            lo, hi = min(lo, g), max(hi, g)
            if not lo - 1e-6 <= T[i + 1] <= hi + 1e-6:
                raise AssertionError(f'{what}: {T[i + 1]} degrees outside of the gas temperatures so far {lo}..{hi}')

    def expose(self, a):
        ksh, amv, t0, dt = a['member']
        self.m = (ksh / 100, amv, t0, dt)


TEMPS = []


def profiles(chk):
    """Section factors of unprotected profiles and the shadow effect of open ones."""
    from math import pi
    from metku.sections.steel.CHS import CHS
    from metku.sections.steel.ISection import HEA, IPE
    from metku.sections.steel.RHS import RHS, SHS
    from metku.sections.steel.wi import WISection
    warnings.simplefilter('ignore')
    R = lambda t: 2 * t if t <= 6 else 2.5 * t if t <= 10 else 3 * t
    from metku.materials.steel_data import Steel, StainlessSteel, stainless
    for g in ('S235', 'S355', 'S460M', 'S700'):
        chk.expect(close(Steel(g).eps(), sqrt(235 / Steel(g).fy)), f'epsilon/{g}', f'epsilon of {g} is {Steel(g).eps()}')
    for product in ('cold_strip', 'hot_strip', 'hot_plate', 'sections'):
        s = StainlessSteel('1.4301', product)
        want = sqrt(235 / stainless['1.4301'][product]['fy'] * 200 / 210)
        chk.expect(close(s.eps(), want), f'epsilon/{product}', f'epsilon of 1.4301 {product} is {s.eps()}; EN 1993-1-4: {want}')
    tube = lambda h, b, t: (2 * (h + b - 4 * R(t)) + 2 * pi * R(t),
                            2 * t * (h + b - 4 * R(t)) + pi * (R(t) ** 2 - (R(t) - t) ** 2))
    i = lambda h, b, tf, tw, r: (4 * b + 2 * h - 2 * tw - (8 - 2 * pi) * r, 2 * b * tf + (h - 2 * tf) * tw + (4 - pi) * r * r)
    for name, make, (p, A), box in (
            ('IPE 200', lambda: IPE(200), i(200, 100, 8.5, 5.6, 12), 2 * (200 + 100)),
            ('HEA 260', lambda: HEA(260), i(250, 260, 12.5, 7.5, 24), 2 * (250 + 260)),
            ('SHS 150x5', lambda: SHS(150, 5), tube(150, 150, 5), None),
            ('RHS 200x100x8', lambda: RHS(200, 100, 8), tube(200, 100, 8), None),
            ('CHS 168.3x5', lambda: CHS(168.3, 5), (pi * 168.3, pi * (168.3 - 5) * 5), None)):
        ok, s = chk.guard(f'profiles/{name}', make)
        if not ok:
            continue
        full = p / A * 1e3
        for what, got, want in (('section factor', s.section_factor, full),
                                ('box section factor', s.box_section_factor, box / A * 1e3 if box else full),
                                ('shadow effect', s.shadow_effect(), 0.9 * box / p if box else 1.0)):
            chk.expect(abs(got - want) <= 2e-3 * want, f'profiles/{name}/{what}', f'{what} of {name} is {got}, geometry: {want}')


def run(chk):
    T = chk.tier == 'thorough'
    temps = sorted(set(range(20, 1201, 10 if T else 20)) | {100, 150, 300, 500, 700, 730, 740, 750, 860, 870, 900, 910, 990, 1010, 1100, 1110})
    TEMPS[:] = temps
    g = chk.graph('Fire', defs=dict(
        Temps=tla(set(temps)), Strains=tla({0, 1, 2, 3, 5, 10, 15, 19, 20, 21, 30, 39, 40, 80, 150, 151, 170, 199, 200, 210}),
        Levels=tla({20, 400, 1200}), Holds=tla({1, 30} if not T else {1, 12, 60}), Depth='3' if not T else '4',
        Members=tla([[100, 200, 20, 5], [63, 90, 150, 2]] if not T else [[100, 200, 20, 5], [63, 90, 150, 2], [90, 300, 600, 5]]),
        Modes=tla({'factors', 'member'})),
        properties=['Weaker'], invariants=['Bounded', 'Hardening', 'PositiveHeat'])
    make = lambda s: Member(s) if s['kind'] == 'member' else Material(s)
    chk.replay(make, g.tours(chk.rng, max_len=200 if T else 120), 'fire')
    profiles(chk)
    chk.assumptions.append('stainless steel: strains up to the ultimate strain of Table C.1')
