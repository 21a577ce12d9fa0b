"""C26: plate buckling of welded sections follows EN 1993-1-5."""
import warnings
from math import pi, sqrt

from common import tla

warnings.simplefilter('ignore')
E = 210000.0
GRADE = {235: 'S235', 355: 'S355', 420: 'S420', 460: 'S460M', 500: 'S500', 700: 'S700'}
KEYS = ('h', 'bt', 'tt', 'bb', 'tb', 'tw', 'w')


def same(what, got, want, tol=1e-9):
    if not abs(got - want) <= tol * max(abs(want), 1e-6):
        raise AssertionError(f'{what}: {got}, by EN 1993-1-5: {want}')


def k_internal(psi):
    if psi >= 1 - 1e-12:
        return 4.0
    if psi > 0:
        return 8.2 / (1.05 + psi)
    if psi > -1:
        return 7.81 - 6.29 * psi + 9.78 * psi ** 2
    return 23.9 if psi == -1 else 5.98 * (1 - max(psi, -3.0)) ** 2


def rho_internal(lam, psi):
    return 1.0 if lam <= 0.5 + sqrt(0.085 - 0.055 * psi) else min((lam - 0.055 * (3 + psi)) / lam ** 2, 1.0)


def rho_outstand(lam):
    return 1.0 if lam <= 0.748 else (lam - 0.188) / lam ** 2


class Section:
    """Effective section of a plated I from its dimensions, top flange compressed."""

    def __init__(self, d):
        self.d = d
        self.eps = sqrt(235 / d['fy'])
        self.hw = d['h'] - d['tt'] - d['tb']
        self.cw = self.hw - 2 * d['w']

    def flange(self, b, t):
        c = (b - self.d['tw']) / 2 - self.d['w']
        return (1 - rho_outstand(c / t / 28.4 / self.eps / sqrt(0.43))) * c

    def web(self, psi):
        rho = rho_internal(self.cw / self.d['tw'] / 28.4 / self.eps / sqrt(k_internal(psi)), psi)
        bc = self.cw / (1 - psi) if psi < 0 else self.cw
        share = 0.5 if psi > 1 - 1e-9 else 2 / (5 - psi) if psi > 0 else 0.4
        return share * rho * bc, (1 - rho) * bc

    def area(self):
        d = self.d
        gross = d['bt'] * d['tt'] + d['bb'] * d['tb'] + self.hw * d['tw']
        return gross - 2 * self.flange(d['bt'], d['tt']) * d['tt'] - 2 * self.flange(d['bb'], d['tb']) * d['tb'] - self.web(1.0)[1] * d['tw']

    def bending(self):
        d = self.d
        top = d['bt'] - 2 * self.flange(d['bt'], d['tt'])
        psi, old = -1.0, None
        for _ in range(100):
            e1, hole = self.web(psi)
            z = d['h'] - d['tt'] - d['w'] - e1               # upper edge of the hole in the web
            parts = [(0, d['tb'], d['bb']), (d['tb'], z - hole, d['tw']), (z, d['h'] - d['tt'], d['tw']), (d['h'] - d['tt'], d['h'], top)]
            A = sum((v - u) * b for u, v, b in parts)
            S = sum((v * v - u * u) / 2 * b for u, v, b in parts)
            z0 = S / A
            I = sum((v ** 3 - u ** 3) / 3 * b for u, v, b in parts) - z0 ** 2 * A
            psi = (d['tb'] - z0) / (d['h'] - d['tt'] - z0)
            if old is not None and abs(I - old) < 1e-12 * I:
                break
            old = I
        return I, z0, I / max(z0, d['h'] - z0)


class Plated:
    def __init__(self, init):
        from metku.sections.steel.wi import WISection
        warnings.simplefilter('ignore')
        self.d = d = {k: tuple(v) if isinstance(v, list) else v for k, v in init['d'].items()}
        self.steps = init['steps']
        self.s = WISection(d['h'], d['tw'], [d['bt'], d['bb']], [d['tt'], d['tb']], fy=GRADE[d['fy']], weld_throat=d['w'] / sqrt(2))
        self.sign = 1

    def project(self):
        return dict(d={k: list(v) if isinstance(v, tuple) else v for k, v in self.d.items()}, steps=self.steps)

    def apply(self, a):
        d, s = self.d, self.s
        if a['op'] == 'set':
            self.steps += 1
            k, v = a['k'], a['v']
            d[k] = tuple(v) if isinstance(v, list) else v
            if k == 'fy':
                s.material = GRADE[v]
            elif k not in ('n', 'm', 'a'):
                setattr(s, k, v)
            return
        warnings.simplefilter('ignore')
        return getattr(self, a['op'])(a)

    def parts(self, a):
        d, s, f = self.d, self.s, Section(self.d)
        r = a['red']
        if a['how'] == 'comp':
            same('effective area in compression', s.Aeff, f.area())
            same('effective area in compression', s.effective_area(psi=1.0), f.area())
            same('reduction of the bottom flange', s.eff_bottom['rho'] < 1, r['bottom'])
            same('reduction of the web', s.eff_web['rho'] < 1, r['web'])
            s.Ned, s.Med = -1.0, [0.0, 0.0]
            for what, four, got in (('flange', a['four']['flange'], s.effective_flange('top') < 1), ('web', a['four']['web'], s.eff_web['rho'] < 1)):
                if four and not got:
                    raise AssertionError(f'{what} in class 4 is fully effective')
            if (s.web_class_comp() == 4) != a['four']['web']:
                raise AssertionError(f"class of the compressed web is {s.web_class}, class 4 by Table 5.2: {a['four']['web']}")
        else:
            I, z0, W = f.bending()
            same('effective second moment of area', s.I_eff_y, I, 1e-3)
            same('neutral axis of the effective section', s.effective_neutral_axis(), z0, 1e-3)
            same('effective section modulus', s.W_eff_y, W, 1e-3)
            same('bending resistance of a class 4 section', s.bending_resistance(C=4)[0], W * d['fy'], 1e-3)
            if not r['top'] and not r['web'] and d['bt'] == d['bb'] and d['tt'] == d['tb']:
                same('effective section modulus of a fully effective section', s.W_eff_y, s.Wel[0])
            if d['bt'] == d['bb'] and d['tt'] == d['tb']:
                same('effective section does not exceed the gross section', max(s.W_eff_y, s.Wel[0]), s.Wel[0])
                s.effective_web(psi=-1.0)
                same('reduction of the web in bending', s.eff_web['rho'] < 1, r['web'])
        same('reduction of the top flange', s.eff_top['rho'] < 1, r['top'])

    def shear(self, a):
        d, s = self.d, self.s
        fy, tw, eta = d['fy'], d['tw'], a['eta'] / 10
        hw = d['h'] - d['tt'] - d['tb']
        self.sign = -self.sign
        Af = [d['bt'] * d['tt'], d['bb'] * d['tb']]
        s.Ned = self.sign * d['n'] / 100 * sum(Af) * fy
        s.Med = [-self.sign * d['m'] / 100 * (d['h'] - (d['tt'] + d['tb']) / 2) * min(Af) * fy, 0.0]
        num, den = d['a']
        spacing = dict(stiffener_spacing=hw * num / den) if num else {}
        cap = eta * hw * tw * fy / sqrt(3)
        try:
            got = s.shear_buckling_resistance(end_post=a['post'], **spacing)
        except NotImplementedError:
            if a['row'] != 'plain' and not a['left']:
                return                                # interaction of 7.1, which the code declines
            raise
        if a['row'] == 'plain':
            return same('shear resistance of a stocky web', got, cap)
        x = hw / (spacing['stiffener_spacing'] if num else 10e5)
        k = 5.34 + 4 * x ** 2 if x <= 1 else 4 + 5.34 * x ** 2
        lam = 0.76 * sqrt(fy / (k * 190000 * (tw / hw) ** 2))
        chi = {'full': eta, 'elastic': 0.83 / lam, 'slender': 1.37 / (0.7 + lam) if a['post'] == 'rigid' else 0.83 / lam}[a['row']]
        web = chi * fy * hw * tw / sqrt(3)
        flange = 0.0
        if a['left']:
            b, t = (d['bt'], d['tt']) if a['weaker'] == 'top' else (d['bb'], d['tb'])
            b = min(b, 30 * sqrt(235 / fy) * t + tw)
            c = hw / x * (0.25 + 1.6 * b * t ** 2 / (tw * hw ** 2))
            flange = b * t ** 2 * fy / c * (1 - (d['m'] / (100 - d['n'])) ** 2)
        same('shear resistance of a web that buckles', got, min(web + flange, cap))

    def force(self, a):
        d, s = self.d, self.s
        fy, tw, t = d['fy'], d['tw'], d['tt']
        hw = d['h'] - d['tt'] - d['tb']
        num, den = d['a']
        x = den / num if num else 1e-3
        ss = min(a['ss'], hw)
        k = {'a': 6 + 2 * x ** 2, 'b': 3.5 + 2 * x ** 2, 'c': min(2 + 6 * (ss + a['c']) / hw, 6.0)}[a['kind']]
        F = 0.9 * k * E * tw ** 3 / hw
        m1 = d['bt'] / tw
        def loaded(m2):
            if a['kind'] != 'c':
                return min(ss + 2 * t * (1 + sqrt(m1 + m2)), hw / x)
            le = min(k * E * tw ** 2 / (2 * fy * hw), ss + a['c'])
            return min(le + t * sqrt(m1 / 2 + (le / t) ** 2 + m2), le + t * sqrt(m1 + m2))
        ly = loaded(0)
        if sqrt(ly * tw * fy / F) > 0.5:
            ly = loaded(0.02 * (hw / t) ** 2)
        chi = min(0.5 / sqrt(ly * tw * fy / F), 1.0)
        got = s.transverse_load_resistance(bearing_length=a['ss'], load_type=a['kind'], stiffener_spacing=hw * num / den if num else 0.0, end_distance=a['c'])
        same('resistance to a concentrated force', got, chi * ly * tw * fy)

    def table(self, a):
        from metku.eurocodes.en1993 import en1993_1_5 as en
        f = lambda x: x[0] / x[1]
        psi, lam = a['p'] / 10, a['l'] / 100
        same(f'Table 4.1, buckling factor at {psi}', en.buckling_factor_internal(psi), f(a['internal']))
        same(f'Table 4.2, buckling factor at {psi}', en.buckling_factor_outstand(psi), f(a['tip']))
        if psi >= -1:
            same(f'Table 4.2, buckling factor at {psi}, support', en.buckling_factor_outstand(psi, sigma1='support'), f(a['support']))
        same(f'reduction factor of an internal part at {lam}, {psi}', en.reduction_factor_internal(lam, psi), f(a['rho']))
        same(f'reduction factor of an outstand part at {lam}', en.reduction_factor_outstand(lam), f(a['outst']))
        rho = f(a['rho'])
        beff, be = en.effective_width_internal(300.0, psi, rho)
        same('effective width', beff, 300 * rho * f(a['wide']['all']))
        same('effective width at the larger compression', be[0], beff * f(a['wide']['first']))
        same('effective width at the smaller compression', be[1], beff - be[0])
        same('effective width of an outstand', en.effective_width_outstand(120.0, psi, f(a['outst'])), 120 * f(a['outst']) * f(a['share']))
        same('slenderness', en.lambda_p(300.0, 6.0, 0.81, 4.0), 300 / 6 / (28.4 * 0.81 * 2))


def run(chk):
    T = chk.tier == 'thorough'
    base = [(500, 200, 12, 200, 12, 8, 355, 6, (0, 1), 0, 0), (900, 300, 10, 300, 10, 5, 355, 7, (3, 2), 20, 30),
            (700, 250, 8, 400, 16, 5, 500, 5, (1, 1), 0, 60), (400, 320, 20, 150, 10, 10, 235, 6, (0, 1), 60, 20)]
    bases = '{' + ', '.join(tla(dict(zip(('h', 'bt', 'tt', 'bb', 'tb', 'tw', 'fy', 'w', 'a', 'n', 'm'), b))) for b in base) + '}'
    g = chk.graph('Plates', defs=dict(Heights=tla({400, 500, 700, 900, 1100}), Widths=tla({150, 200, 250, 300, 400}), Flanges=tla({8, 10, 12, 16, 20}),
                                      Webs=tla({4, 5, 6, 8, 10}), Grades=tla(set(GRADE)), Spacings=tla({(0, 1), (1, 2), (1, 1), (3, 2), (3, 1)}),
                                      Axial=tla({0, 20, 60, 120}), Moment=tla({0, 30, 60, 110}), Bases=bases,
                                      Loads=tla({('a', 100, 0), ('a', 2000, 0), ('b', 100, 0), ('b', 0, 0), ('c', 50, 0), ('c', 100, 150), ('c', 400, 400)}),
                                      Psi=tla(set(range(-30, 11, 5)) | {-11, -9, -1, 1, 9} | (set(range(-14, 11)) if T else set())),
                                      Slender=tla({20, 50, 60, 67, 68, 70, 74, 75, 80, 87, 88, 90, 100, 120, 150, 200, 300}), Depth='3' if T else '2'),
                  invariants=['Nested', 'Thicker', 'Stiffened'])
    chk.notes['graph'] = f'{len(g.states)} states, {g.n} transitions'
    if T:
        chk.replay(Plated, g.walks(chk.rng, 40000, 12), 'plates')
    else:
        chk.replay(Plated, g.tours(chk.rng, max_len=14, edge_budget=40000), 'plates')
