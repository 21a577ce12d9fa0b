"""C25: cross-section properties are those of the shape."""
import warnings
from math import pi

import numpy as np

from common import tla

warnings.simplefilter('ignore')
BASES = [(24, 12, 2, 12, 2, 1), (30, 16, 3, 10, 1, 2), (20, 20, 4, 6, 1, 1), (20, 6, 1, 20, 4, 1)]


def same(what, got, want, tol=1e-9):
    got, want = np.atleast_1d(np.asarray(got, float)), np.atleast_1d(np.asarray(want, float))
    if got.shape != want.shape or not np.all(np.abs(got - want) <= tol * np.maximum(1e-6, np.abs(want))):
        raise AssertionError(f'{what}: {got.tolist()}, of the shape: {want.tolist()}')


class Plated:
    made = 0

    def __init__(self, init):
        from metku.sections.steel.wi import WISection
        warnings.simplefilter('ignore')
        self.d, self.steps = dict(init['d']), init['steps']
        Plated.made += 1
        d = self.d
        self.k = (10, 1, 7.5)[Plated.made % 3]                 # millimetres per unit of the specification
        k = self.k
        if d['bt'] == d['bb'] and d['tt'] == d['tb']:
            self.s = WISection(d['h'] * k, d['tw'] * k, d['bt'] * k, d['tt'] * k, weld_throat=0.1 * k)
        else:
            self.s = WISection(d['h'] * k, d['tw'] * k, [d['bt'] * k, d['bb'] * k], [d['tt'] * k, d['tb'] * k], weld_throat=0.1 * k)

    def project(self):
        return dict(d=self.d, steps=self.steps)

    def apply(self, a):
        d, s, k = self.d, self.s, self.k
        if a['op'] == 'ask':
            return self.ask(a)
        self.steps += 1
        if a['op'] == 'flip':
            d['bt'], d['bb'], d['tt'], d['tb'] = d['bb'], d['bt'], d['tb'], d['tt']
            s.b, s.tf = [d['bt'] * k, d['bb'] * k], [d['tt'] * k, d['tb'] * k]
            return
        v = a['v']
        if a['k'] == 'b':
            d['bt'] = d['bb'] = v
        elif a['k'] == 'tf':
            d['tt'] = d['tb'] = v
        elif a['k'] == 'hw':
            d['h'] = v + d['tt'] + d['tb']
        else:
            d[a['k']] = v
        setattr(s, a['k'], v * k)

    def ask(self, a):
        s, d, k = self.s, self.d, self.k
        f = lambda x: x[0] / x[1]
        same('dimensions', [s.h, *s.b, *s.tf, s.tw, s.hw], [x * k for x in (d['h'], d['bt'], d['bb'], d['tt'], d['tb'], d['tw'], d['h'] - d['tt'] - d['tb'])])
        same('area', s.A, a['A'] * k ** 2)
        Iy, Iz = f(a['Iy']) * k ** 4, a['Iz12'] / 12 * k ** 4
        same('second moments of area', s.I, [Iy, Iz])
        same('elastic section moduli', s.Wel, [Iy / (f(a['far']) * k), Iz / (max(d['bt'], d['bb']) / 2 * k)])
        same('plastic section moduli', s.Wpl, [f(a['Wply']) * k ** 3, a['Wplz4'] / 4 * k ** 3])
        same('elastic neutral axis', s.elastic_neutral_axis(), f(a['zel']) * k)
        same('plastic neutral axis', s.plastic_neutral_axis(), f(a['zpl']) * k)
        same('painted circumference', s.Au, a['around'] * k)
        same('torsion constant', s.It, a['It3'] / 3 * k ** 4)
        hw = (d['h'] - d['tt'] - d['tb']) * k
        same('shear area', s.Ashear[1], (1.2 if s.fy <= 460 else 1.0) * hw * d['tw'] * k)
        It_, Ib = d['tt'] * d['bt'] ** 3 / 12 * k ** 4, d['tb'] * d['bb'] ** 3 / 12 * k ** 4
        hf = (d['h'] - (d['tt'] + d['tb']) / 2) * k
        web = hw * (d['tw'] * k) ** 3 / 12             # formulas differ in whether they count the web
        same('warping constant', s.Iw, It_ * Ib / (It_ + Ib) * hf ** 2, 0.01 + web / min(It_, Ib))
        # shear centre and Wagner's factor, seen from the centroid, upwards positive
        zel = f(a['zel']) * k
        zt, zb = d['h'] * k - d['tt'] * k / 2 - zel, d['tb'] * k / 2 - zel
        zs = (It_ * zt + Ib * zb) / (It_ + Ib)
        if abs(s.zs - zs) > (1e-6 + (0.01 if abs(zs) > 1e-9 * s.h else 0) + 2 * web / (It_ + Ib)) * s.h:
            raise AssertionError(f'shear centre: {s.zs}, of the shape: {zs}')
        third = 0.0
        for z1, z2, b in ((0, d['tb'], d['bb']), (d['tb'], d['h'] - d['tt'], d['tw']), (d['h'] - d['tt'], d['h'], d['bt'])):
            u, v, b = z1 * k - zel, z2 * k - zel, b * k
            third += b * (v ** 4 - u ** 4) / 4 + b ** 3 / 12 * (v ** 2 - u ** 2) / 2
        want = s.zs - third / 2 / Iy
        if abs(s.zj - want) > 1e-6 * s.h:
            raise AssertionError(f"Wagner's factor zj: {s.zj}, of the shape: {want}")


# ------------------------------------------------------------ rolled and hollow
def strips(width, half, edges):
    """Integrals over a shape that is symmetric about its mid-height: area, second moment, sum of |z|."""
    A = I = W = 0.0
    xg, wg = np.polynomial.legendre.leggauss(80)
    for u, v in zip(edges, edges[1:]):
        z = (u + v) / 2 + (v - u) / 2 * xg
        w = width(z) * wg * (v - u) / 2
        A, I, W = A + 2 * w.sum(), I + 2 * (w * z ** 2).sum(), W + 2 * (w * z).sum()
    return A, I, W


def rolled(h, b, tf, tw, r):
    c = h / 2 - tf - r                                 # start of the fillet
    def across(z):
        x = np.clip(z - c, 0, r)
        w = tw + 2 * (r - np.sqrt(np.maximum(r * r - x * x, 0)))
        return np.where(z > h / 2 - tf, b, np.where(z > c, w, tw))
    A, Iy, Wy = strips(across, h / 2, [0, c, c + r, h / 2])
    def down(y):                                       # material on a vertical strip at distance y of the web axis
        x = np.clip(y - tw / 2, 0, r)
        fill = 2 * (r - np.sqrt(np.maximum(r * r - (r - x) ** 2, 0)))
        return np.where(y < tw / 2, h, np.where(y < tw / 2 + r, 2 * tf + fill, 2 * tf))
    _, Iz, Wz = strips(down, b / 2, [0, tw / 2, tw / 2 + r, b / 2])
    perimeter = 4 * b + 2 * (h - 2 * tf - 2 * r) + 4 * tf - 2 * (tw + 2 * r) + 2 * pi * r
    return A, Iy, Iz, Wy, Wz, perimeter


def hollow(h, b, t, R):
    def edge(h, b, R):
        return lambda z: b - 2 * (R - np.sqrt(np.maximum(R * R - np.clip(np.abs(z) - (h / 2 - R), 0, R) ** 2, 0)))
    out, inn = edge(h, b, R), edge(h - 2 * t, b - 2 * t, R - t)
    f = lambda z: out(z) - np.where(z < h / 2 - t, inn(z), 0)
    return strips(f, h / 2, [0, h / 2 - R, h / 2 - t, h / 2])


# torsion (cm4) and warping (1000 cm6) constants, ArcelorMittal sales programme
PUBLISHED = {'IPE 200': (6.98, 12.99), 'IPE 300': (20.1, 125.9), 'IPE 500': (89.3, 1249.0), 'HE 200 A': (21.0, 108.0),
             'HE 300 B': (185.0, 1688.0), 'HE 200 M': (259.0, 346.3), 'HE 400 A': (189.0, 2942.0), 'HE 100 B': (9.25, 3.375)}


def catalogue(chk, T):
    from metku.sections.steel import catalogue as cat
    from metku.sections.steel.CHS import CHS
    from metku.sections.steel.ISection import HEA, HEB, HEM, IPE, CustomISection
    from metku.sections.steel.RHS import RHS, SHS
    warnings.simplefilter('ignore')
    count = 0

    def near(name, what, got, want, tol):
        chk.expect(abs(got - want) <= tol * abs(want), f'{name}/{what}', f'{what} of {name} is {got}, of the shape: {want}')

    def named(cls, n):
        return lambda: cls(n)
    for name, p in cat.profile.items():
        series, size = name.split()[0], int(name.split()[1])
        cls = IPE if series == 'IPE' else {'A': HEA, 'B': HEB, 'M': HEM}.get(name.split()[-1])
        makers = [(name + ' by dimensions', lambda p=p: CustomISection(p['h'], p['b'], p['t_f'], p['t_w'], p['r']))]
        if cls is not None:
            makers.append((name, named(cls, size)))
        for key, make in makers:
            ok, s = chk.guard(f'catalogue/{key}', make)
            if not ok:
                continue
            count += 1
            A, Iy, Iz, Wy, Wz, per = rolled(p['h'], p['b'], p['t_f'], p['t_w'], p['r'])
            for what, got, want, tol in (('height', s.h, p['h'], 1e-12), ('width', s.b, p['b'], 1e-12), ('area', s.A, A, 1e-6), ('Iy', s.I[0], Iy, 2e-4), ('Iz', s.I[1], Iz, 2e-3),
                                         ('Wel,y', s.Wel[0], Iy / p['h'] * 2, 2e-4), ('Wel,z', s.Wel[1], Iz / p['b'] * 2, 2e-3),
                                         ('Wpl,y', s.Wpl[0], Wy, 2e-4), ('Wpl,z', s.Wpl[1], Wz, 2e-3), ('circumference', s.Au, per, 1e-6),
                                         ('shear area', s.Ashear[1], A - 2 * p['b'] * p['t_f'] + (p['t_w'] + 2 * p['r']) * p['t_f'], 1e-6),
                                         ('warping constant', s.Iw, p['t_f'] * p['b'] ** 3 / 24 * (p['h'] - p['t_f']) ** 2, 1e-3)):
                near(key, what, got, want, tol)
            if name in PUBLISHED:
                near(key, 'published torsion constant', s.It, PUBLISHED[name][0] * 1e4, 0.04)
                near(key, 'published warping constant', s.Iw, PUBLISHED[name][1] * 1e9, 0.02)
            thin = sum(b * t ** 3 for b, t in ((p['b'], p['t_f']), (p['b'], p['t_f']), (p['h'] - 2 * p['t_f'], p['t_w']))) / 3
            chk.expect(0.9 * thin <= s.It <= 2.5 * thin, f'{key}/It', f'torsion constant of {key} is {s.It}; of its plates: {thin}')
    for name, p in list(cat.rhs_profiles.items()) + list(cat.shs_profiles.items()):
        h, b, t = p['h'], p['b'], p['t']
        ok, s = chk.guard(f'catalogue/{name}', lambda: RHS(h, b, t))
        if not ok:
            continue
        count += 1
        R = t * (2 if t <= 6 else 2.5 if t <= 10 else 3)          # EN 10219-2
        if h - 2 * R < 0 or b - 2 * R < 0:
            continue
        A, Iy, Wy = hollow(h, b, t, R)
        _, Iz, Wz = hollow(b, h, t, R)
        for what, got, want in (('corner radius', s.R, R), ('area', s.A, A), ('Iy', s.I[0], Iy), ('Iz', s.I[1], Iz), ('Wel,y', s.Wel[0], Iy / h * 2),
                                ('Wel,z', s.Wel[1], Iz / b * 2), ('Wpl,y', s.Wpl[0], Wy), ('Wpl,z', s.Wpl[1], Wz),
                                ('circumference', s.Au, 2 * (h + b) - 8 * R + 2 * pi * R),
                                ('vertical shear area', s.Ashear[1], A * h / (h + b)), ('horizontal shear area', s.Ashear[0], A * b / (h + b))):
            near(name, what, got, want, 1e-4)
        Rc = R - t / 2
        hm = 2 * ((b - t) + (h - t)) - 2 * Rc * (4 - pi)
        Ah = (b - t) * (h - t) - Rc ** 2 * (4 - pi)
        near(name, 'torsion constant', s.It, t ** 3 * hm / 3 + 4 * Ah ** 2 * t / hm, 1e-3)
        if h == b:
            q = SHS(h, t)
            chk.expect(q.A == s.A and list(q.I) == list(s.I), f'{name}/SHS', f'{name}: SHS differs from RHS')
    for name, p in cat.chs_profiles.items():
        D, t = p['d'], p['t']
        ok, s = chk.guard(f'catalogue/{name}', lambda: CHS(D, t))
        warnings.simplefilter('ignore')
        if not ok:
            continue
        count += 1
        d = D - 2 * t
        I = pi / 64 * (D ** 4 - d ** 4)
        for what, got, want in (('area', s.A, pi / 4 * (D ** 2 - d ** 2)), ('Iy', s.I[0], I), ('Iz', s.I[1], I), ('Wel', s.Wel[0], 2 * I / D),
                                ('Wpl', s.Wpl[0], (D ** 3 - d ** 3) / 6), ('It', s.It, 2 * I), ('circumference', s.Au, pi * D),
                                ('shear area', s.Ashear[0], (D ** 2 - d ** 2) / 2), ('Wel,z', s.Wel[1], 2 * I / D), ('Wpl,z', s.Wpl[1], (D ** 3 - d ** 3) / 6)):
            near(name, what, got, want, 1e-9)
    chk.notes['catalogue'] = f'{count} sections of the catalogue'


def run(chk):
    T = chk.tier == 'thorough'
    bases = '{' + ', '.join(tla(dict(zip(('h', 'bt', 'tt', 'bb', 'tb', 'tw'), b))) for b in BASES) + '}'
    g = chk.graph('Shapes', defs=dict(Heights=tla({16, 20, 24, 30}), Widths=tla({6, 10, 12, 16, 20}), Flanges=tla({1, 2, 3, 4}), Webs=tla({1, 2, 3}),
                                      Bases=bases, Depth='3' if T else '2'),
                  invariants=['Halves', 'Inside', 'Upside', 'Symmetric', 'Shape', 'Positive'])
    chk.notes['graph'] = f'{len(g.states)} states, {g.n} transitions'
    if T:
        chk.replay(Plated, g.walks(chk.rng, 40000, 8), 'plated')
    else:
        chk.replay(Plated, g.tours(chk.rng, max_len=10, edge_budget=20000), 'plated')
    catalogue(chk, T)
