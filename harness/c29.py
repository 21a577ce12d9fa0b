"""C29: wind loads on a rectangular building (Wind.tla)"""
import contextlib
import io
from math import log, log10

from common import tla


def q(x):
    return x[0] / x[1] / 100


class Wind:
    """A building of Wind.tla; every question is put to the functions of metku.eurocodes.en1991.en1991_1_4."""
    made = 0

    def __init__(self, init):
        from metku.eurocodes.en1991 import en1991_1_4
        self.w = en1991_1_4
        Wind.made += 1
        self.b, self.steps = dict(init['bld']), init['steps']
        self.qp = (1.0, 532.4, 0.61)[Wind.made % 3]
        self.vb = (21.0, 26.0, 10.0)[Wind.made % 3]

    def project(self):
        return {'bld': dict(self.b), 'steps': self.steps}

    def apply(self, a):
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(self, a['op'])(a)

    def same(self, what, got, want, tol=1e-9):
        if not abs(got - want) <= tol * max(1, abs(want)):
            raise AssertionError(f'{what}: {got}, specified {want}')

    def change(self, a):
        self.b, self.steps = dict(a['to']), self.steps + 1

    def size(self):
        return self.b['l'] / 2, self.b['w'] / 2, self.b['h'] / 2

    def walls(self, a):
        l, w, h = self.size()
        z = self.w.rect_building_wall_pressure(l, w, h, self.qp, a['dir'])
        b = l if a['dir'] == 'long' else w
        small = 1 - log10(min(max(b * h, 1), 10))          # Fig. 7.2
        mix = lambda ten, one: ten + (one - ten) * small
        for name, length, cpe in [('A', a['a'], mix(-1.2, -1.4)), ('B', a['b'], mix(-0.8, -1.1)), ('C', a['c'], -0.5),
                                  ('D', a['face'], mix(q(a['ten']), q(a['one']))), ('E', a['face'], q(a['lee']))]:
            self.same(f'length of zone {name}', z[name]['length'], length / 40)
            self.same(f'pressure coefficient of zone {name}', z[name]['cpe'], cpe)
            self.same(f'pressure in zone {name}', z[name]['we'], cpe * self.qp)

    def zone(self, name, z, size, ten, one=None, single=True):
        self.same(f'length of zone {name}', z['length'], size[0] / 40)
        self.same(f'width of zone {name}', z['width'], size[1] / 40)
        for what, factor in ('cpe', 1), ('we', self.qp):
            got = z[what] if isinstance(z[what], (list, tuple)) else [z[what]]
            if sorted(set(ten)) != [] and len(got) != len(ten):
                raise AssertionError(f'{what} of zone {name}: {z[what]}, specified {ten}')
            for x, y in zip(sorted(got), sorted(ten)):
                self.same(f'{what} of zone {name}', x, y * factor)

    def flat(self, a):
        h = self.b['h'] / 2
        z = self.w.flat_roof_pressure(a['d'] / 2, a['b'] / 2, h, self.qp)
        for name, size, cpe in ('F', a['f'], [-1.8]), ('G', a['g'], [-1.2]), ('H', a['h'], [-0.7]), ('I', a['i'], [0.2, -0.2]):
            self.zone(name, z[name], size, cpe)

    def mono(self, a):
        l, w, h = self.size()
        wind = 0 if a['low'] else 180
        z = self.w.monopitch_roof_pressure(l, w, h, self.qp, wind, a['angle'])
        table = self.w.ExternalPressureMonoRoof(wind, a['angle'])
        for name, size in ('F', a['f']), ('G', a['g']), ('H', a['h']):
            ten, one, push = (q(x) for x in a[name])
            pick = lambda suction: ([push] if a['low'] else [suction]) if a['single'] else [suction, push]
            self.zone(name, z[name], size, pick(ten))
            for what, want in ('cpe10', pick(ten)), ('cpe1', pick(one)):
                got = getattr(table, name)[what]
                got = sorted(got) if isinstance(got, (list, tuple)) else [got]
                if len(got) != len(want):
                    raise AssertionError(f'{what} of zone {name} at {a["angle"]} degrees: {got}, specified {want}')
                for x, y in zip(got, sorted(want)):
                    self.same(f'{what} of zone {name} at {a["angle"]} degrees', x, y)

    def site(self, a):
        z0, low = {0: (0.003, 1), 1: (0.01, 1), 2: (0.05, 2), 3: (0.3, 5), 4: (1.0, 10)}[a['cat']]
        z, at = low * a['r'] / 10, low * a['at'] / 10
        kr = 0.18 if a['cat'] == 0 else 0.19 * (z0 / 0.05) ** 0.07
        v = self.vb * kr * log(at / z0)
        self.same('roughness factor', self.w.terrain_roughness(z, a['cat']), kr * log(at / z0))
        self.same('mean wind velocity', self.w.mean_wind_velocity(self.vb, z, a['cat']), v)
        turb = 1 / log(at / z0)
        self.same('turbulence intensity', self.w.turbulence_intensity(z, a['cat']), turb)
        self.same('peak velocity pressure', self.w.peak_velocity_pressure(z, a['cat'], self.vb), (1 + 7 * turb) * 0.625 * v ** 2)
        self.same('basic velocity', self.w.basic_wind_velocity(self.vb, 0.85, 0.9), self.vb * 0.765)
        self.same('basic velocity pressure', self.w.basic_velocity_pressure(self.vb), 0.625 * self.vb ** 2)
        self.same('external pressure', self.w.wind_pressure_ext(self.qp, -1.2), -1.2 * self.qp)
        self.same('internal pressure', self.w.wind_pressure_int(self.qp, 0.2), 0.2 * self.qp)


def exposure(chk):
    """peak pressure: grows with the height, falls with the roughness of the terrain, with the square of the velocity"""
    from metku.eurocodes.en1991 import en1991_1_4 as w
    heights = [0.5 * 1.09 ** i for i in range(70)]
    for cat in range(5):
        for lo, hi in zip(heights, heights[1:]):
            p, r = w.peak_velocity_pressure(lo, cat, 21.0), w.peak_velocity_pressure(hi, cat, 21.0)
            chk.expect(0 < p <= r * (1 + 1e-12), f'wind/{cat}/{hi:.2f}', f'peak pressure falls from {p} to {r} with the height, terrain {cat}')
            chk.expect(abs(w.peak_velocity_pressure(lo, cat, 42.0) - 4 * p) < 1e-6 * p, f'wind/{cat}/v', 'pressure is not quadratic in the velocity')
            if cat and lo >= 1:
                up = w.peak_velocity_pressure(lo, cat - 1, 21.0)
                chk.expect(up >= p, f'wind/{cat}/{lo:.2f}/rough', f'rougher terrain {cat} has more pressure ({p}) than {cat - 1} ({up}) at {lo:.2f} m')


def run(chk):
    T = chk.tier == 'thorough'
    chk.guard('exposure', exposure, chk)
    big = dict(Lengths=tla({2, 9, 20, 41, 70, 144} if T else {2, 9, 41, 144}), Widths=tla({2, 3, 7, 24, 48} if T else {2, 7, 24}),
               Heights=tla({1, 3, 6, 12, 17, 60} if T else {1, 6, 17, 60}), Depth='3' if T else '2',
               Angles=tla(set(range(5, 91)) if T else {5, 6, 10, 14, 15, 16, 22, 29, 30, 31, 38, 44, 45, 46, 53, 59, 60, 61, 66, 74, 75, 80, 90}),
               Reach=tla({2, 9, 10, 11, 25, 60, 150, 200} if T else {2, 9, 10, 12, 60, 200}))
    g = chk.graph('Wind', defs=big, invariants=['Tiled', 'Higher'])
    chk.notes['graph'] = f'{len(g.states)} states, {g.n} transitions'
    if T:
        chk.replay(Wind, g.tours(chk.rng, 60, 400000), 'wind')
    else:
        chk.replay(Wind, g.tours(chk.rng, 60, 30000), 'wind')
