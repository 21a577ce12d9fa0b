"""C31: timber sections in fire and timber members follow EN 1995-1-2 and EN 1995-1-1 (Timber.tla)"""
import contextlib
import io
import types
import warnings
from math import atan, cos, pi, sin, sqrt, tan, tanh, radians

import numpy as np

from common import tla

warnings.simplefilter('ignore')
GRADE = dict(solid='C24', glulam='GL30c', kerto='Kerto_S', light='Kerto_T')
SPEED = dict(solid=80, glulam=70, kerto=70, light=75)
BOARD = dict(A='GypsumPlasterboardA', H='GypsumPlasterboardH', F='GypsumPlasterboardF', AA='GypsumPlasterboardAA', HH='GypsumPlasterboardHH',
             FF='GypsumPlasterboardFF', AF='GypsumPlasterboardAF')
KMOD = {'perm': (0.6, 0.6, 0.5), 'lt': (0.7, 0.7, 0.55), 'mt': (0.8, 0.8, 0.65), 'st': (0.9, 0.9, 0.7), 'inst': (1.1, 1.1, 0.9)}
GAMMA = dict(solid_timber=1.3, glt=1.25, lvl=1.2)
STIFF = dict(hinge=0.0, semi=1e8, rigid=float('inf'))


def load():
    import metku.frame2d.frame2d  # noqa: F401  timber_member can only be imported after it
    from metku.sections.timber import timber_section
    from metku.structures.timber import timber_member
    from metku.materials.timber_data import T
    warnings.simplefilter('ignore')
    return timber_section, timber_member, T


def same(what, got, want, tol=1e-9):
    got = float(np.squeeze(got))
    if not abs(got - want) <= tol * max(abs(want), 1e-9):
        raise AssertionError(f'{what}: {got}, by EN 1995-1: {want}')


class Burning:
    """a section in fire"""

    def __init__(self, init):
        self.ts, _, self.T = load()
        self.s, self.steps = dict(init['s']), init['steps']
        s = self.s
        b, h, apex = s['size']
        kw = dict(material=self.T[GRADE[s['kind']]], fire_protection_generic=self.board(s['cover']), fire_protection_sides=s['sides'],
                  sides_on_fire=s['sides'])
        if apex == h:
            self.o = self.ts.TimberSection(b, h, **kw)
        else:
            self.o = (self.ts.HarjaPalkki if s['sides'] == 3 else self.ts.PulpettiPalkki)(b, h, apex, **kw)
            self.o.num_elements = 4
            self.o.create_elements()

    def board(self, name):
        if name == 'none':
            return None
        if name.startswith('wood'):
            return self.ts.WoodenFireProtection(self.T.C24, int(name[4:]))
        gap = name.endswith('gap')
        return getattr(self.ts, BOARD[name[:-3] if gap else name])(5 if gap else 0)

    def project(self):
        return {'s': dict(self.s, size=list(self.s['size'])), 'steps': self.steps}

    def apply(self, a):
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(self, a['op'])(a)

    def burn(self, a):
        self.o.R = a['to']
        self.s['time'] = a['to'] * 73 * SPEED[self.s['kind']]
        self.steps += 1

    def drop(self, a):
        self.o.R = self.o.fire_protection_right.t_f
        self.s['time'] = a['to']
        self.steps += 1

    def cover(self, a):
        self.s['cover'] = a['to']
        self.steps += 1
        self.o.fire_protection_generic = self.board(a['to'])

    def cut(self, a):
        old, (b, h, apex), R = self.s['size'], a['to'], self.o.R
        self.s['size'] = a['to']
        self.steps += 1
        if (old[1] == old[2]) == (h == apex):
            self.o.B = b
            if h == apex:
                self.o.H = h
            else:
                self.o.H0, self.o.Hap = h, apex
        else:                                        # another kind of section
            self.__init__({'s': self.s, 'steps': self.steps})
            self.o.R = R

    def rest(self, a):
        s = self.s
        loss = lambda x: x['char'] / 730000 + 7 * x['layer'][0] / x['layer'][1]
        b0, h0, apex = s['size']
        down = loss(a['side']) + loss(a['top'])
        b = max(b0 - 2 * loss(a['side']), 1e-5)
        same('width of the residual section', self.o.B, b)
        for x in 0.0, 0.2, 0.5, 0.7, 1.0:
            rise = (2 * min(x, 1 - x) if s['sides'] == 3 else x) if apex != h0 else 0
            h = max(h0 + (apex - h0) * rise - down, 1e-5)
            same(f'height of the residual section at {x}', self.o.get_H(x), h)
            same('area', self.o.get_A(x), b * h)
            for got, want in zip(self.o.get_I(x), (b * h ** 3 / 12, h * b ** 3 / 12)):
                same('second moment of area', got, want)
            for got, want in zip(self.o.get_Wel(x), (b * h ** 2 / 6, h * b ** 2 / 6)):
                same('section modulus', got, want)
        if apex == h0:
            same('area', self.o.A, self.o.get_A(0))
            same('height', self.o.H, self.o.get_H(0))
        else:
            for i, e in enumerate(self.o.small_elements):
                same(f'area of element {i} of the analysis', e.A, self.o.get_A((i + 0.5) / 4))
                same(f'second moment of element {i} of the analysis', e.I[0], self.o.get_I((i + 0.5) / 4)[0])


def torsion(h, b):
    """constants of a rectangle: torsional second moment and modulus"""
    a, t = max(h, b), min(h, b)
    I = a * t ** 3 / 3 * (1 - 192 * t / (pi ** 5 * a) * sum(tanh(n * pi * a / 2 / t) / n ** 5 for n in range(1, 20, 2)))
    W = I / (t * (1 - 8 / pi ** 2 * sum(1 / n ** 2 / np.cosh(n * pi * a / 2 / t) for n in range(1, 20, 2))))
    return I, W


class Member:
    made = 0

    def __init__(self, init):
        self.ts, self.tm, T = load()
        self.s, self.steps = dict(init['s']), init['steps']
        s = self.s
        section = self.ts.TimberSection(s['b'], s['h'], T[s['grade']])
        end = lambda: types.SimpleNamespace(parents=[], coord=[0.0, 0.0])
        frame = types.SimpleNamespace(supports={})
        parent = types.SimpleNamespace(n1=end(), n2=end(), frame2d=frame, length=s['len'], loads=[])
        self.o = self.tm.TimberMember(section, section.material, s['len'], s['ldc'], s['sc'], mtype='beam', varnished=s['varnish'],
                                      Sj1=STIFF[s['j1']], Sj2=STIFF[s['j2']], nodes={}, parent=parent, lateral_support_y=[x / 100 for x in s['supy']],
                                      lateral_support_z=[x / 100 for x in s['supz']], edge_load=s['edge'], beta=s['given'] / 100 or None)
        section.timber_member = self.o
        self.o.calc_l_c()
        for f in s['sects']:
            self.add(f)

    def project(self):
        return {'s': dict(self.s, supy=sorted(self.s['supy']), supz=sorted(self.s['supz'])), 'steps': self.steps}

    def apply(self, a):
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(self, a['op'])(a)

    def add(self, f):
        self.o.add_section(ned=1e3 * f['n'], myed=1e6 * f['my'], mzed=1e6 * f['mz'], vyed=1e3 * f['vy'], vzed=1e3 * f['vz'], ted=1e6 * f['t'],
                           loc=f['at'] / 100)

    def place(self, a):
        self.s['sects'] = self.s['sects'] + [a['f']]
        self.steps += 1
        self.add(a['f'])

    def clear(self, a):
        self.s['sects'] = []
        self.steps += 1
        self.o.clear_sections()

    def hold(self, a):
        self.s['sup' + a['axis']] = list(a['to'])
        self.steps += 1
        setattr(self.o, 'lateral_support_' + a['axis'], [x / 100 for x in a['to']])
        self.o.calc_l_c()

    def stretch(self, a):
        self.s['len'] = self.o.length = self.o.parent.length = a['to']
        self.steps += 1
        self.o.calc_l_c()

    def join(self, a):
        self.s[f"j{a['end']}"] = a['to']
        self.steps += 1
        setattr(self.o, f"Sj{a['end']}", STIFF[a['to']])

    # strengths
    def d(self, fk):
        m = self.o.material
        return KMOD[self.s['ldc']][self.s['sc'] - 1] * fk / GAMMA[m.type]

    def size_factor(self, a):
        m, b, h = self.o.material, self.s['b'], self.s['h']
        k = float(self.o.section.k_h)
        if m.type == 'lvl':
            f = lambda x: min(1.2, (300 / x) ** m.s)
        elif m.type == 'glt':
            f = lambda x: min(1.1, (600 / x) ** 0.1) if x < 600 else 1.0
        else:
            f = lambda x: min(1.3, (150 / x) ** 0.2) if x < 150 else 1.0
        if any(s['my'] for s in self.s['sects']) and (not a['axial'] or m.type == 'lvl'):
            same('size factor of bending', k, f(h))
        elif m.type != 'lvl' and b == h and (a['bent'] or a['axial']):
            same('size factor', k, f(h))
        elif not min(1.0, f(h)) - 1e-9 <= k <= max(1.0, f(b), f(h)) + 1e-9:
            raise AssertionError(f'size factor {k} of {b}x{h} {m.type}')
        return k

    def fm(self):
        m = self.o.material
        want = self.o.section.k_h * self.d(m.fmk)
        same('bending strength', self.o.fmd, want)
        return want

    def check(self, a):
        o, s, f, m = self.o, self.s, a['f'], self.o.material
        n, b, h = a['n'] - 1, s['b'], s['h']
        kh = self.size_factor(a)
        N, My, Mz, Vy, Vz, Tt = (abs(f[k]) * (1e6 if k in ('my', 'mz', 't') else 1e3) for k in ('n', 'my', 'mz', 'vy', 'vz', 't'))
        ft = self.d(m.ft0k) * (min(1.1, (3000 / s['len']) ** (m.s / 2)) if m.type == 'lvl' else kh)
        fc, fm, fv = self.d(m.fc0k), self.fm(), self.d(m.fvk)
        if a['pulled'] or m.type != 'lvl':
            same('tensile strength', o.ft0d, ft)
        same('compressive strength', o.fc0d, fc)
        same('shear strength', o.fvd, fv)
        got = [float(x) for x in o.check_section(n, reduce_uv=False)]
        uN = N / (b * h) / (ft if a['pulled'] else fc)
        y, z = 6 * My / (b * h ** 2) / fm, 6 * Mz / (h * b ** 2) / fm
        same(f'axial force at section {n}', got[0], uN)
        kcr = 1.0 if m.type == 'lvl' or s['varnish'] else 0.67
        same(f'shear force at section {n}', got[1], 1.5 * max(Vy, Vz) / (b * h * kcr) / fv)
        same(f'bending moment at section {n}', got[2], max(y + 0.7 * z, 0.7 * y + z))
        I, W = torsion(h, b)
        same(f'torsion at section {n}', got[3], Tt / W / (min(1.3, 1 + 0.05 * max(h, b) / min(h, b)) * fv) , 0.1)
        if a['pulled']:
            same(f'bending and tension at section {n}', got[4], uN + max(y + 0.7 * z, 0.7 * y + z))
        else:
            same(f'bending and compression at section {n}', got[5], uN ** 2 + max(y + 0.7 * z, 0.7 * y + z))
        u = o.utilization[n]
        if [float(u[k]) for k in ('un', 'uv', 'um', 'ut', 'ubt', 'ubc')] != got:
            raise AssertionError(f'stored utilization {u} is not {got}')
        if got != [float(x) for x in o.section_resistance(n, reduce_uv=False)]:
            raise AssertionError('two evaluations of a section differ')
        if abs(max(got) - float(o.section_resistance(n, return_list=False, reduce_uv=False))) > 1e-12:
            raise AssertionError('utilization is not the greatest of the ratios')

    def kc(self, part, i):
        m = self.o.material
        L = (part['g']['to'] - part['g']['from']) / 100 * self.s['len'] * part['factor'] / 100
        rel = L / i / pi * sqrt(m.fc0k / m.E005)
        k = 0.5 * (1 + (0.2 if m.type == 'solid_timber' else 0.1) * (rel - 0.3) + rel ** 2)
        return 1 / (k + sqrt(k * k - rel * rel))

    def parts(self, parts, axis):
        s = self.s
        b, h, fm, fc = s['b'], s['h'], self.fm(), self.d(self.o.material.fc0k)
        out = [0.0]
        for p in parts:
            g = p['g']
            if g['n'] > 0:
                y, z = 6e6 * g['my'] / (b * h ** 2) / fm, 6e6 * g['mz'] / (h * b ** 2) / fm
                out.append(1e3 * g['n'] / (b * h) / (self.kc(p, (h if axis == 'y' else b) / sqrt(12)) * fc) + (y + 0.7 * z if axis == 'y' else 0.7 * y + z))
        return max(out)

    def buckle(self, a):
        got = self.o.check_buckling()
        for axis, v in zip('yz', got):
            same(f'buckling about {axis}', v, self.parts(a[axis], axis))

    def lateral(self, a):
        o, s, m = self.o, self.s, self.o.material
        b, h, fm, fc = s['b'], s['h'], self.fm(), self.d(m.fc0k)
        I, W = torsion(h, b)
        It = float(o.I_tor(0))
        same('torsion constant', It, I, 0.08)
        out = []
        for x in a['at']:
            part = a['z'][x['part'] - 1]
            L = 0.9 * (part['g']['to'] - part['g']['from']) / 100 * s['len']
            L += 2 * h if s['edge'] == 'compression' else -0.5 * h
            crit = pi * sqrt(m.E005 * h * b ** 3 / 12 * m.G005 * It) / (L * b * h ** 2 / 6)
            rel = sqrt(m.fmk / crit)
            k = 1 if rel <= 0.75 else 1.56 - 0.75 * rel if rel <= 1.4 else 1 / rel ** 2
            same('relative slenderness in bending', o.lamda_relm(x['part'] - 1, 1, x['at'] / 100), rel)
            r = 6e6 * x['my'] / (b * h ** 2) / (k * fm)
            out.append(r if a['pure'] else r * r + 1e3 * x['n'] / (b * h) / (self.kc(part, b / sqrt(12)) * fc))
        got = o.check_LT_buckling()
        same('lateral-torsional buckling', got, max(out))
        whole = max(float(np.max(o.check_sections())), *(float(v) for v in o.check_buckling()), float(got))
        same('design', o.design(), whole)


def tables(chk):
    """EN 1995-1-1, Tables 3.1, 3.2 and 2.3; charring speeds"""
    load()
    from metku.eurocodes.en1995 import en1995_1_1 as e, en1995_1_2 as f
    from metku.materials.timber_data import T, Timber
    for kind in GAMMA:
        for ldc, row in KMOD.items():
            for sc in 1, 2, 3:
                chk.expect(e.kmod(kind, sc, ldc) == row[sc - 1], f'kmod/{kind}/{sc}/{ldc}', 'kmod differs from EN 1995-1-1, Table 3.1')
        for sc in 1, 2, 3:
            chk.expect(e.kdef(kind, sc) == (0.6, 0.8, 2.0)[sc - 1], f'kdef/{kind}/{sc}', 'kdef differs from EN 1995-1-1, Table 3.2')
        chk.expect(e.get_gammaM(kind) == GAMMA[kind], f'gamma/{kind}', 'partial factor differs from EN 1995-1-1, Table 2.3')
    for t in T:
        m = Timber(t)
        chk.expect(m.E005 < m.E0mean and m.rhok < m.rhomean and m.ft0k <= m.fmk, f'grade/{t.name}', 'characteristic values exceed mean values')
        if t.name.startswith('C') or t.name.startswith('D') or t.name.startswith('GL'):
            chk.expect(m.fmk == int(''.join(c for c in t.name if c.isdigit())), f'grade/{t.name}/fm', 'bending strength is not that of the grade')


def apex(chk):
    """double tapered, curved and pitched cambered beams, 6.4.3"""
    ts, tm, T = load()
    rng = chk.rng
    for cls in 'HarjaPalkki', 'KaarevaPalkki', 'KaarevaHarjaPalkki':
        for grade in 'GL30c', 'C24':
            for case in range(40 if chk.tier == 'thorough' else 12):
                B, L, t = rng.choice([90, 140, 215]), 1000.0 * rng.randint(10, 24), rng.choice([33, 45])
                H0 = rng.choice([400, 600, 900])
                key = f'{cls}/{grade}/{case}'
                if cls == 'HarjaPalkki':
                    o = ts.HarjaPalkki(B, H0, H0 + rng.choice([200, 500]), material=T[grade])
                    a = atan((o.hap - H0) / (L / 2))
                else:
                    low = rng.choice([4, 8, 12])
                    a = low + (rng.choice([2, 4]) if cls == 'KaarevaHarjaPalkki' else 0)
                    r = rng.choice([4500, 6000, 9000, 15000])
                    o = getattr(ts, cls)(B, H0, a, low, r, material=T[grade], t=t)
                    a = radians(a)
                loads = []
                par = types.SimpleNamespace(length=L, loads=loads)
                o.parent = par
                if cls != 'HarjaPalkki':
                    if r * sin(max(a, radians(low))) > 0.45 * L:
                        continue
                    o.update_circles()
                m = tm.TimberMember(o, o.material, L, 'mt', 1, nodes={}, parent=par, lateral_support_y=[], lateral_support_z=[])
                o.timber_member = m
                M = 1e6 * rng.randint(50, 400)
                for x, f in (0.0, 0), (0.25, 0.75), (0.5, 1), (0.75, 0.75), (1.0, 0):
                    m.add_section(myed=f * M, loc=x)
                hs = [o.get_unmodified_h(x) for x in np.linspace(0.001, 0.999, 999)]
                chk.expect(max(abs(p - q) for p, q in zip(hs, hs[1:])) < 0.0011 * L * tan(max(a, 0.01)) and max(abs(p - q) for p, q in zip(hs, hs[::-1])) < 1e-6 * H0,
                           f'{key}/shape', f'height of a symmetric beam is not continuous and symmetric: {max(abs(p - q) for p, q in zip(hs, hs[1:]))}, {max(abs(p - q) for p, q in zip(hs, hs[::-1]))}, L={L} H0={H0} a={a} {vars(o)}')
                hap = o.get_unmodified_h(0.5)
                chk.expect(abs(hap - o.hap) < 1e-9 * hap, f'{key}/hap', f'height at the apex {o.hap}, the beam has {hap}')
                x = 0 if cls == 'HarjaPalkki' else hap / (r + 0.5 * hap)
                k1, k2, k3, k4 = 1 + 1.4 * tan(a) + 5.4 * tan(a) ** 2, 0.35 - 8 * tan(a), 0.6 + 8.3 * tan(a) - 7.8 * tan(a) ** 2, 6 * tan(a) ** 2
                k5, k6, k7 = 0.2 * tan(a), 0.25 - 1.5 * tan(a) + 2.6 * tan(a) ** 2, 2.1 * tan(a) - 4 * tan(a) ** 2
                if cls == 'KaarevaPalkki':                      # no slope at the apex
                    k1, k2, k3, k4, k5, k6, k7 = 1, 0.35, 0.6, 0, 0, 0.25, 0
                kl, kp = k1 + k2 * x + k3 * x ** 2 + k4 * x ** 3, k5 + k6 * x + k7 * x ** 2
                kr = 1 if cls == 'HarjaPalkki' or r / t >= 240 else 0.76 + 0.001 * r / t
                kdis = 1.4 if cls == 'HarjaPalkki' else 1.7
                W = B * hap ** 2 / 6
                for what, got, want in (('kl', m.k_l(), kl), ('kp', m.k_p(), kp), ('kr', m.k_r(), kr), ('kdis', m.k_dis(), kdis),
                                        ('apex bending', m.check_apex_bending_stress(), kl * M / W / (kr * m.fmd)),
                                        ('apex bending', m.check_tapered_beam_bending_tension(), kl * M / W / (kr * m.fmd)),
                                        ('tension across the grain', m.check_apex_perpendicular_tension(), kp * M / W / (kdis * m.k_vol() * m.ft90d))):
                    chk.expect(abs(got - want) <= 1e-9 * abs(want), f'{key}/{what}', f'{what}: {got}, by EN 1995-1-1, 6.4.3: {want}')
                total = B * sum((hs[i] + hs[i + 1]) / 2 * L * 0.998 / 998 for i in range(998))
                chk.expect(abs(m.V_tot() - total) < 0.01 * total, f'{key}/volume', f'volume {m.V_tot()} of the beam, it has {total}')
                vol = 1.0 if grade == 'C24' else (1e7 / min(m.V(), 2 / 3 * m.V_tot())) ** 0.2
                chk.expect(abs(m.k_vol() - vol) < 1e-9, f'{key}/kvol', f'volume factor {m.k_vol()}, by EN 1995-1-1 (6.51): {vol}')
    for flipped in False, True:
        got = []
        for M in 60e6, -60e6:
            o = ts.PulpettiPalkki(115, 400, 900, material=T.GL30c, flipped=flipped)
            m = tm.TimberMember(o, o.material, 8000.0, 'mt', 1, nodes={}, parent=types.SimpleNamespace(length=8000.0, loads=[]), lateral_support_y=[], lateral_support_z=[])
            o.timber_member = m
            for x, f in (0.0, 0), (0.5, 1), (1.0, 0):
                m.add_section(myed=f * M, loc=x)
            ta = 500 / 8000
            got.append(m.k_m_alpha())
            both = [(1 + (m.fmd / (c * m.fvd) * ta) ** 2 + (m.fmd / f * ta ** 2) ** 2) ** -0.5 for c, f in ((0.75, m.ft90d), (1.5, m.fc90d))]
        chk.expect(all(abs(g - w) < 1e-9 for g, w in zip(sorted(got), sorted(both))), f'taper/{flipped}',
                   f'reduction of the bending strength at a tapered edge: {got}, by EN 1995-1-1 (6.39), (6.40): {both}')


def run(chk):
    T = chk.tier == 'thorough'
    chk.guard('tables', tables, chk)
    chk.guard('apex', apex, chk)
    S = lambda rows: '{' + ', '.join(tla(x) for x in rows) + '}'
    off = dict(Kinds='{}', Sizes='{}', Covers='{}', Times='{}', Sides='{}', Members='{}', Loads='{}', Supports='{}', Lengths='{}', Joints='{}')
    covers = {'none', 'A', 'Agap', 'H', 'Hgap', 'AA', 'AAgap', 'HH', 'HHgap', 'F', 'Fgap', 'FF', 'FFgap', 'AF', 'AFgap', 'wood26', 'wood39'}
    times = {2, 11, 13, 15, 20, 22, 23, 26, 28, 30, 31, 40, 44, 45, 60, 75, 80, 90, 120}
    sizes = [[140, 400, 400], [220, 260, 260], [190, 500, 900], [240, 300, 700]]
    some = [(set(GRADE), sizes[2 * (chk.seed % 2):][:2], covers, times if T else times - {13, 26, 31, 44, 75}, 1),
            (set(GRADE), sizes, {'none', 'A', 'F', 'AAgap', 'wood26'}, times if T else {15, 22, 45, 90}, 3 if T else 2)]
    for i, (kinds, size, cover, time, depth) in enumerate(some):
        defs = dict(off, Mode='"fire"', Kinds=tla(kinds), Sizes=S(size), Covers=tla(cover), Times=tla(time), Sides='{3, 4}', Depth=str(depth))
        g = chk.graph('Timber', defs=defs, invariants=['Onward', 'Covered'])
        chk.notes[f'fire {i}'] = f'{len(g.states)} states, {g.n} transitions'
        chk.replay(Burning, g.tours(chk.rng, 60, 100000 if T else 8000), f'fire {i}')
    base = dict(sects=[], supy=set(), supz=set(), varnish=False, given=0, edge='compression', j1='hinge', j2='hinge')
    f = lambda at, n=0, my=0, mz=0, vy=0, vz=0, t=0: dict(at=at, n=n, my=my, mz=mz, vy=vy, vz=vz, t=t)
    start = [f(0, vz=20), f(50, n=-40, my=30, mz=-4, vy=3), f(100, n=-40, vz=-20, t=-1)]
    bend = [f(0, my=-35, vz=25), f(40, my=20, mz=3), f(100, vz=-15, t=1)]
    mixed = [f(0, n=30, my=-15, mz=2), f(30, n=-60, my=10, mz=-5, vy=-4), f(70, n=-20, my=25, t=2), f(100, n=15)]
    hog = [f(0, my=-40), f(50, my=-5), f(100, my=-10)]
    members = [dict(base, grade='C24', b=98, h=223, sc=1, ldc='mt', len=4000, sects=start),
               dict(base, grade='C24', b=120, h=120, sc=3, ldc='perm', len=3000, sects=mixed, j1='rigid', varnish=True),
               dict(base, grade='GL30c', b=140, h=400, sc=2, ldc='st', len=6000, sects=bend, supz={50}, edge='tension'),
               dict(base, grade='GL30c', b=215, h=630, sc=1, ldc='inst', len=8000, sects=hog, given=75),
               dict(base, grade='Kerto_S', b=75, h=360, sc=2, ldc='lt', len=5000, sects=start, supy={50}, supz={20, 60}),
               dict(base, grade='GL30c', b=400, h=140, sc=1, ldc='mt', len=4000, sects=bend, j1='semi', j2='rigid')]
    loads = [f(0, n=25), f(0, n=-30, my=-12, t=-2), f(30, my=18, mz=-6), f(30, n=-50, mz=4, vy=6), f(80, n=-10, my=-25, mz=-3, vz=-18, t=3), f(100, my=9, vz=11)]
    sup = [set(), {50}, {20, 60}, {30, 70}]
    defs = dict(off, Mode='"member"', Members=S(members), Loads=S(loads), Supports=S(sup), Lengths=tla({3000, 7000, 12000}), Joints=tla(set(STIFF)),
                Depth='3' if T else '2')
    g = chk.graph('Timber', defs=defs, invariants=['Divided'])
    chk.notes['member'] = f'{len(g.states)} states, {g.n} transitions'
    chk.replay(Member, g.tours(chk.rng, 60, 100000 if T else 9000), 'member')
