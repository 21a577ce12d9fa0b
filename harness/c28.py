"""C28: open thin-walled sections and cold-formed design rules (EN 1993-1-3)."""
import contextlib
import io
import warnings
from fractions import Fraction as Fr
from math import atan, cos, hypot, pi, radians, sin, sqrt

from common import MachineryError, tla

warnings.simplefilter('ignore')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def near(what, got, want, tol=1e-9, scale=1e-6):
    if not abs(float(got) - float(want)) <= tol * max(abs(float(want)), scale):
        raise AssertionError(f'{what} is {got}, specification {float(want)}')


# ------------------------------------------------------------- polylines
class Poly:
    """An OpenProf; spec lengths are halved (thicknesses taken as they are)."""

    def __init__(self, init):
        from metku.eurocodes.en1993.en1993_1_3.open_prof import Node, OpenProf
        self.steps = 0
        d = init['d']
        t = d['t']
        if len(set(t)) == 1:
            t = int(t[0]) if sum(map(sum, d['n'])) % 3 else float(t[0])
        nodes = [list(map(float, n)) for n in d['n']] if len(d['n']) % 2 else [Node(y=n[0], z=n[1]) for n in d['n']]
        self.p = OpenProf(nodes, t)

    def project(self):
        return dict(d=dict(n=[[n.y, n.z] for n in self.p.nodes], t=[s.t for s in self.p.segments]), steps=self.steps)

    def compare_state(self, st):
        me, want = self.project(), st
        return me['steps'] == want['steps'] and len(me['d']['n']) == len(want['d']['n']) and len(me['d']['t']) == len(want['d']['t']) and \
            all(abs(x - y) < 1e-9 for a, b in zip(me['d']['n'], want['d']['n']) for x, y in zip(a, b)) and \
            all(abs(x - y) < 1e-9 for x, y in zip(me['d']['t'], want['d']['t']))

    def apply(self, a):
        if a['op'] != 'ask':
            self.steps += 1
        getattr(self, a['op'])(a)

    def split(self, a):
        self.p.split_segment(a['i'] - 1, a['k'] / 4)

    def shift(self, a):
        for n in self.p.nodes:
            n.y += a['v'][0]
            n.z += a['v'][1]

    def move(self, a):
        n = self.p.nodes[a['i'] - 1]
        n.y += a['v'][0]
        n.z += a['v'][1]

    def wall(self, a):
        self.p.segments[a['i'] - 1].t = a['v']

    def ask(self, a):
        p = self.p
        A = Fr(a['A'])
        Sz, Sy = Fr(a['Sz2'], 2), Fr(a['Sy2'], 2)
        Iz0, Iy0, Iyz0 = Fr(a['Iz3'], 3), Fr(a['Iy3'], 3), Fr(a['Iyz6'], 6)
        Iy, Iz, Iyz = Iy0 - Sy * Sy / A, Iz0 - Sz * Sz / A, Iyz0 - Sy * Sz / A
        Iw = Fr(a['Iw2'], 2)
        Iyw, Izw, Iww = Fr(a['Iyw6'], 6) - Sz * Iw / A, Fr(a['Izw6'], 6) - Sy * Iw / A, Fr(a['Iww3'], 3) - Iw * Iw / A
        I = float(Iy + Iz)
        size = sqrt(I / float(A))
        near('area', p.area(), A)
        y, z, A_ = p.centroid()
        near('centroid y', y, Sz / A, scale=size)
        near('centroid z', z, Sy / A, scale=size)
        near('area', A_, A)
        for name, got, want in (('Iy', p.Iy(), Iy), ('Iz', p.Iz(), Iz), ('Iy', p.second_moments_gc()[0], Iy), ('Iz', p.second_moments_gc()[1], Iz),
                                ('Iyz', p.product_moment_gc(), Iyz)):
            near(name, got, want, scale=I)
        near('Iy0', p.Iy0(), Iy0, scale=I)
        near('Iz0', p.Iz0(), Iz0, scale=I)
        near('Iyz0', p.product_moment(), Iyz0, scale=I)
        w = [float(x) for x in p.sectorial_coordinates()]
        ww = [float(x) for x in a['w']]
        if len(w) != len(ww) or any(abs(x - y) > 1e-8 * max(1, abs(y)) for x, y in zip(w, ww)):
            raise AssertionError(f'sectorial coordinates {w}, specification {ww}')
        near('mean sectorial coordinate', p.mean_sectorial_coordinate(), Iw / A, scale=size * size)
        for name, got, want in zip(('Iyw', 'Izw', 'Iww'), p.sectorial_constants(), (Iyw, Izw, Iww)):
            near(name, got, want, scale=max(map(abs, ww)) * I / size)
        D = Iy * Iz - Iyz * Iyz
        if D > Fr(1, 100) * (Iy + Iz) ** 2 / 4:
            ys, zs = (Izw * Iz - Iyw * Iyz) / D, (-Iyw * Iy + Izw * Iyz) / D
            near('shear centre y', p.shear_center()[0], ys, 1e-8, size)
            near('shear centre z', p.shear_center()[1], zs, 1e-8, size)
            near('warping constant', p.warping_constant(), Iww + zs * Iyw - ys * Izw, 1e-8, float(Iww))
        near('torsion constant', p.torsion_constant(), Fr(a['It3'], 3))
        near('torsion modulus', p.torsion_modulus(), Fr(a['It3'], 3 * a['tmin']))
        (I1, I2), al = p.principal_axes()
        dd = float(Iz - Iy)
        root = sqrt(dd * dd + 4 * float(Iyz) ** 2)
        near('I1', I1, (I + root) / 2, scale=I)
        near('I2', I2, (I - root) / 2, scale=I)
        if abs(dd) > 1e-6 * I:
            near('angle of the principal axes', al, 0.5 * atan(2 * float(Iyz) / dd), scale=1.0)


# ---------------------------------------------------------- C and Z sections
def profiles(T):
    r = [dict(kind='C', t=0.7, h=150, a=47, b=41, ca=18, cb=16, r=3), dict(kind='Z', t=0.7, h=150, a=47, b=41, ca=18, cb=16, r=3),
         dict(kind='C', t=1.5, h=150, a=47, b=41, ca=0, cb=0, r=3), dict(kind='Z', t=1.0, h=120, a=50, b=50, ca=0, cb=0, r=2),
         dict(kind='C', t=1.0, h=200, a=60, b=60, ca=20, cb=20, r=3), dict(kind='Z', t=1.5, h=200, a=74, b=66, ca=21, cb=21, r=3),
         dict(kind='C', t=1.2, h=140, a=52, b=44, ca=15, cb=0, r=2), dict(kind='Z', t=0.8, h=140, a=52, b=44, ca=0, cb=17, r=2),
         dict(kind='C', t=4.0, h=80, a=42, b=42, ca=18, cb=18, r=4), dict(kind='Z', t=4.0, h=80, a=44, b=40, ca=0, cb=0, r=4),
         dict(kind='C', t=0.6, h=100, a=40, b=40, ca=22, cb=22, r=1.5, fy='S355MC'), dict(kind='Z', t=2.0, h=250, a=80, b=70, ca=25, cb=25, r=4, fy='S500')]
    if T:
        r += [dict(kind=k, t=t, h=h, a=a, b=b, ca=ca, cb=cb, r=r_) for k in 'CZ' for t in (0.8, 1.3, 2.2) for h in (110, 180, 260) for a, b in ((55, 48), (64, 64))
              for ca, cb in ((0, 0), (17, 17), (24, 19), (21, 0), (0, 14)) for r_ in (2, 5)]
    return r


FY = {'S350GD': (350, 420), 'S355MC': (355, 430), 'S500': (500, 550)}
COAT = 0.04


class Ref:
    """Dimensions along the centre line and the parts of the section."""

    def __init__(self, c):
        t, r = c['t'], c['r']
        self.c, self.tn, self.t = c, t, t - COAT
        self.fy, self.fu = FY[c.get('fy', 'S350GD')]
        self.rm = r + t / 2
        self.gr = self.rm * (1 - sin(pi / 4))
        self.H = c['h'] - t
        self.bw = self.H - 2 * self.gr
        self.side = dict(top=1, bottom=1 if c['kind'] == 'C' else -1)
        self.L, self.lip, self.b, self.bl = {}, {}, {}, {}
        for f, w, l in (('top', 'a', 'ca'), ('bottom', 'b', 'cb')):
            self.lip[f] = c[l] - t / 2 if c[l] else 0
            self.L[f] = c[w] - (t if c[l] else t / 2)
            self.b[f] = self.L[f] - (2 if c[l] else 1) * self.gr
            self.bl[f] = self.lip[f] - self.gr if c[l] else 0
        self.eps = sqrt(235 / self.fy)

    def record(self):
        h = lambda x: round(100 * x)
        tot = sum(hypot(q[0] - p[0], q[1] - p[1]) for p, q, _ in self.parts())
        return dict(t=h(self.t), e=round(100 * 28.4 * self.eps), bw=h(self.bw), bt=h(self.b['top']), bb=h(self.b['bottom']), lt=h(self.bl['top']),
                    lb=h(self.bl['bottom']), total=h(tot))

    def slender(self, b, k):
        return b / self.t / 28.4 / self.eps / sqrt(k)

    def rhos(self, load):
        """Reduction factors with their slenderness borders kept clear of."""
        out, clear = {}, True
        for f in ('top', 'bottom'):
            k = 4.0 if self.lip[f] else 0.43
            if f == 'bottom' and load != 'compression':
                out[f] = out[f + 'lip'] = 1.0
                continue
            x = self.slender(self.b[f], k)
            out[f], ok = self.inner(x, 1.0) if self.lip[f] else self.outer(x)
            clear &= ok
            out[f + 'lip'] = 1.0
            if self.lip[f]:
                q = self.bl[f] / self.b[f]
                out[f + 'lip'], ok = self.outer(self.slender(self.bl[f], 0.5 if q <= 0.35 else 0.5 + 0.83 * ((q - 0.35) ** 2) ** (1 / 3)))
                clear &= ok and q < 0.59 and abs(q - 0.35) > 1e-3
        if load == 'compression':
            out['web'], ok = self.inner(self.slender(self.bw, 4.0), 1.0)
            clear &= ok
        return out, clear

    @staticmethod
    def inner(x, psi):
        b = 0.5 + sqrt(0.085 - 0.055 * psi)
        return (1.0 if x <= b else min(1.0, (x - 0.055 * (3 + psi)) / x ** 2)), abs(x - b) > 5e-3

    @staticmethod
    def outer(x):
        return (1.0 if x <= 0.748 else min(1.0, (x - 0.188) / x ** 2)), abs(x - 0.748) > 5e-3

    def stiffener(self, f, rho):
        """Walls of the effective edge stiffener, in section coordinates."""
        s, zc, dz = self.side[f], (self.H / 2 if f == 'top' else -self.H / 2), (-1 if f == 'top' else 1)
        L, rm = self.L[f], self.rm
        pts = [(L - self.gr - rho[f] * self.b[f] / 2, 0.0)]
        pts += [(L - rm + rm * sin(k * pi / 8), rm - rm * cos(k * pi / 8)) for k in range(5)]
        pts += [(L, self.gr + rho[f + 'lip'] * self.bl[f])]
        return [(s * y, zc + dz * z) for y, z in pts]

    def parts(self, rho=None, chi=None, web=None):
        """Walls (p, q, t). web: (length at the top, length at the bottom) of the effective parts, from the notional ends."""
        rho = rho or dict(top=1, bottom=1, toplip=1, bottomlip=1)
        chi = chi or dict(top=1, bottom=1)
        t, rm, gr, H = self.t, self.rm, self.gr, self.H
        out = []

        def chain(p, th):
            out.extend((a, b, th) for a, b in zip(p, p[1:]))
        for f in ('top', 'bottom'):
            s, zc, dz = self.side[f], (H / 2 if f == 'top' else -H / 2), (-1 if f == 'top' else 1)
            chain([(s * (rm - rm * cos(k * pi / 8)), zc + dz * (rm - rm * sin(k * pi / 8))) for k in range(5)], t)
            if self.lip[f]:
                chain([(s * rm, zc), (s * (gr + rho[f] * self.b[f] / 2), zc)], t)
                chain(self.stiffener(f, rho), chi[f] * t)
            else:
                chain([(s * rm, zc), (s * (gr + rho[f] * self.b[f]), zc)], t)
        if web is None:
            chain([(0, -H / 2 + rm), (0, H / 2 - rm)], t)
        else:
            chain([(0, H / 2 - rm), (0, H / 2 - gr - web[0])], t)
            chain([(0, -H / 2 + rm), (0, -H / 2 + gr + web[1])], t)
        return out

    def distortion(self, rho, load):
        st = {f: props([(a, b, self.t) for a, b in zip(p, p[1:])]) for f in ('top', 'bottom') if self.lip[f] for p in [self.stiffener(f, rho)]}
        chi, clear = dict(top=1.0, bottom=1.0), True
        c = self.c
        for f in st:
            g = 'bottom' if f == 'top' else 'top'
            if load != 'compression':
                if f == 'bottom':
                    continue
                kf, b2 = 0.0, 0.0
            else:
                kf = 1.0 if c['a'] == c['b'] and c['ca'] == c['cb'] else st[g]['A'] / st[f]['A'] if g in st else 0.0
                b2 = abs(st[g]['y']) if g in st else 0.0
            b1 = abs(st[f]['y'])
            K = 210000 * self.t ** 3 / 4 / (1 - 0.09) / (b1 ** 2 * self.H + b1 ** 3 + 0.5 * b1 * b2 * self.H * kf)
            x = sqrt(self.fy / (2 * sqrt(K * 210000 * st[f]['Iy']) / st[f]['A']))
            chi[f] = 1.0 if x <= 0.65 else 1.47 - 0.723 * x if x <= 1.38 else 0.66 / x
            clear &= abs(x - 1.38) > 2e-3
        return chi, clear

    def effective(self, load):
        rho, clear = self.rhos(load)
        chi, ok = self.distortion(rho, load)
        clear &= ok
        if load == 'compression':
            b = rho['web'] * self.bw
            return props(self.parts(rho, chi, (b / 2, b / 2))), clear
        flange = props(self.parts(rho, chi))
        hc = self.H / 2 - flange['z']
        psi = 1 - self.H / hc
        if psi < -3 + 0.01:
            return None, False
        k = 23.9 if abs(psi + 1) < 1e-9 else 7.81 - 6.29 * psi + 9.78 * psi ** 2 if psi > -1 else 5.98 * (1 - psi) ** 2
        r, ok = self.inner(self.slender(self.bw, k), psi)
        if psi > 0:
            return None, False
        bc = self.bw / (1 - psi)
        gap = (1 - r) * bc
        be1 = 0.4 * r * bc
        return props(self.parts(rho, chi, (be1, self.bw - be1 - gap))), clear and ok


def props(walls):
    A = Sy = Sz = Iy = Iz = Iyz = 0.0
    for (y1, z1), (y2, z2), t in walls:
        a = t * hypot(y2 - y1, z2 - z1)
        A += a
        Sy += a * (z1 + z2) / 2
        Sz += a * (y1 + y2) / 2
        Iy += a * (z1 * z1 + z2 * z2 + z1 * z2) / 3
        Iz += a * (y1 * y1 + y2 * y2 + y1 * y2) / 3
        Iyz += a * (2 * y1 * z1 + 2 * y2 * z2 + y1 * z2 + y2 * z1) / 6
    return dict(A=A, y=Sz / A, z=Sy / A, Iy=Iy - Sy * Sy / A, Iz=Iz - Sz * Sz / A, Iyz=Iyz - Sy * Sz / A)


class Section:
    def __init__(self, cat, init, notes):
        from metku.eurocodes.en1993.en1993_1_3 import cf_profs
        self.c = cat[init['d']['p'] - 1]
        self.st = dict(d=dict(init['d']), steps=0)
        self.ref, self.notes = Ref(self.c), notes
        c = self.c
        cls = cf_profs.CSection if c['kind'] == 'C' else cf_profs.ZSection
        with quiet():
            self.s = cls(t_nom=c['t'], h=c['h'], a=c['a'], b=c['b'], ca=c['ca'], cb=c['cb'], r=c['r'], material=c.get('fy', 'S350GD'), t_coat=COAT)
        self.gross()

    def gross(self):
        s, r = self.s, self.ref
        g = props(r.parts())
        who = f'gross section {self.c}'
        near(f'{who}: A', s.A, g['A'])
        near(f'{who}: Iy', s.Iy, g['Iy'])
        near(f'{who}: Iz', s.Iz, g['Iz'])
        near(f'{who}: Iyz', s.Iyz, g['Iyz'], scale=g['Iy'])
        near(f'{who}: centroid', s.centroid()[0], g['y'], scale=r.H)
        near(f'{who}: centroid', s.centroid()[1], g['z'], scale=r.H)
        near(f'{who}: It', s.It, g['A'] * r.t ** 2 / 3)
        c = self.c
        n = 2 + bool(c['ca']) + bool(c['cb'])
        flat = r.H - 2 * r.rm + sum(r.L[f] - (2 if r.lip[f] else 1) * r.rm + (r.lip[f] - r.rm if r.lip[f] else 0) for f in r.L)
        near(f'{who}: area along the centre line', s.Agross(), r.t * (flat + n * pi * r.rm / 2))
        for name, got, want in (('web', s.bp_w, r.bw), ('top flange', s.bp_t, r.b['top']), ('bottom flange', s.bp_b, r.b['bottom']),
                                ('top lip', s.bp_t_lip, r.bl['top']), ('bottom lip', s.bp_b_lip, r.bl['bottom'])):
            near(f'{who}: notional width of {name}', got, want)
        bends = 0.43 * n * c['r'] / (r.bw + sum(r.b.values()) + sum(r.bl.values()))
        near(f'{who}: area with corners by 5.1', s.area(delta=True), g['A'] * (1 - bends))
        Ag = s.Agross()
        near(f'{who}: average yield strength', s.fya, min(r.fy + (r.fu - r.fy) * 7 * 4 * r.t ** 2 / Ag, (r.fy + r.fu) / 2))

    def apply(self, a):
        import matplotlib.pyplot as plt
        s, r, load = self.s, self.ref, a['load']
        self.st['steps'] += 1
        self.st['d']['last'] = load
        s.Ned, s.Med = (-1000.0, 0.0) if load == 'compression' else (0.0, 1e6)
        rho, clear = r.rhos(load)
        want, ok = r.effective(load)
        if not (clear and ok):
            self.notes['skipped'] = self.notes.get('skipped', 0) + 1
        else:
            for k, v in (('top', 'top'), ('tlip', 'toplip'), ('bottom', 'bottom'), ('blip', 'bottomlip'), ('web', 'web')):
                if v in rho and abs(a[k] / 1e4 - rho[v]) > 4e-3:
                    raise MachineryError(f'{self.c}: {k} {a[k]} against {rho[v]}')
        with quiet():
            s.effective_section(load)
            plt.close('all')
            e = s.prof_eff
            got = dict(A=e.area(), y=s.centroid_eff()[0], z=s.centroid_eff()[1], Iy=e.Iy(), Iz=e.Iz(), Iyz=e.product_moment_gc())
        if clear and ok:
            self.notes['compared'] = self.notes.get('compared', 0) + 1
            who = f'effective section {self.c} in {load}'
            for k, tol, scale in (('A', 1e-7, 1), ('y', 1e-6, r.H), ('z', 1e-6, r.H), ('Iy', 1e-6, 1), ('Iz', 1e-6, 1), ('Iyz', 1e-6, want['Iy'])):
                near(f'{who}: {k}', got[k], want[k], tol, scale)
            if load == 'compression':
                if r.lip['top'] == r.lip['bottom'] == 0:
                    near(f'{who}: area', got['A'], r.t * (r.record()['total'] - a['lost']) / 100, 4e-3)
                with quiet():
                    N = s.axial_force_resistance()
                    plt.close('all')
                if want['A'] < props(r.parts())['A'] * (1 - 1e-9):
                    near(f'{who}: axial resistance', N, r.fy * want['A'], 1e-6)
        s.Ned, s.Med = 1000.0, 0.0
        with quiet():
            near('resistance in tension', s.axial_force_resistance(), s.fya * s.A)
        self.gross()

    def project(self):
        return dict(d=dict(self.st['d']), steps=self.st['steps'])


# ------------------------------------------------------------------ rules
def frac(v):
    return v[0] / v[1]


class Rules:
    def __init__(self, init):
        from metku.eurocodes.en1993.en1993_1_3 import en1993_1_3 as m
        self.m = m

    def project(self):
        return dict(d=0, steps=0)

    def apply(self, a):
        with quiet():
            getattr(self, a['op'])(a)

    def screw(self, a):
        t, t1, d = (x / 100 for x in a['s'])
        v = dict(root=3.2 * sqrt(t / d), cap=2.1)
        w = frac(a['w'])
        al = (1 - w) * v[a['low']] + w * v[a['high']]
        for fu in (330, 420):
            F, alpha = self.m.screw_bearing_resistance(fu, d, t, t1)
            near(f'alpha of a screw d={d}, t={t}, t1={t1}', alpha, al)
            near('bearing resistance of a screw', F, al * fu * d * t / 1.25)
            near('net section', self.m.screw_net_secton_resistance(7 * d, fu), 7 * d * fu / 1.25)

    def valid(self, a):
        e = a['e']
        d = e['d'] / 10
        got = self.m.screw_validity(e['e1'] * d / 10, e['e2'] * d / 10, e['p1'] * d / 10 + 1e-9, e['p2'] * d / 10 + 1e-9, d, 1.0, 1.0)
        if bool(got) != a['v']:
            raise AssertionError(f'validity of a screw joint {e}: {got}, Table 8.2: {a["v"]}')

    def chid(self, a):
        near('reduction for distortional buckling', self.m.distortional_buckling_reduction_factor(a['l'] / 100), frac(a['v']))

    def edge(self, a):
        near('buckling factor of an edge stiffener', self.m.buckling_factor_edge_stiffener(a['r'] / 100), 0.5 + 0.83 * (a['x'] / 100) ** (2 / 3))

    def fya(self, a):
        x = a['a']
        near('average yield strength', self.m.fya(x['fyb'], x['fu'], x['t'], x['A'], x['n']), frac(a['v']))

    def web(self, a):
        w = a['w']
        t = w['t'] / 10
        C = 1.0
        for f in a['v']['f']:
            C *= frac(f)
        base, plus = a['v']['root']
        if base:
            C *= (8.8 + 1.1 * sqrt(w['sst'])) if base == 88 else 13.2 + 2.87 * sqrt(w['sst'])
        hw = w['hwt'] * t
        got = self.m.RwRd(w['fy'], t, hw, w['sst'] * t, c=(1.2 if w['near'] else 1.8) * hw, r=w['rt'] * t, phi=w['phi'], e=0.9 * hw if w['two'] else 0.0,
                          flange_stiffeners=w['lip'], web_stiffeners=w['still'])
        near(f'local transverse resistance {w}', got, C * t * t * w['fy'])

    def pair(self, a):
        p = a['p']
        t, hw, phi, fy, r, ss = 0.96, 120.0, p['phi'], 350, 3.0, p['ss']
        kw = {} if p['kind'] == 'support' else {p['kind']: p['dist'] / 10 * hw}
        al = 0.075 if a['cat'] == 1 else 0.15
        la = frac(a['la'])
        want = al * t * t * sqrt(fy * 210000) * (1 - 0.1 * sqrt(r / t)) * (0.5 + sqrt(0.02 * la / t)) * (2.4 + (phi / 90) ** 2)
        for s1, s2 in ((1, 1), (-1, 1), (1, -1)):
            near(f'local transverse resistance of sheeting {p}', self.m.RwRd_two_webs(fy, r, t, phi, hw, ss, VEd=[s1 * p['v1'], s2 * p['v2']], **kw), want)

    def sheet(self, a):
        s = a['s']
        t = s['t'] / 100
        want = a['C100'] / 10 * frac(a['kba']) * (t / 0.75) ** (a['p10'] / 10) * frac(a['kbR']) * (1 + (s['A'] - 1) * a['kA'] / 1e5) * sqrt(frac(a['kbT']))
        near(f'rotational stiffness of sheeting {s}', self.m.CD_A(s['ba'], t, 'pos' if s['pos'] else 'neg', s['A'], s['bT'], s['bR'], 'gravity' if s['down'] else 'uplift'), want)
        near('shear stiffness of sheeting', self.m.sheeting_shear_stiffness(t, 3000 + s['ba'], s['bT'], 8000 * s['bR']),
             1000 * t ** 1.5 * (50 + 10 * (8000 * s['bR']) ** (1 / 3)) * (3000 + s['ba']) / s['bT'])


def shapes():
    return [dict(n=[[20, 8], [20, 0], [0, 0], [0, 40], [24, 40], [24, 32]], t=[2] * 5), dict(n=[[-16, 0], [0, 0], [0, 32], [20, 32]], t=[1, 2, 3]),
            dict(n=[[0, 0], [12, 16], [32, 16], [44, 0]], t=[2, 1, 2]), dict(n=[[0, 0], [24, 0], [24, -40]], t=[3, 3]),
            dict(n=[[4, 0], [16, -16], [16, 8], [0, 20]], t=[1, 1, 1]), dict(n=[[-8, 4], [16, 4]], t=[2]),
            dict(n=[[0, 12], [0, 0], [16, 12], [36, 12], [36, -8]], t=[2, 1, 1, 2])]


def run(chk):
    import matplotlib
    matplotlib.use('Agg')
    T = chk.tier == 'thorough'
    none = dict(Shapes='{}', Thick='{}', Shifts='{}', Depth='0', Profiles='<<>>', Loads='{}', Screws='{}', Webs='{}', Pairs='{}', Sheets='{}', Lambdas='{}',
                Ratios='{}', Averages='{}', Edges='{}')
    g = chk.graph('ColdFormed', defs=dict(none, Mode='"poly"', Shapes='{' + ','.join(tla(s) for s in shapes()) + '}', Thick=tla({1, 3}),
                                          Shifts='{<<4, -12>>, <<0, 8>>, <<-20, 0>>}', Depth='3' if T else '2'),
                  invariants=['Definite'], properties=['Divided', 'Moved'])
    chk.replay(Poly, g.tours(chk.rng, max_len=12), 'polylines')
    cat, rec = [], []
    for c in profiles(T):
        r = Ref(c)
        if all(r.effective(l)[1] for l in ('compression', 'bending_y_pos')) or not T:
            cat.append(c)
            rec.append(r.record())
    notes = {}
    g = chk.graph('ColdFormed', defs=dict(none, Mode='"section"', Profiles=tla(rec), Loads=tla({'compression', 'bending_y_pos'}), Depth='4'), invariants=['Shrink'])
    chk.replay(lambda s: Section(cat, s, notes), g.tours(chk.rng, max_len=4), 'sections')
    chk.notes['sections'] = f'{len(cat)} sections, {notes}'
    if notes.get('compared', 0) < 4 * notes.get('skipped', 0):
        raise MachineryError(f'too many sections on a border: {notes}')
    P = lambda **k: [dict(zip(k, v)) for v in __import__('itertools').product(*k.values())]
    S = lambda rows: '{' + ','.join(tla(x) for x in rows) + '}'
    defs = dict(none, Mode='"rules"', Screws=S([a, b, d] for a in (60, 96, 100, 150, 300) for b in (60, 96, 100, 120, 150, 200, 300, 400) if b >= a for d in (420, 550, 630)),
                Lambdas=tla(set(range(20, 260, 7))), Ratios=tla(set(range(5, 61, 5))),
                Averages=S(P(fyb=[280, 350], fu=[360, 420], t=[1, 2, 4], A=[100, 300, 900], n=[2, 4])),
                Edges=S(P(e1=[29, 31], e2=[14, 16], p1=[29, 31], p2=[29, 31], d=[28, 55, 82])),
                Webs=S(P(fy=[235, 350, 420], t=[8, 15, 30], hwt=[50, 100, 160], sst=[20, 60, 90], rt=[1, 2, 4], phi=[60, 90], near=[False, True], two=[False, True],
                         lip=[False, True], still=[False, True])),
                Pairs=S(P(kind=['e', 'c', 'support'], dist=[5, 14, 16], ss=[30, 100, 180], v1=[100, 300], v2=[60, 70, 75, 80, 100], phi=[45, 70, 90])),
                Sheets=S(P(pos=[False, True], down=[False, True], ba=[60, 120, 150], t=[60, 75, 80, 100, 150], A=[2, 6, 12], bT=[30, 60, 130], bR=[100, 185, 250])))
    g = chk.graph('ColdFormed', defs=defs)
    chk.replay(Rules, g.tours(chk.rng, max_len=300), 'rules')
