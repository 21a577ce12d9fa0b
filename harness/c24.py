"""C24: resistances of welded hollow section joints."""
import contextlib
import io
import warnings
from math import cos, inf, pi, radians, sin, sqrt

import numpy as np

from common import tla

warnings.simplefilter('ignore')
CHORDS = [[200, 200, 80], [100, 100, 40], [100, 100, 100], [160, 120, 50], [80, 140, 60], [60, 100, 100]]      # h, b, 10 t
BRACES = [[60, 60, 30], [100, 100, 40], [90, 90, 50], [40, 80, 40], [120, 100, 50], [50, 30, 25], [120, 120, 60]]
GRADES = [235, 355, 420, 460, 500]
BASES = [dict(kind=k, chord=c, b1=b1, b2=b2, a1=a1, a2=a2, gap=g, fy0=fy, n0=n0, m0=m0, f=f, r=0, plate=False)
         for k, c, b1, b2, a1, a2, g, fy, n0, m0, f in (
             ('K', 1, 1, 2, 45, 60, 40, 355, -400, 0, -90), ('K', 2, 1, 3, 60, 45, 15, 420, 0, 0, 90),
             ('K', 3, 3, 3, 45, 45, 25, 500, 300, 0, -90), ('K', 5, 7, 7, 30, 60, 25, 355, -400, 0, 90),
             ('Y', 1, 2, 2, 45, 45, 0, 355, -400, 0, -90), ('Y', 2, 3, 3, 90, 90, 0, 500, -400, 300, -90),
             ('Y', 2, 2, 2, 60, 60, 0, 355, 0, 0, 90), ('Y', 3, 2, 2, 45, 45, 0, 235, 300, 0, -90),
             ('Y', 6, 2, 2, 90, 90, 0, 355, 0, 0, -90), ('X', 1, 1, 1, 45, 45, 0, 460, -400, 0, -90), ('X', 4, 7, 7, 90, 90, 0, 355, 0, 300, -90),
             ('X', 2, 3, 3, 60, 60, 0, 355, -400, 0, 90), ('X', 5, 7, 7, 30, 30, 0, 420, -400, 0, -90))]


class Geo:
    """Sizes and forces of a joint as plain numbers; the resistances of EN 1993-1-8."""

    def __init__(self, kind, chord, braces, angles, fy0, fy, sigma, n0, forces, gap=0, r=1.0, tp=0):
        self.kind, self.gap, self.r, self.tp = kind, gap, r, tp
        self.h0, self.b0, self.t0, self.A0, self.R0 = chord
        self.fy0, self.fy, self.n0, self.forces, self.sigma = fy0, fy, n0, forces, sigma
        self.h, self.b, self.t = (np.array([x[i] for x in braces], float) for i in range(3))
        self.s = np.sin(np.radians(np.array(angles, float)))
        self.c = np.cos(np.radians(np.array(angles, float)))

    beta = property(lambda g: (sum(g.b) + sum(g.h)) / 4 / g.b0 if g.kind == 'K' else g.b[0] / g.b0)
    gamma = property(lambda g: g.b0 / 2 / g.t0)

    def kn(self):
        n = self.sigma / self.fy0                   # compression positive
        return 1.0 if n <= 0 else min(1.0, 1.3 - 0.4 * n / self.beta)

    def face(self):
        if self.kind == 'K':
            t = self.tp or self.t0
            return self.r * 8.9 * self.kn() * self.fy0 * t ** 2 * sqrt(self.gamma) * self.beta / self.s
        b = min(self.beta, 0.99)
        return self.r * self.kn() * self.fy0 * self.t0 ** 2 / ((1 - b) * self.s) * (2 * self.h / self.b0 / self.s + 4 * sqrt(1 - b))

    def alpha(self):
        return sqrt(1 / (1 + 4 * self.gap ** 2 / 3 / self.t0 ** 2))

    def shear(self, V):
        """K joints: braces, chord."""
        Av = (2 * self.h0 + self.alpha() * self.b0) * self.t0
        Vpl = self.A0 * self.h0 / (self.b0 + self.h0) * self.fy0 / sqrt(3)
        N0 = 0.0 if V > Vpl else self.fy0 * (self.A0 - Av + Av * sqrt(1 - (V / Vpl) ** 2))
        return self.r * self.fy0 * Av / sqrt(3) / self.s, self.r * N0

    def brace(self):
        t0 = self.tp or self.t0
        beff = np.minimum(10 * t0 / self.b0 * self.fy0 * t0 / (self.fy * self.t), 1.0) * self.b
        return self.r * self.fy * self.t * (2 * self.h - 4 * self.t + beff + (self.b if self.kind == 'K' else beff))

    def punching(self):
        t0 = self.tp or self.t0
        bep = np.minimum(10 * t0 / self.b0, 1.0) * self.b
        return self.r * self.fy0 * t0 / sqrt(3) / self.s * (2 * self.h / self.s + bep + (self.b if self.kind == 'K' else bep))

    def side_wall(self):
        fb = self.fy0
        if self.forces[0] < 0:
            lam = 3.46 * (self.h0 / self.t0 - 2) * np.sqrt(1 / self.s[0]) / (pi * sqrt(210000 / self.fy0))
            phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam ** 2)
            fb *= min(1.0, 1 / (phi + sqrt(phi ** 2 - lam ** 2)))
            if self.kind == 'X':
                fb *= 0.8 * self.s[0]
        N = self.r * self.kn() * fb * self.t0 / self.s * (2 * self.h / self.s + 10 * self.t0)
        if self.sheared():
            N = np.minimum(N, self.r * self.fy0 * self.A0 * self.h0 / (self.h0 + self.b0) / sqrt(3) / self.s)
        return N

    def sheared(self):
        return self.kind == 'X' and self.c[0] > self.h[0] / self.h0

    def modes(self):
        punching = {'punching'} if self.beta <= 1 - 1 / self.gamma else set()
        if self.kind == 'K':
            return {'face', 'shear', 'brace'} | punching
        return {'face'} if self.beta < 0.85 else {'between', 'brace'} | punching

    def resistance(self, modes, V):
        vals = []
        for m in modes:
            if m == 'between':
                w = (self.beta - 0.85) / 0.15
                vals.append((1 - w) * self.face() + w * self.side_wall())
            elif m == 'shear':
                vals.append(self.shear(V)[0])
            else:
                vals.append(getattr(self, m)())
        return np.min(np.array(vals), axis=0)


def same(what, got, want, tol=1e-7):
    got, want = np.atleast_1d(np.asarray(got, float)), np.atleast_1d(np.asarray(want, float))
    if got.shape != want.shape or not np.all((got == want) | (np.abs(got - want) <= tol * np.maximum(1e-6, np.abs(want)))):
        raise AssertionError(f'{what}: {got.tolist()}, EN 1993-1-8: {want.tolist()}')


class Joint:
    n = 0

    def __init__(self, init):
        from metku.eurocodes.en1993.en1993_1_8 import rhs_joints
        from metku.sections.steel.RHS import RHS
        from metku.structures.steel.steel_member import SteelMember
        warnings.simplefilter('ignore')
        self.rj, self.RHS, self.Member = rhs_joints, RHS, SteelMember
        self.x, self.steps = dict(init['j']), init['steps']
        Joint.n += 1
        self.by_member = Joint.n % 2
        x = self.x
        self.tp = 0
        ch, br = self.chord(), [self.brace_section(i) for i in (0, 1)]
        F = self.forces()
        if self.by_member:
            ch = SteelMember(ch, length=3000)
            br = [SteelMember(b, length=2500) for b in br]
            for b, f in zip(br, F):
                b.add_section(ned=f)
        else:
            for b, f in zip(br, F):
                b.Ned = f
        N0, M0 = self.chord_forces()
        angles = [x['a1'], x['a2']]
        if x['kind'] == 'K':
            self.j = rhs_joints.RHSKGapJoint(ch, br, angles, gap=x['gap'], N0=N0, M0=M0)
        else:
            cls = dict(Y=rhs_joints.RHSYJoint, X=rhs_joints.RHSXJoint)[x['kind']]
            self.j = cls(ch, br[0], angles[0], N0=N0, M0=M0)

    def chord(self):
        h, b, t = CHORDS[self.x['chord'] - 1]
        fy = self.x["fy0"]
        return self.RHS(h, b, t / 10, fy="S460M" if fy == 460 else fy)

    def brace_section(self, i):
        h, b, t = BRACES[self.x[('b1', 'b2')[i]] - 1]
        return self.RHS(h, b, t / 10, fy=(355, 420)[i])

    def forces(self):
        f = self.x['f'] * 1e3
        return [f, -f]

    def chord_forces(self):
        s = self.chord()
        # RHS in bending about the stronger or weaker axis: y is the axis across the joint
        return self.x['n0'] / 1000 * s.A * self.x['fy0'], self.x['m0'] / 1000 * s.Wel[0] * self.x['fy0']

    def project(self):
        return dict(j=self.x, steps=self.steps)

    def members(self):
        return self.j.braces if self.x['kind'] == 'K' else [self.j.brace]

    def apply(self, a):
        j, x = self.j, self.x
        if a['op'] == 'design':
            with contextlib.redirect_stdout(io.StringIO()):
                return self.design(a)
        self.steps += 1
        op, K = a['op'], x['kind'] == 'K'
        if op == 'chord' or op == 'steel':
            x['chord' if op == 'chord' else 'fy0'] = a['v']
            j.chord.profile = self.chord()
            j.N0, j.M0 = self.chord_forces()
        elif op == 'brace':
            x[a['p']] = a['v']
            if not K:
                x['b1'] = x['b2'] = a['v']
            for i, m in enumerate(self.members()):
                m.profile = self.brace_section(i)
        elif op == 'angle':
            x[a['p']] = a['v']
            if K:
                j.angles = [x['a1'], x['a2']]
            else:
                x['a1'] = x['a2'] = a['v']
                j.angle = a['v']
        elif op == 'gap':
            x['gap'] = j.gap = a['v']
        elif op in ('axial', 'bending'):
            x['n0' if op == 'axial' else 'm0'] = a['v']
            j.N0, j.M0 = self.chord_forces()
        elif op == 'force':
            x['f'] = a['v']
            for m, f in zip(self.members(), self.forces()):
                m.ned = f
            if not K and self.steps % 2:
                j.N1 = self.forces()[0]
                self.set_by_hand = True
            elif not K and getattr(self, 'set_by_hand', False):
                j.N1 = self.forces()[0]
        elif op == 'factor':
            x['r'] = a['v']
            j.r = a['v'] / 10
        elif op == 'plate':
            x['plate'] = True
            g = self.geo()
            j.add_chord_face_plate(tp=1)
            self.tp = j.chord_face_plate['tp']
            same('thickness of the face plate', self.tp, 2 * max(g.t))
            if j.chord_face_plate['bp'] < g.b0 - 2 * g.t0 or j.chord_face_plate['lp'] < 1.5 * (sum(g.h / g.s) + x['gap']) * (1 - 1e-9):
                raise AssertionError(f'face plate too small: {j.chord_face_plate}')

    def geo(self):
        x, K = self.x, self.x['kind'] == 'K'
        s, n = self.chord(), 2 if K else 1
        br = [self.brace_section(i) for i in range(n)]
        h, b, t = CHORDS[x['chord'] - 1]
        return Geo(x['kind'], (h, b, t / 10, s.A, s.R), [(q.H, q.B, q.T) for q in br], [x['a1'], x['a2']][:n],
                   x['fy0'], np.array([355.0, 420.0][:n]), (x['m0'] - x['n0']) / 1000 * x['fy0'], self.chord_forces()[0], self.forces()[:n],
                   gap=x['gap'], r=(x['r'] or (10 if x['fy0'] <= 355 else 9 if x['fy0'] <= 460 else 8)) / 10, tp=self.tp)

    def design(self, a):
        j, x, g = self.j, self.x, self.geo()
        K = x['kind'] == 'K'
        assert abs(g.kn() - a['kn'][0] / a['kn'][1]) < 1e-9 and g.modes() == set(a['modes']) and abs(g.r - a['red'] / 10) < 1e-12, 'harness'
        assert g.sheared() == a['sheared'], 'harness'
        same('beta', j.beta(), a['beta'][0] / a['beta'][1])
        same('gamma', j.gamma(), g.gamma)
        same('chord stress factor kn', j.eval_KN(), a['kn'][0] / a['kn'][1])
        s = j.chord.profile
        same('chord stress with the plastic modulus', j.new_evalN(), (j.N0 / s.A - j.M0 / s.Wpl[0]) / x['fy0'], 1e-6)
        same('strength reduction', j.strength_reduction(), a['red'] / 10)
        V = abs(g.forces[0] * g.s[0 if a['comp'] == 1 or not K else 1])
        same('chord face failure', j.chord_face_failure(), g.face())
        same('brace failure', j.brace_failure(), g.brace())
        same('punching shear', j.punching_shear(), g.punching())
        if K:
            same('shear force in the gap', j.V0gap, V)
            br, ch = j.chord_shear()
            same('chord shear, braces', br, g.shear(V)[0])
            same('chord shear, chord', ch, g.shear(V)[1])
            e = (sum(g.h / g.s) / 2 + x['gap']) * g.s[0] * g.s[1] / (g.s[0] * g.c[1] + g.c[0] * g.s[1]) - g.h0 / 2
            same('eccentricity', j.eccentricity(), e)
            same('eccentricity of given sizes', self.rj.eccentricity(g.h0, g.h[0], g.h[1], x['a1'], x['a2'], x['gap']), e)
            if a['comp']:
                k = a['comp'] - 1
                same('forces of the braces in compression and in tension', [j.N1, j.N2], [abs(x['f']) * 1e3] * 2)
                same('angles of the braces in compression and in tension', [j.angle1, j.angle2], [x['a1'], x['a2']] if k == 0 else [x['a2'], x['a1']])
                d = abs(x['f']) * 1e3 * g.c[k if a['deduct'] == 'compression' else 1 - k]
                same('chord force in the gap', j.N0gap, g.n0 + (d if a['deduct'] == 'tension' else -d), 1e-6)
        else:
            same('brace force', j.N1, g.forces[0])
            same('side wall buckling', j.chord_web_buckling(), g.side_wall())
        want = np.abs(g.forces) / g.resistance(a['modes'], V)
        got = np.atleast_1d(np.asarray(j.design(), float))
        same('utilization of the braces', got[:len(want)], want)
        if len(got) > len(want):
            N0 = g.shear(V)[1]
            same('utilization of the chord', got[len(want):], [abs(g.n0) / N0 if N0 else inf])
        j.info()


# ------------------------------------------------------------ joints of trusses
def truss_joints(chk, T):
    from metku.raami import raami_plane_truss as rp
    from metku.raami.frame_loads import LoadIDs
    from metku.sections.steel.RHS import RHS
    warnings.simplefilter('ignore')
    lid = LoadIDs['ULS']
    count = 0
    cases = [(web, up, q, k) for web in ('K', 'N') for up in (True, False) for q in (-30.0, 12.0) for k in range(6 if T else 3)]
    for web, up, q, k in cases:
        name = f'truss/{web}/{up}/{q}/{k}'
        rng = chk.rng
        R = lambda *a, fy=355: RHS(*a, fy="S460M" if fy == 460 else fy)
        fy = [355, 420, 500, 235, 460, 355][k]
        prof = [dict(top=R(160, 160, 6, fy=fy), bot=R(140, 140, 5, fy=fy), web=R(100, 100, 4)),
                dict(top=R(120, 120, 6, fy=fy), bot=R(120, 120, 8, fy=fy), web=R(110, 110, 5)),
                dict(top=R(200, 120, 8, fy=fy), bot=R(100, 100, 5, fy=fy), web=R(80, 100, 4))][k % 3]

        def build():
            with contextlib.redirect_stdout(io.StringIO()):
                t = rp.SlopedTruss(L1=10000, L2=10000, dx1=1500, dx2=1500, h1=1500, h2=2000)
                t.generate_topology(web, 3, top_chord_profile=prof['top'], bottom_chord_profile=prof['bot'],
                                    brace_profile=prof['web'], first_diagonal_up=up, edge_verticals=bool(k % 2), nel_chord=3)
                t.generate_joints()
                t.generate_supports()
                for j in t.joints.values():
                    if isinstance(j, rp.TubularKGapJoint):
                        j.yloc = rng.choice([0.15, 0.25, 0.3]) * j.h0
                t.generate_uniform_load(q, chord='top', load_id=lid)
                t.generate_fem('ecc_elements')
                t.structural_analysis(load_id=lid, support_method='REM')
                t.design_joints(lid)
            return t
        ok, t = chk.guard(name, build)
        if not ok:
            continue
        for jid, j in t.joints.items():
            K = isinstance(j, rp.TubularKGapJoint)
            if not K and not isinstance(j, rp.TubularYJoint):
                continue
            angles, ch = [], j.chords[0]
            d0 = np.subtract(*(np.asarray(n.coords, float) for n in ch.nodes))
            for m in j.braces:
                ends = [np.asarray(v.xp.coords if isinstance(v, rp.TubularKGapJoint) else v.node.coords, float)
                        for v in (m.top_joint, m.bottom_joint)]
                d = ends[0] - ends[1]
                c = abs(np.dot(d, d0)) / np.linalg.norm(d) / np.linalg.norm(d0)
                angles.append(np.degrees(np.arccos(c)))
            forces = np.array([max(m.nodal_forces[lid]['N'], key=abs) for m in j.braces])
            Ns = [max(c.nodal_forces[lid]['N'], key=abs) for c in j.chords]
            n0 = max(Ns, key=abs) if K else Ns[0]
            s = ch.cross_section
            g = Geo('K' if K else 'Y', (s.H, s.B, s.T, s.A, s.R), [(m.cross_section.H, m.cross_section.B, m.cross_section.T) for m in j.braces],
                    angles, s.fy, np.array([m.cross_section.fy for m in j.braces], float), -n0 / s.A, n0, forces,
                    gap=j.gap if K else 0, r=1.0 if s.fy <= 355 else 0.9 if s.fy <= 460 else 0.8)
            V = 0.0
            if K:
                el = j.fem_elements['gap']
                V = max(abs(v) for e in (el if isinstance(el, list) else [el]) for v in e.fint[lid]['fz'])
            want = np.abs(forces) / g.resistance(g.modes(), V)
            if K:
                N0 = g.shear(V)[1]
                want = max(list(want) + [abs(n0) / N0 if N0 > 0 else inf])
            else:
                want = want[0]
            got = j.utilization[lid]
            ok, n = chk.guard(f'{name}/{jid}', j.new_evalN)
            if ok:
                nw = (j.N0 / s.A - j.M0 / s.Wpl[0]) / s.fy
                chk.expect(abs(n - nw) <= 1e-6 * max(1e-3, abs(nw)), f'{name}/{jid}/plastic', f'chord stress ratio {n}, expected {nw}')
            count += 1
            chk.expect(np.all(np.isfinite(got)) == np.isfinite(want) and (not np.isfinite(want) or abs(got - want) <= 1e-6 * max(1e-3, abs(want))), f'{name}/{jid}',
                       f'utilization of joint {jid} ({"K" if K else "Y"}) is {got}, EN 1993-1-8: {want}', angles=angles, n0=n0, forces=forces.tolist(), V=V)
    chk.notes['truss joints'] = f'{count} joints of generated trusses'


def run(chk):
    T = chk.tier == 'thorough'
    bases = '{' + ', '.join(tla(b) for b in BASES) + '}'
    g = chk.graph('Joints', defs=dict(
        Chords=tla(CHORDS), Braces=tla(BRACES), Angles=tla({30, 45, 60, 90}), Gaps=tla({15, 25, 40}), Grades=tla(set(GRADES)),
        Axial=tla({-700, -400, 0, 300}), Bending=tla({-300, 0, 300}), Forces=tla({-90, 0, 90, 700}), Factors=tla({0, 10, 8}),
        Bases=bases, Depth='3' if T else '2'),
        invariants=['Limited', 'StressFactor', 'WiderBetter', 'LessBetter', 'Interpolated', 'Reduced'], properties=['NoPlateForgotten'])
    chk.notes['graph'] = f'{len(g.states)} states, {g.n} transitions'
    if T:
        chk.replay(Joint, g.walks(chk.rng, 20000, 8), 'joint')
    else:
        chk.replay(Joint, g.tours(chk.rng, max_len=8, edge_budget=30000), 'joint')
    truss_joints(chk, T)
