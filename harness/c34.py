"""C34: plane frames of package frame2d."""
import contextlib
import io
import warnings

import numpy as np

from common import tla

warnings.simplefilter('ignore')
warnings.filterwarnings('ignore')

U = 100.0                                            # unit of length, mm
E = 210000.0
SEMI = (2e9, 6e9)                                   # rotational stiffness of semi-rigid joints, Nmm/rad


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **kw)


def section(name):
    from metku.sections.steel.ISection import HEA, HEB, IPE
    w = name.split()
    if w[0] == 'IPE':
        return quiet(IPE, int(w[1]), 355)
    return quiet(dict(A=HEA, B=HEB)[w[2]], int(w[1]), 355)


class Scene:
    def __init__(self, name, mem, sup, pts, lns, profs, joints=False):
        self.name, self.mem, self.sup, self.pts, self.lns, self.profs, self.joints = name, mem, sup, pts, lns, profs, joints

    drop = False                                      # every load can be deleted, not the first ones only

    def defs(self):
        seq = lambda rows: '<<' + ', '.join(tla(r) for r in rows) + '>>'
        ids = {p['id'] for p in self.pts} | {n['id'] for n in self.lns} | {'ULS'}
        mem = [dict(a=m['a'], b=m['b'], div=m['div'], kind=m['kind'], hin=m['hin']) for m in self.mem]
        return dict(Mem=seq(mem), Sup=seq(self.sup), Pts=seq(self.pts), Lns=seq(self.lns),
                    Ids='{' + ', '.join(f'"{i}"' for i in sorted(ids)) + '}', Profs=str(len(self.profs)), Drop='1..9' if self.drop else '{1}', Joints='{"rigid", "hinged", "semi"}' if self.joints else '{}')


def member(a, b, div, kind, prof, hin=(False, False)):
    return dict(a=list(a), b=list(b), div=div, kind=kind, prof=prof, hin=list(hin))


def scenes(quick):
    P = lambda at, f, id='ULS', late=False, f10=10: dict(at=list(at), f=list(f), id=id, late=late, f10=f10)
    L = lambda m, q, d, id='ULS', f10=10: dict(m=m, q=list(q), dir=d, id=id, f10=f10)
    S = lambda at, dofs: dict(at=list(at), dofs=list(dofs))
    out = [
        Scene('portal', [member((0, 0), (0, 40), 2, 'column', 'HE 200 A'), member((0, 40), (60, 40), 4, 'beam', 'IPE 300'),
                         member((60, 0), (60, 40), 2, 'column', 'HE 180 B')],
              [S((0, 0), (0, 1, 2)), S((60, 0), (0, 1))],
              [P((0, 40), (9000, 0, 0), 'SLS_Frequent', True), P((24, 40), (0, -15000, 0), f10=15)],
              [L(2, (-8, -20), 'y', 'ULS', 15)], ['HE 200 A', 'HE 240 A'], True),
        Scene('beam', [member((0, 0), (80, 0), 2, 'beam', 'IPE 240')],
              [S((0, 0), (0, 1)), S((20, 0), (1,)), S((80, 0), (1,))],
              [P((50, 0), (2000, -9000, 400000)), P((40, 0), (0, 0, 3000000), 'Accidental', True)],
              [L(1, (-4, -18), 'y'), L(1, (6, 2), 'y', 'Accidental', 5)], ['IPE 240', 'IPE 200'], True),
        Scene('tee', [member((0, 0), (80, 20), 2, 'beam', 'IPE 300'), member((40, -30), (40, 10), 1, 'column', 'HE 160 A')],
              [S((0, 0), (0, 1)), S((80, 20), (0, 1)), S((40, -30), (0, 1, 2))],
              [P((60, 15), (1000, -7000, 0)), P((40, -10), (4000, 0, 0), 'Accidental')],
              [L(1, (-5, -12), 'y'), L(2, (3, 3), 'x', 'Accidental', 20)], ['IPE 300', 'IPE 400']),
        Scene('cross', [member((0, 0), (60, 60), 2, 'other', 'HE 160 B', (True, False)), member((60, 0), (0, 60), 4, 'other', 'HE 140 A', (True, False))],
              [S((0, 0), (0, 1, 2)), S((60, 0), (0, 1, 2))],
              [P((0, 60), (5000, -3000, 0), 'ULS', True), P((60, 60), (-2000, -4000, 1000000), 'Accidental', True), P((12, 48), (0, -6000, 0))],
              [L(1, (2, -6), 'y', 'ULS', 10)], ['HE 160 B', 'HE 200 B']),
    ]
    out.append(Scene('tower', [member((0, 0), (0, 40), 2, 'column', 'HE 160 B'), member((0, 40), (0, 80), 2, 'column', 'HE 140 A'),
                               member((0, 40), (50, 40), 2, 'beam', 'IPE 270'), member((50, 40), (100, 40), 2, 'beam', 'IPE 240')],
                     [S((0, 0), (0, 1, 2)), S((70, 40), (1,)), S((100, 40), (0, 1))],
                     [P((0, 12), (3000, -1000, 0), 'ULS', False, 12), P((0, 64), (2000, 0, 0), 'Accidental'), P((20, 40), (0, -5000, 0))],
                     [L(2, (1, 3), 'x', 'ULS', 12)], ['HE 160 B', 'HE 180 B'], True))
    out.append(Scene('braced', [member((0, 0), (0, 40), 1, 'column', 'HE 160 B'), member((0, 40), (50, 40), 2, 'beam', 'IPE 270'),
                                member((50, 0), (50, 40), 1, 'column', 'HE 140 A'), member((0, 0), (50, 40), 1, 'other', 'HE 100 B', (True, True))],
                     [S((0, 0), (0, 1)), S((50, 0), (0, 1))],
                     [P((50, 40), (12000, -3000, 0), 'Accidental', True, 5), P((20, 40), (0, -9000, 0), 'ULS')],
                     [L(2, (-3, -9), 'y', 'ULS', 12)], ['HE 160 B', 'HE 180 B'], True))
    if not quick:
        out.append(Scene('house', [member((0, 0), (0, 40), 2, 'column', 'HE 200 A'), member((0, 40), (40, 50), 2, 'beam', 'IPE 300'),
                                   member((80, 40), (40, 50), 2, 'beam', 'IPE 300'), member((80, 0), (80, 40), 2, 'column', 'HE 200 A')],
                         [S((0, 0), (0, 1)), S((80, 0), (0, 1))],
                         [P((20, 45), (0, -8000, 0)), P((40, 50), (6000, 0, 0), 'Accidental', True)],
                         [L(2, (-6, -9), 'y'), L(3, (-9, -6), 'y', 'Accidental', 15)], ['HE 200 A', 'HE 260 A']))
    return out


class Solver:
    """Direct stiffness of Euler-Bernoulli members between the nodes of the specification."""

    def __init__(self, sc, a):
        self.sc, self.a = sc, a
        self.node, self.extra = {}, 0
        for ch in a['chains']:
            for p in ch:
                self.node.setdefault(tuple(p), len(self.node))
        self.nd = 3 * len(self.node)
        self.build()

    def elements(self):
        for m, ch in enumerate(self.a['chains']):
            M = self.sc.mem[m]
            prof = self.sc.profs[self.a['prof'] - 1] if m == 0 else M['prof']
            s = section(prof)
            k = len(ch) - 1
            for i in range(k):
                rel = [None, None]
                if M['kind'] == 'other':
                    rel = [0.0 if i == 0 and M['hin'][0] else None, 0.0 if i == k - 1 and M['hin'][1] else None]
                elif M['kind'] == 'beam' and self.a['jt'] == 'hinged':
                    rel = [1e-4 if i == 0 else None, 1e-4 if i == k - 1 else None]
                elif M['kind'] == 'beam' and self.a['jt'] == 'semi':
                    rel = [SEMI[0] if i == 0 else None, SEMI[1] if i == k - 1 else None]
                yield m, i, ch[i], ch[i + 1], float(s.A), float(s.I[0]), rel

    def build(self):
        self.rigid = set()                            # nodes with a member rigidly joined to them
        els = list(self.elements())
        n = self.nd + sum(r is not None for e in els for r in e[6])
        K, F = np.zeros((n, n)), np.zeros(n)
        nxt = self.nd
        self.el = {}
        w0 = {}
        if self.a['self']:
            for m, M in enumerate(self.sc.mem):
                prof = self.sc.profs[self.a['self'] - 1] if m == 0 else M['prof']
                w0[m] = -10 * 7850e-9 * float(section(prof).A)
        for m, i, p, q, A, I, rel in els:
            x0, x1 = np.array(p) * U, np.array(q) * U
            L = np.hypot(*(x1 - x0))
            c, s = (x1 - x0) / L
            a, b = self.node[tuple(p)], self.node[tuple(q)]
            dof = [3 * a, 3 * a + 1, 3 * a + 2, 3 * b, 3 * b + 1, 3 * b + 2]
            for end in (0, 1):
                if rel[end] is None or rel[end] > 1:
                    self.rigid.add(tuple((p, q)[end]))
                if rel[end] is not None:
                    r, kk = dof[3 * end + 2], rel[end]
                    dof[3 * end + 2] = nxt
                    for u, v, g in ((r, r, kk), (nxt, nxt, kk), (r, nxt, -kk), (nxt, r, -kk)):
                        K[u, v] += g
                    nxt += 1
            ea, ei = E * A / L, E * I
            k = np.zeros((6, 6))
            k[np.ix_([0, 3], [0, 3])] = [[ea, -ea], [-ea, ea]]
            k[np.ix_([1, 2, 4, 5], [1, 2, 4, 5])] = ei / L ** 3 * np.array(
                [[12, 6 * L, -12, 6 * L], [6 * L, 4 * L * L, -6 * L, 2 * L * L], [-12, -6 * L, 12, -6 * L], [6 * L, 2 * L * L, -6 * L, 4 * L * L]])
            T = np.zeros((6, 6))
            T[:2, :2] = T[3:5, 3:5] = [[c, s], [-s, c]]
            T[2, 2] = T[5, 5] = 1
            K[np.ix_(dof, dof)] += T.T @ k @ T
            f = np.zeros(6)
            gl = np.zeros((2, 2))                     # load at the ends, global
            for ld in self.a['loads']:
                if ld['m'] == m + 1:
                    d = 0 if ld['dir'] == 'x' else 1
                    gl[0, d] += ld['q'][i] / ld['unit']
                    gl[1, d] += ld['q'][i + 1] / ld['unit']
            if m in w0:
                gl[:, 1] += w0[m]
            loc = gl @ np.array([[c, s], [-s, c]]).T
            (n1, v1), (n2, v2) = loc
            f[0] += L * (2 * n1 + n2) / 6
            f[3] += L * (n1 + 2 * n2) / 6
            f[1] += L * (7 * v1 + 3 * v2) / 20
            f[4] += L * (3 * v1 + 7 * v2) / 20
            f[2] += L * L * (3 * v1 + 2 * v2) / 60
            f[5] -= L * L * (2 * v1 + 3 * v2) / 60
            F[dof] += T.T @ f
            self.el[m, i] = (dof, k, T, f)
        for p, fv in zip(self.sc.pts, self.a['forces']):
            if any(fv):
                a = self.node[tuple(p['at'])]
                F[3 * a:3 * a + 3] += np.array(fv) / 10
        fixed = [3 * self.node[tuple(s['at'])] + d for s in self.sc.sup for d in s['dofs']]
        free = [d for d in range(n) if d not in fixed]
        self.u = np.zeros(n)
        self.u[free] = np.linalg.solve(K[np.ix_(free, free)], F[free])
        self.scale = max(1e-6, abs(self.u[:self.nd]).max())

    def disp(self, p):
        a = self.node[tuple(p)]
        return self.u[3 * a:3 * a + 3]

    def ends(self, m, i):
        dof, k, T, f = self.el[m, i]
        return k @ T @ self.u[dof] - f


class Frame:
    def __init__(self, sc, init):
        from metku.frame2d import frame2d as f2
        self.f2, self.sc = f2, sc
        self.st = {k: (sorted(v) if isinstance(v, list) else v) for k, v in init.items()}
        self.f = quiet(f2.Frame2D)
        mk = dict(beam=f2.SteelBeam, column=f2.SteelColumn, other=f2.SteelFrameMember)
        self.m = []
        for i, M in enumerate(sc.mem):
            ends = [[x * U for x in M['a']], [x * U for x in M['b']]]
            prof = sc.profs[0] if i == 0 else M['prof']
            m = quiet(mk[M['kind']], ends, profile=prof, num_elements=M['div'])
            for e in (0, 1):
                if M['hin'][e]:
                    m.add_hinge(e)
            self.m.append(m)
        self.prof, self.jt, self.sw, self.ld = 1, '', 0, {}
        self.added = dict(mem=set(), sup=set(), pts=set(), lns=set())
        self.gen = False
        self.g = dict(pts=set(), lns=set(), sw=0)

    def project(self):
        f = self.f
        if len(f.members) != len(self.added['mem']) or len(f.supports) != len(self.added['sup']) or len(f.point_loads) != len(self.added['pts']):
            raise AssertionError(f'frame has {len(f.members)} members, {len(f.supports)} supports and {len(f.point_loads)} point loads')
        lines = len(self.added['lns']) + (len(self.m) if self.sw else 0)
        if len(f.line_loads) != lines:
            raise AssertionError(f'frame has {len(f.line_loads)} line loads instead of {lines}')
        out = {k: sorted(v) for k, v in self.added.items()}
        out.update(sw=self.sw, prof=self.prof, jt=self.jt, gen=bool(f.is_generated),
                   g=dict(pts=sorted(self.g['pts']), lns=sorted(self.g['lns']), sw=self.g['sw']))
        return out

    def lid(self, name):
        return getattr(self.f2.LoadIDs, name)

    def apply(self, a):
        quiet(getattr(self, a['op']), a)

    def member(self, a):
        self.f.add(self.m[a['i'] - 1])
        self.added['mem'].add(a['i'])

    def support(self, a):
        s = self.sc.sup[a['i'] - 1]
        at = [x * U for x in s['at']]
        kind = {(0, 1, 2): self.f2.FixedSupport, (0, 1): self.f2.XYHingedSupport, (0,): self.f2.XHingedSupport, (1,): self.f2.YHingedSupport}
        self.f.add(kind[tuple(s['dofs'])](at))
        self.added['sup'].add(a['i'])

    def point(self, a):
        p = self.sc.pts[a['i'] - 1]
        self.ld['p', a['i']] = self.f2.PointLoad([x * U for x in p['at']], list(p['f']), load_id=self.lid(p['id']), f=p['f10'] / 10)
        self.f.add(self.ld['p', a['i']])
        self.added['pts'].add(a['i'])

    def line(self, a):
        n = self.sc.lns[a['i'] - 1]
        self.ld['l', a['i']] = self.f2.LineLoad(self.m[n['m'] - 1], [float(q) for q in n['q']], n['dir'], load_id=self.lid(n['id']), f=n['f10'] / 10)
        self.f.add(self.ld['l', a['i']])
        self.added['lns'].add(a['i'])

    def unpoint(self, a):
        del self.f.point_loads[self.ld['p', a['i']].name]
        self.added['pts'].remove(a['i'])

    def unline(self, a):
        del self.f.line_loads[self.ld['l', a['i']].name]
        self.added['lns'].remove(a['i'])

    def renew(self):
        self.gen = True
        self.g = dict(pts=set(self.added['pts']), lns=set(self.added['lns']), sw=self.sw)

    def generate(self, a):
        self.f.generate(self_weight=a['self'])
        if a['self']:
            self.sw = self.prof
        self.renew()
        self.mesh(a['chains'])

    def selfweight(self, a):
        self.f.add_self_weight()
        self.sw = self.prof

    def noweight(self, a):
        self.f.remove_self_weight()
        self.sw = 0
        if self.gen:
            self.renew()

    def profile(self, a):
        self.prof = a['i']
        self.m[0].profile = self.sc.profs[self.prof - 1]

    def joints(self, a):
        self.jt = a['j']
        if a['j'] == 'semi':
            for m, M in zip(self.m, self.sc.mem):
                if M['kind'] == 'beam':
                    m.Sj1, m.Sj2 = SEMI
        else:
            (self.f.rigid_joints if a['j'] == 'rigid' else self.f.hinge_joints)()

    def mesh(self, chains):
        fem = self.f.f
        seen = {}
        for n in fem.nodes:
            seen.setdefault(tuple(round(float(x), 3) for x in n.coord), []).append(n)
        for p, ns in seen.items():
            if len(ns) > 1:
                raise AssertionError(f'{len(ns)} nodes at {p}')
        count = 0
        for m, ch in zip(self.m, chains):
            at = [tuple(round(float(x), 3) for x in n.coord) for n in m.nodes.values()]
            want = [tuple(x * U for x in p) for p in ch]
            if [p for p in at if p in want] != want:
                raise AssertionError(f'nodes of {m}: {at} lack some of {want}')
            a, b = np.array(m.coordinates)
            d = [float(np.dot(np.array(p) - a, b - a)) for p in at]
            off = [abs(float((np.array(p) - a)[0] * (b - a)[1] - (np.array(p) - a)[1] * (b - a)[0])) / m.length for p in at]
            if d != sorted(d) or max(off) > 0.01 or d[0] < -1 or d[-1] > m.length ** 2 + 1:
                raise AssertionError(f'nodes of {m} are not in order along it: {at}')
            els = list(m.elements.values())
            pairs = [(e.nodes[0], e.nodes[1]) for e in els]
            nodes = list(m.nodes.values())
            if len(pairs) != len(nodes) - 1 or any(x is not y or z is not w for (x, z), (y, w) in zip(pairs, zip(nodes, nodes[1:]))):
                raise AssertionError(f'elements of {m} do not join its nodes')
            count += len(els)
        if count != len(fem.elements):
            raise AssertionError(f'{len(fem.elements)} elements instead of {count}')

    def calculate(self, a):
        lid = self.lid(a['id'])
        self.mesh(a['chains'])
        S = Solver(self.sc, a)
        for method in ('REM', 'ZERO'):
            self.f.calculate(lid, method)
            for n in self.f.f.nodes:
                p = tuple(int(round(float(x) / U)) if abs(float(x) / U - round(float(x) / U)) < 1e-6 else None for x in n.coord)
                if p in S.node:
                    got, want = np.array([float(x) for x in n.u[lid]]), S.disp(p)
                    if abs(got - want)[:2].max() > 1e-5 * S.scale or p in S.rigid and abs(got - want)[2] > 1e-8 * S.scale:
                        raise AssertionError(f'displacements at {p}: {got} instead of {want} ({a["id"]}, {method})')
            self.forces(a, S, lid)

    def forces(self, a, S, lid):
        big = max(abs(S.ends(m, i)).reshape(2, 3)[:, j].max() for m, i in S.el for j in (0, 1)) or 1.0
        bigm = max([abs(S.ends(m, i))[[2, 5]].max() for m, i in S.el] + [10 * big])
        for k, m in enumerate(self.m):
            ch = a['chains'][k]
            els = list(m.elements.values())
            at = [tuple(round(float(x), 3) for x in n.coord) for n in m.nodes.values()]
            want = [tuple(x * U for x in p) for p in ch]
            N, V, M = [], [], []
            for i in range(len(ch) - 1):
                q = S.ends(k, i)
                first, last = els[at.index(want[i])], els[at.index(want[i + 1]) - 1]
                for e, j, s in ((first, 0, q[:3]), (last, 1, q[3:])):
                    f = e.fint[lid]
                    got = [float(f['fx'][j]), abs(float(f['fz'][j])), abs(float(f['my'][j]))]
                    ref = [-s[0] if j == 0 else s[0], abs(s[1]), abs(s[2])]
                    if max(abs(got[0] - ref[0]), abs(got[1] - ref[1])) > 1e-5 * big or abs(got[2] - ref[2]) > 1e-5 * bigm:
                        raise AssertionError(f'forces of {m} at node {i + j}: {got} instead of {ref} ({a["id"]})')
                    if not (i > 0 and j == 0):
                        N.append(abs(ref[0])), V.append(ref[1]), M.append(ref[2])
            if len(at) == len(want):
                for n, v, t in (('NEd', N, big), ('VEd', V, big), ('MEd', M, bigm)):
                    got = abs(float(getattr(m, n)[lid]))
                    if abs(got - max(v)) > 1e-5 * t:
                        raise AssertionError(f'{n} of {m} is {got} instead of {max(v)}')
            self.utilisation(m, lid)

    def utilisation(self, m, lid):
        """The utilisation kept for every analysed load case is that of the forces of the load case."""
        from metku.structures.steel.steel_member import SteelMember
        s = SteelMember(m.cross_section, m.length, Lcr=[1.0, 1.0], mtype=m.mtype)
        els = list(m.elements.values())
        for e, loc in zip(els, m.locs):
            s.add_section(ned=e.fint[lid]['fx'][0], vzed=e.fint[lid]['fz'][0], myed=e.fint[lid]['my'][0], loc=loc)
        e = els[-1]
        s.add_section(ned=e.fint[lid]['fx'][1], vzed=e.fint[lid]['fz'][1], myed=e.fint[lid]['my'][1], loc=m.locs[-1])
        want = s.design()
        for _ in range(2):
            got = float(m.r[lid])
            if abs(got - want) > 1e-6 * max(1, want):
                raise AssertionError(f'utilisation of {m} for {lid} is {got} instead of {want}')
            if m.is_strong_enough != (want <= 1.0):
                raise AssertionError(f'{m} with utilisation {want} is taken to be strong enough: {m.is_strong_enough}')
            m.design(lid)


def optimise(sc, scale):
    """Sizing: every member is adequate in every load case, and no smaller profile was."""
    from metku.sections.steel.catalogue import ipe_profiles, h_profiles
    init = dict(mem=[], sup=[], pts=[], lns=[], sw=0, prof=1, jt='', gen=False, g=dict(pts=[], lns=[], sw=0))
    fr = Frame(sc, init)
    for op, n in (('member', len(sc.mem)), ('support', len(sc.sup)), ('point', len(sc.pts)), ('line', len(sc.lns))):
        for i in range(n):
            fr.apply(dict(op=op, i=i + 1))
    f = fr.f
    for p in f.point_loads.values():
        p.v = p.v * scale
    quiet(f.generate)
    quiet(f.optimize_members)
    quiet(f.calculate, 'all', 'REM')
    for m in f.members.values():
        names = list(ipe_profiles.keys() if m.profile.startswith('IPE') else h_profiles.keys())
        r = {k: float(v) for k, v in m.r.items()}
        if set(r) != set(f.load_ids):
            raise AssertionError(f'{m} was sized for {set(r)} of {f.load_ids}')
        if max(r.values()) > 1.0:
            raise AssertionError(f'{m} with {m.profile} has utilisations {r}')
        mine = m.profile
        for other in names[:names.index(mine)] if mine in names else ():
            quiet(setattr, m, 'profile', other)
            worst = 0.0
            for k in f.load_ids:
                quiet(m.design, k)
                worst = max(worst, float(m.r[k]))
            if worst > 1.0:
                continue
            quiet(f.calculate, 'all', 'REM')          # forces change with the profile
            if max(float(m.r[k]) for k in f.load_ids) <= 1.0:
                raise AssertionError(f'{m} got {mine} although {other} with utilisation {worst} comes first')
        quiet(setattr, m, 'profile', mine)
        quiet(f.calculate, 'all', 'REM')


def run(chk):
    import metku.frame2d.frame2d  # noqa: F401
    warnings.simplefilter('ignore')
    for sc in scenes(chk.quick):
        sc.drop = not chk.quick and sc.name in ('beam', 'tee')
        g = chk.graph('Frame2D', defs=sc.defs(), invariants=['Meshed', 'Held', 'Ends', 'Sound'])
        chk.replay(lambda init, sc=sc: Frame(sc, init), g.walks(chk.rng, chk.pick(30, 300), chk.pick(30, 60)), f'Frame2D/{sc.name}')
        chk.replay(lambda init, sc=sc: Frame(sc, init), g.tours(chk.rng, max_len=80, edge_budget=chk.pick(700, 6000)), f'Frame2D/{sc.name}')
    jobs = [(0, 0.5, 'IPE 600'), (0, 0.3, 'HE 300 B'), (1, 1.0, 'IPE 240')]
    if not chk.quick:
        jobs += [(i, f, p) for i in (0, 1, 2, 3, 5) for f in (0.5, 1.0, 10.0) for p in ('IPE 80', 'IPE 600', 'HE 300 B', 'HE 600 A')]
    for i, f, p in jobs:
        sc = scenes(True)[i]
        sc.profs[0] = p
        chk.guard(f'Frame2D/{sc.name}/sizing', optimise, sc, f)
