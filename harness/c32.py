"""C32: stability of columns in frame analysis (Stability.tla)"""
import contextlib
import io
import math

import numpy as np

from common import tla


# ------------------------------------------------- the differential equation
def basis(lam, x):
    """v, v', v'', v''' of the four homogeneous solutions at x (EI = L = 1, P = lam^2)."""
    if lam == 0:
        return np.array([[x ** 3, x ** 2, x, 1], [3 * x * x, 2 * x, 1, 0], [6 * x, 2, 0, 0], [6, 0, 0, 0]], float)
    s, c = math.sin(lam * x), math.cos(lam * x)
    return np.array([[s, c, x, 1], [lam * c, -lam * s, 1, 0], [-lam ** 2 * s, -lam ** 2 * c, 0, 0],
                     [-lam ** 3 * c, lam ** 3 * s, 0, 0]], float)


def base_rows(lam, r):
    b = basis(lam, 0)
    return [b[0], b[1] if r == -1 else b[2] - r / 2 * b[1]]


def top_functional(lam, c, t):
    """Two functionals of (v, v', v'', v''') at the top."""
    P = lam ** 2
    return {'free': [[0, 0, 1, 0], [0, P, 0, 1]], 'pin': [[1, 0, 0, 0], [0, 0, 1, 0]],
            'fix': [[1, 0, 0, 0], [0, 1, 0, 0]], 'guide': [[0, 1, 0, 0], [0, P, 0, 1]],
            'gjoint': [[0, t / 2, 1, 0], [0, P, 0, 1]], 'pjoint': [[1, 0, 0, 0], [0, t / 2, 1, 0]],
            'spring': [[0, 0, 1, 0], [-t / 2, P, 0, 1]], 'lean': [[0, 0, 1, 0], [t / 4 * P, P, 0, 1]]}[c]


def buckling(r, c, t, n, modes=2):
    def mat(lam):
        return np.array(base_rows(lam, r) + [np.array(f) @ basis(lam, 1) for f in top_functional(lam, c, t)])

    def det(lam):
        return np.linalg.det(mat(lam)) / lam ** 3

    out, a, fa = [], 0.02, det(0.02)
    while len(out) < modes:
        b = a + 0.01
        fb = det(b)
        if fa * fb < 0:
            lo, hi, flo = a, b, fa
            for _ in range(60):
                m = (lo + hi) / 2
                fm = det(m)
                if fm * flo <= 0:
                    hi = m
                else:
                    lo, flo = m, fm
            out.append((lo + hi) / 2)
        a, fa = b, fb
    res = []
    for lam in out:
        w = np.linalg.svd(mat(lam))[2][-1]
        v = np.array([basis(lam, i / n)[0] @ w for i in range(n + 1)])
        v = v / np.max(abs(v)) * 1000
        res.append(dict(b=round(lam ** 2 * 1000), tol=2 + math.ceil(3000 * (lam / n) ** 4 / 720),
                        v=[round(x) for x in v]))
    return res


def response(r, c, t, lam2, n, hn):
    """Deflections and bending moments at the nodes for h = 1 at node hn and for q = 1, times 1e5."""
    lam = math.sqrt(lam2)
    a = hn / n
    out = {}
    for name, H, Q in (('h', 1, 0), ('q', 0, 1)):
        def part(x):
            if lam == 0:
                return Q * np.array([x ** 4 / 24, x ** 3 / 6, x * x / 2, x])
            return Q * np.array([x * x / 2, x, 1, 0]) / lam2
        A, rhs = np.zeros((8, 8)), np.zeros(8)
        p0, p1 = part(0), part(1)
        b = base_rows(lam, r)
        A[0, :4], rhs[0] = b[0], -p0[0]
        A[1, :4], rhs[1] = b[1], -(p0[1] if r == -1 else p0[2] - r / 2 * p0[1])
        last = hn == n
        end = 0 if last else 4
        for i, f in enumerate(top_functional(lam, c, t)):
            A[2 + i, end:end + 4] = np.array(f) @ basis(lam, 1)
            rhs[2 + i] = -np.array(f) @ p1 - (H if last and i == 1 else 0)
        if last:
            w = np.linalg.solve(A[:4, :4], rhs[:4])
            w = np.concatenate([w, w])
        else:
            bb = basis(lam, a)
            A[4:, :4], A[4:, 4:], rhs[7] = -bb, bb, H
            w = np.linalg.solve(A, rhs)
        u, m = [], []
        for i in range(n + 1):
            x = i / n
            co = w[:4] if i <= hn else w[4:]
            y = basis(lam, x) @ co + part(x)
            u.append(round(y[0] * 1e5))
            m.append(round(y[2] * 1e5))
        out['u' + name], out['m' + name] = u, m
    return out


def fun(d):
    return ' @@ '.join(f'({tla(list(k))} :> {tla(v)})' for k, v in sorted(d.items())) if d else '<<>>'


class Shape:
    def __init__(self, name, bases, tops, eis=(16, 32), ls=(4, 8), p4s=(1, 2), p2s=(0,), hs=(1,), qs=(0,), n=5, hn=2,
                 orient='v', semi=False, reverse=False, second=True, buckles=True):
        self.__dict__.update(locals())

    def defs(self):
        keys = set()
        for b in self.bases:
            for t in self.tops:
                for ei in self.eis:
                    for l in self.ls:
                        r = {'fix': -1, 'pin': 0}.get(b['r'], 2 * b['k'] * l // ei)
                        assert b['r'] != 'joint' or r * ei == 2 * b['k'] * l
                        if r == 0 and t['c'] in ('free', 'lean', 'spring'):
                            continue
                        for p4 in self.p4s:
                            for p2 in self.p2s:
                                tt = 0
                                if t['c'] == 'spring':
                                    tt = t['s'] * l ** 3 // (2 * ei)
                                    assert tt * 2 * ei == t['s'] * l ** 3
                                elif t['c'].endswith('joint'):
                                    tt = 2 * t['s'] * l // ei
                                    assert tt * ei == 2 * t['s'] * l
                                elif t['c'] == 'lean':
                                    assert (4 * p2) % p4 == 0
                                    tt = 4 * p2 // p4
                                lam = 16 * p4 * l * l // ei
                                assert lam * ei == 16 * p4 * l * l
                                keys.add((r, t['c'], tt, max(lam, 0)))
        buck, resp = {}, {}
        for r, c, t, lam in keys:
            if (r, c, t) not in buck:
                buck[r, c, t] = buckling(r, c, t, self.n)
            if self.second:
                for lm in (0, lam):
                    if lm / 64 < 0.85 * buck[r, c, t][0]['b'] / 1000:
                        resp[(r, c, t), lm] = response(r, c, t, lm / 64, self.n, self.hn)
        rs = ' @@ '.join(f'(<<{tla(list(k))}, {lm}>> :> {tla(v)})' for (k, lm), v in sorted(resp.items())) or '<<>>'
        return dict(Bases=tla(self.bases), Tops=tla(self.tops), EIs=tla(self.eis), Ls=tla(self.ls), P4s=tla(self.p4s),
                    P2s=tla(self.p2s), Hs=tla(self.hs), Qs=tla(self.qs), Buck=fun(buck), Resp=rs,
                    Second=tla(self.second), Buckles=tla(self.buckles))


def B(n, r, k=0):
    return dict(n=n, r=r, k=k)


def T(c, s=0):
    return dict(n=c + str(s), c=c, s=s)


FIX, PIN, REL = B('fix', 'fix'), B('pin', 'pin'), B('rel', 'pin')


def shapes(quick):
    yield Shape('plain', [FIX, PIN, REL], [T('free'), T('pin'), T('fix'), T('guide')], p4s=(1, 2, 16, -1, 0),
                hs=(1, 0), qs=(-1, 2))
    yield Shape('joint', [B('k4', 'joint', 4), B('k8', 'joint', 8), FIX, B('k0', 'joint', 0)],
                [T('pin'), T('free'), T('guide')], p4s=(1, 2, 8), hs=(2, 0), qs=(-1, 1), semi=True, orient='h', hn=3)
    yield Shape('inclined', [FIX, B('k8', 'joint', 8)], [T('free')], p4s=(1, 2, -2), hs=(1, -2), qs=(0, 1),
                semi=True, orient='i', n=4, hn=4)
    yield Shape('upside', [FIX, B('k4', 'joint', 4), PIN], [T('pin'), T('guide'), T('free')], p4s=(2, 1), hs=(1, 3),
                qs=(1, 0), semi=True, orient='v', reverse=True, n=2, hn=1)
    # joints at both ends of one element
    yield Shape('twin', [FIX, B('k4', 'joint', 4), B('k8', 'joint', 8)], [T('gjoint', 4), T('guide'), T('pjoint', 8), T('gjoint', 16)],
                p4s=(1, 2, -1), hs=(0,), qs=(1, -2), semi=True, orient='h', n=1, hn=1, buckles=False)
    yield Shape('ends', [FIX, B('k4', 'joint', 4), B('k8', 'joint', 8)], [T('gjoint', 4), T('free'), T('pjoint', 8), T('gjoint', 16)],
                p4s=(1, 2, 8), hs=(1, 0), qs=(1, 0), semi=True, orient='v', n=4, hn=3)
    yield Shape('spring', [FIX, B('k8', 'joint', 8)], [T('spring', 1), T('spring', 4), T('free')], p4s=(1, 2, 8, 32),
                second=False, semi=True, orient='h')
    yield Shape('leaning', [FIX, B('k8', 'joint', 8), REL], [T('lean')], p4s=(1, 2, 8), p2s=(0, 2, 8), second=False,
                semi=True, orient='v')


class Column:
    def __init__(self, sh, init):
        import metku.frame2d.frame2d  # noqa: F401 (the package is importable in this order only)
        from metku.framefem import framefem as ff
        from metku.framefem.elements import EBBeam, EBSemiRigidBeam, Rod
        from metku.framefem.elements.springs import LinearSpring
        self.sh, self.ff = sh, ff
        self.s = dict(init)
        self.f = f = ff.FrameFEM()
        f.add_material(2, 0.3, 1)
        self.nodes = [f.add_node(*self.at(i)) for i in range(sh.n + 1)]
        self.els = []
        A = 1e6 if self.lean else 40.0
        for i in range(sh.n):
            sec = ff.BeamSection(A, self.ei / 2)
            f.add_section(sec)
            a, b = self.nodes[i], self.nodes[i + 1]
            if sh.reverse:
                a, b = b, a
            if sh.semi and i in (0, sh.n - 1):
                el = EBSemiRigidBeam(a, b, sec, f.materials[0])
            else:
                el = EBBeam(a, b, sec, f.materials[0])
            f.add_element(el)
            self.els.append(el)
        self.anchor = None
        f.add_loadcase(supp_id=1, load_id=1)
        self.spring = None
        if any(t['c'] == 'spring' for t in sh.tops):
            self.anchor = f.add_node(*self.beside(self.l))
            f.add_support(1, f.nodes.index(self.anchor), [0, 1])
            self.spring = LinearSpring(self.anchor, self.nodes[-1], 0.0)
            f.add_element(self.spring)
        if self.lean:
            foot, head = f.add_node(*self.beside(0)), f.add_node(*self.beside(self.l))
            self.leaning = [foot, head]
            rs = ff.BeamSection(1e6, 0.0)
            f.add_section(rs)
            for a, b in ((head, foot), (self.nodes[-1], head)):
                f.add_element(Rod(a, b, rs, f.materials[0]))
            f.add_support(1, f.nodes.index(foot), [0, 1])
        f.add_loadcase(supp_id=1, load_id=1)
        self.sup, self.loads = {}, []
        self.set_base()
        self.set_top()
        self.set_loads()

    lean = property(lambda self: self.sh.tops[0]['c'] == 'lean')
    ei = property(lambda self: self.sh.eis[self.s['ei'] - 1])
    l = property(lambda self: self.sh.ls[self.s['l'] - 1])

    def axes(self):
        return {'v': ((0, 1), (-1, 0)), 'h': ((1, 0), (0, 1)), 'i': ((0.6, 0.8), (-0.8, 0.6))}[self.sh.orient]

    def at(self, i, side=0.0):
        (cx, cy), (nx, ny) = self.axes()
        x = self.l * i / self.sh.n
        return round(cx * x + nx * side, 9), round(cy * x + ny * side, 9)

    def beside(self, x):
        (cx, cy), (nx, ny) = self.axes()
        return cx * x + nx * 3, cy * x + ny * 3

    def support(self, where, node, dofs):
        old = self.sup.pop(where, None)
        if old is not None:
            self.f.supports.remove(old)
        if dofs:
            self.f.add_support(1, self.f.nodes.index(node), dofs)
            self.sup[where] = self.f.supports[-1]

    def set_base(self):
        b = self.sh.bases[self.s['base'] - 1]
        self.support('base', self.nodes[0], [0, 1] if b['n'] == 'pin' else [0, 1, 2])
        rot = 5 if self.sh.reverse else 2
        self.f.add_release(0, [rot] if b['n'] == 'rel' else [])
        if self.sh.semi:
            k = b['k'] if b['r'] == 'joint' else 1e20
            self.els[0].rot_stiff[1 if self.sh.reverse else 0] = max(k, 1e-4)

    def set_top(self):
        t = self.sh.tops[self.s['top'] - 1]
        lat = 0 if self.sh.orient == 'v' else 1
        dofs = {'pin': [lat], 'fix': [lat, 2], 'guide': [2], 'gjoint': [2], 'pjoint': [lat, 2]}.get(t['c'], [])
        if t['c'] == 'fix' and self.sh.orient == 'i':
            dofs = [0, 1, 2]
        self.support('top', self.nodes[-1], dofs)
        if self.sh.semi:
            k = t['s'] if t['c'].endswith('joint') else 1e20
            self.els[-1].rot_stiff[0 if self.sh.reverse else 1] = k
        if self.spring:
            self.spring.k = t['s'] / 4

    def set_loads(self):
        for ld in self.loads:
            self.f.loads.remove(ld)
        self.loads = []
        s, sh, ff = self.s, self.sh, self.ff
        (cx, cy), (nx, ny) = self.axes()
        P, h, q = sh.p4s[s['p'] - 1] / 4, sh.hs[s['h'] - 1], sh.qs[s['q'] - 1]
        axial = self.nodes[-1]
        if P == 0:
            P = 1e-7               # a vanishing compressive force
        # the compressive force in two parts
        self.loads += [ff.PointLoad(1, axial, [-P / 2 * cx, -P / 2 * cy, 0], 1.0),
                       ff.PointLoad(1, axial, [-P * cx, -P * cy, 0], 0.5)]
        if h:
            self.loads.append(ff.PointLoad(1, self.nodes[sh.hn], [h * nx, h * ny, 0], 1.0))
        if q:
            for el in self.els:
                if sh.orient == 'v':
                    self.loads.append(ff.LineLoad(1, el, [0, 1], [-q, -q], 'x', 'global'))
                elif sh.orient == 'h' and sh.n % 2:
                    self.loads.append(ff.LineLoad(1, el, [0, 1], [q, q], 'y', 'global'))
                else:
                    self.loads.append(ff.LineLoad(1, el, [0, 1], [q / 2, q / 2], 'y', 'local'))
                    self.loads[-1].f = 2
        if self.lean and sh.p2s[s['p2'] - 1]:
            p2 = sh.p2s[s['p2'] - 1] / 4
            self.loads.append(ff.PointLoad(1, self.leaning[1], [-p2 * cx, -p2 * cy, 0], 1.0))
        for ld in self.loads:
            self.f.add_load(ld)

    def project(self):
        return self.s

    def apply(self, a):
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(self, a['op'])(a)

    def set(self, a):
        self.s[a['k']] = a['i']
        k = a['k']
        if k == 'base':
            self.set_base()
        elif k == 'top':
            self.set_top()
        elif k == 'ei':
            for el in self.els:
                el.section.I[0] = self.ei / 2
        elif k == 'l':
            for i, n in enumerate(self.nodes):
                n.x, n.y = self.at(i)
            if self.anchor is not None:
                self.anchor.x, self.anchor.y = self.beside(self.l)
            if self.lean:
                self.leaning[1].x, self.leaning[1].y = self.beside(self.l)
        else:
            self.set_loads()

    def buckle(self, a):
        self.f.nodal_dofs()
        w, modes, _ = self.f.linear_buckling(1, k=a['k'])
        w = [float(x) for x in w]
        if self.sh.p4s[self.s['p'] - 1] == 0:
            w = [x for x in w if x < 1e6]
        want = a['f'][:a['k']]
        if len(w) != len(want):
            raise AssertionError(f'{len(w)} load factors {w}, specified {[x["al"] / 1e5 for x in want]}')
        nx, ny = self.axes()[1]
        for j, (got, x) in enumerate(zip(w, want)):
            r = 0.6 / x['b']            # rounding of the table
            lo, hi = x['al'] / 1e5 * (0.998 - r) - 2e-5, x['al'] / 1e5 * (1 + r + x['tol'] / 1000) + 2e-5
            if not lo <= got <= hi:
                raise AssertionError(f'load factor {j + 1}: {got}, specified {x["al"] / 1e5}')
            v = np.array([float(n.v[j][0]) * nx + float(n.v[j][1]) * ny for n in self.nodes])
            big = max(abs(v))
            if big == 0:
                raise AssertionError(f'mode {j + 1} has no deflection')
            v = v / big * 1000
            ex = np.array(x['v'], float)
            tol = 15 + 4 * x['tol']
            if min(max(abs(v - ex)), max(abs(v + ex))) > tol:
                raise AssertionError(f'mode {j + 1}: {v.round()}, specified {x["v"]} up to sign')

    def second(self, a):
        sh, s = self.sh, self.s
        self.f.nodal_dofs()
        self.f.second_order_analysis(1, support_method=a['m'])
        nx, ny = self.axes()[1]
        h, q = abs(sh.hs[s['h'] - 1]), abs(sh.qs[s['q'] - 1])
        tu = 3 + (h * self.l ** 3 + q * self.l ** 4) / self.ei
        tm = 3 + h * self.l + q * self.l ** 2
        rel = 1e-4
        if sh.bases[s['base'] - 1]['n'] == 'k0':
            # the artificial stiffness 1e-4 of a hinge leaves a small moment
            rel, tm = 1e-3, tm + 10000
        for i, n in enumerate(self.nodes):
            u = float(n.u2[1][0]) * nx + float(n.u2[1][1]) * ny
            if not abs(u * 1e5 - a['u'][i]) <= tu + rel * abs(a['u'][i]):
                raise AssertionError(f'second-order deflection of node {i}: {u}, specified {a["u"][i] / 1e5}')
        for e, el in enumerate(self.els):
            my = [float(x) for x in el.fint2[1]['my']]
            if sh.reverse:
                my = [-my[1], -my[0]]
            for j in (0, 1):
                if not abs(my[j] * 1e5 - a['mo'][e + j]) <= tm + rel * abs(a['mo'][e + j]):
                    raise AssertionError(f'second-order moment of element {e} end {j}: {my[j]}, '
                                         f'specified {a["mo"][e + j] / 1e5}')


def run(chk):
    for sh in shapes(chk.quick):
        g = chk.graph('Stability', defs=sh.defs(), invariants=['Ordered', 'Larger', 'Stiffer'])
        chk.replay(lambda init, sh=sh: Column(sh, init), g.tours(chk.rng, max_len=60, edge_budget=chk.pick(2500, None)),
                   f'Stability/{sh.name}')
        chk.replay(lambda init, sh=sh: Column(sh, init), g.walks(chk.rng, chk.pick(40, 400), 40),
                   f'Stability/{sh.name}')
