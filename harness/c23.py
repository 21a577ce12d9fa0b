"""C23: generated roof trusses."""
import contextlib
import io
import warnings
from math import atan2, cos, pi, sin, sqrt

import numpy as np

from common import tla

warnings.simplefilter('ignore')
SHAPES = [dict(L1=10000, L2=10000, dx1=1500, dx2=1500, h1=1500, h2=2000),
          dict(L1=8000, L2=12000, dx1=1000, dx2=1700, h1=1200, h2=1800),
          dict(L1=9137.3, L2=9137.3, dx1=1234.5, dx2=1234.5, h2=2100.0, slope=3.0)]
ZONES = {'zones': ([-10.0, -4.0], [0.31]), 'fourzones': ([-12.0, -3.0, -7.0, -5.0], [0.17, 0.55, 0.8])}


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **kw)


class Roof:
    def __init__(self, init):
        from metku.raami import raami_plane_truss as rp
        from metku.raami.frame_loads import LoadIDs
        from metku.sections.steel.RHS import RHS
        warnings.simplefilter('ignore')
        self.rp, self.lid, self.RHS = rp, LoadIDs['ULS'], RHS
        self.c, g = init['c'], SHAPES[init['c']['shape'] - 1]
        self.g = dict(g)
        if not self.c['short']:
            self.g['dx1'] = self.g['dx2'] = 0
        self.t = quiet(rp.SlopedTruss, **self.g)
        self.h2 = g['h2']
        self.h1 = g['h1'] if 'h1' in g else g['h2'] - g['L1'] * np.tan(np.radians(g['slope']))
        self.st = init
        self.loads = []
        self.e = init['ecc']

    def project(self):
        return {}

    def apply(self, a):
        return quiet(getattr(self, 'do_' + a['op']), a)

    def check(self, cond, msg):
        if not cond:
            raise AssertionError(msg)

    def same(self, what, got, want, tol=1e-6):
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape or np.any(np.abs(got - want) > tol * np.maximum(1.0, np.abs(want))):
            raise AssertionError(f'{what}: {got.tolist()}, expected {want.tolist()}')

    # ------------------------------------------------------------ topology
    def do_build(self, a):
        t, c, w, R = self.t, self.c, a['truss'], self.RHS
        self.w = w
        self.prof = dict(top=R(160, 160, 6), bot=R(140, 140, 5), web=R(80, 80, 4))
        t.generate_topology(c['web'], c['n'], top_chord_profile=self.prof['top'], bottom_chord_profile=self.prof['bot'],
                            brace_profile=self.prof['web'], first_diagonal_up=c['up'], edge_verticals=c['edge'], nel_chord=3)
        L1, span = self.g['L1'], self.g['L1'] + self.g['L2']
        top, bot = t.top_nodes, t.bottom_nodes
        self.same('number of nodes', [len(top), len(bot), len(t.nodes)], [w['p'] + 1, w['q'] + 1, w['p'] + w['q'] + 2])
        self.check({id(n) for n in t.nodes} == {id(n) for n in list(top) + list(bot)}, 'the chord nodes are not the nodes of the truss')
        X, B = [n.x for n in top], [n.x for n in bot]
        for name, xs in (('top', X), ('bottom', B)):
            self.check(all(y - x > 1 for x, y in zip(xs, xs[1:])), f'{name} chord nodes not ordered from left to right: {xs}')
        self.same('ends of the top chord', [X[0], X[-1]], [0, span])
        self.same('ends of the bottom chord', [B[0], B[-1]], [self.g['dx1'], span - self.g['dx2']])
        self.same('ridge', X[w['ridge']], L1)
        rise = self.h2 - self.h1
        self.same('height of the top chord', [n.y for n in top],
                  [rise * x / L1 if x <= L1 else rise * (span - x) / (span - L1) for x in X])
        self.same('height of the bottom chord', [n.y for n in bot], [-self.h1] * len(B))
        for i, k in w['vertical']:
            self.same(f'brace {i}-{k} is vertical', X[i], B[k])
        for i, j, k in w['centred']:
            if j + 1 == k and i != w['ridge']:
                self.same(f'top node {i} in the middle of bottom nodes {j} and {k}', X[i], (B[j] + B[k]) / 2)
        if self.g['L1'] == self.g['L2']:
            self.same('mirrored top chord', X, [span - x for x in reversed(X)])
            self.same('mirrored bottom chord', B, [span - x for x in reversed(B)])
        it, ib = {id(n): i for i, n in enumerate(top)}, {id(n): i for i, n in enumerate(bot)}
        got = []
        for m in t.braces.values():
            p, q = m.nodes
            if id(p) in ib:
                p, q = q, p
            self.check(id(p) in it and id(q) in ib, 'a brace that does not connect the chords')
            got.append([it[id(p)], ib[id(q)]])
        self.check(sorted(got) == sorted(map(list, w['braces'])), f'braces {sorted(got)}, expected {sorted(w["braces"])}')
        for name, ms, idx, n in (('top', t.top_chord, it, w['p']), ('bottom', t.bottom_chord, ib, w['q'])):
            ends = [sorted(idx.get(id(v), -1) for v in m.nodes) for m in ms]
            self.check(sorted(ends) == [[i, i + 1] for i in range(n)], f'{name} chord members {ends}')
        self.check(len(t.members) == w['p'] + w['q'] + len(w['braces']), f'{len(t.members)} members')
        for m, p in [(m, 'top') for m in t.top_chord] + [(m, 'bot') for m in t.bottom_chord] + [(m, 'web') for m in t.braces.values()]:
            s = self.prof[p]
            self.same('profile', [m.cross_section.H, m.cross_section.T], [s.H, s.T])
        secs = [m.cross_section for m in t.members.values()]
        self.check(len({id(s) for s in secs}) == len(secs), 'two members share one section object')
        self.weights()

    def weights(self):
        t = self.t
        dist = lambda m: np.linalg.norm(np.asarray(m.nodes[0].coords, float) - np.asarray(m.nodes[1].coords, float))
        rho = 7850e-9
        part = [sum(dist(m) * m.cross_section.A * rho for m in ms) for ms in (t.top_chord, t.bottom_chord, t.braces.values())]
        self.same('weights of top chord, bottom chord and braces', t.weight_detailed(), part)
        self.same('weight', t.weight(), sum(part))

    # -------------------------------------------------------------- joints
    def do_join(self, a):
        t, w, rp = self.t, self.w, self.rp
        t.generate_joints()
        kinds = dict(Y=rp.TubularYJoint, K=rp.TubularKGapJoint, KT=rp.TubularKTGapJoint)
        where = {id(j.node): j for j in t.joints.values()}
        self.check(len(where) == len(t.joints), 'two joints at one node')
        for name, nodes, want in (('top', t.top_nodes, w['topj']), ('bottom', t.bottom_nodes, w['botj'])):
            for i, (n, k) in enumerate(zip(nodes, want)):
                j = where.get(id(n))
                self.check((j is None) == (k == 'none') and (j is None or type(j) is kinds[k]),
                           f'{name} node {i}: joint {type(j).__name__}, expected {k}')
                if j is None:
                    continue
                mine = [m for m in t.braces.values() if any(v is n for v in m.nodes)]
                self.check({id(m) for m in j.braces} == {id(m) for m in mine} and len(j.braces) == len(mine),
                           f'{name} node {i}: braces of the joint')
                ch = [m for m in (t.top_chord if name == 'top' else t.bottom_chord) if any(v is n for v in m.nodes)]
                self.check({id(m) for m in j.chords} == {id(m) for m in ch}, f'{name} node {i}: chords of the joint')
                self.check(j.chord == name, f'{name} node {i}: joint of the {j.chord} chord')
                for m in mine:
                    self.check((m.top_joint if name == 'top' else m.bottom_joint) is j, f'{name} node {i}: a brace does not know the joint')
                for m in ch:
                    self.check(any(x is j for x in m.joints), f'{name} node {i}: a chord member does not know the joint')
                    self.check(len(m.joints) <= 2, f'{name} chord member with {len(m.joints)} joints')
                if k == 'K':
                    far = lambda m: next(v for v in m.nodes if v is not n).x
                    self.check(far(j.left_brace) < far(j.right_brace), f'{name} node {i}: left and right brace')
        rj = where.get(id(t.top_nodes[w['ridge']]))
        if w['topj'][w['ridge']] in ('K', 'KT'):
            self.check(t.ridge_joint is rj, 'the joint at the ridge is not the ridge joint')
        else:
            self.check(t.ridge_joint is None, 'ridge joint without two braces')
        for j in t.joints.values():
            for m in j.braces:
                u, v = (np.asarray(m.nodes[i].coords, float) for i in (0, 1))
                ch = j.chords[0]
                p, q = (np.asarray(ch.nodes[i].coords, float) for i in (0, 1))
                ang = abs(np.dot(v - u, q - p)) / np.linalg.norm(v - u) / np.linalg.norm(q - p)
                self.same('angle between brace and chord', np.cos(np.radians(j.brace_angle(m))), ang)
        self.geometry()
        self.costs()

    def costs(self):
        t = self.t
        total = t.cost()
        parts = [v for m in t.members.values() for v in m.costs.values()] + [j.costs['welding'] for j in t.joints.values()]
        self.same('cost is the sum of the costs of members and joints', total, sum(parts))
        self.same('cost by kind of work', sum(t.costs.values()), total)
        kinds = {}
        for m in t.members.values():
            for k, v in m.costs.items():
                kinds[k] = kinds.get(k, 0) + v
        kinds['welding'] = kinds.get('welding', 0) + sum(j.costs['welding'] for j in t.joints.values())
        for k, v in kinds.items():
            self.same(f'cost of {k}', t.costs[k], v)
        self.check(all(v >= 0 for v in t.costs.values()), f'negative cost: {t.costs}')

    def axis(self, j):
        """Axis of the chord at a joint (unit vector) and its normal away from the braces."""
        p, q = (np.asarray(n.coords, float) for n in j.chords[0].nodes)
        v = (q - p) / np.linalg.norm(q - p)
        n = np.array([-v[1], v[0]])
        inner = np.mean([self.far(j, m) for m in j.braces], axis=0) - np.asarray(j.node.coords, float)
        return v, -n if np.dot(inner, n) > 0 else n

    @staticmethod
    def far(j, m):
        return np.asarray(next(v for v in m.nodes if v is not j.node).coords, float)

    def kjoints(self):
        return [j for j in self.t.joints.values() if isinstance(j, self.rp.TubularKGapJoint)]

    def inner_point(self, n, m):
        """Where the axis of brace m starts at node n."""
        for j in self.kjoints():
            if j.node is n and any(x is m for x in j.braces):
                return np.asarray(j.xp.coords, float)
        return np.asarray(n.coords, float)

    def geometry(self):
        """Eccentricity and gap of the K joints."""
        for j in self.kjoints():
            v, out = self.axis(j)
            node, xp, h0 = np.asarray(j.node.coords, float), np.asarray(j.xp.coords, float), j.chords[0].cross_section.H
            e = self.e * h0 / 16
            if not j.ridge:
                self.same('point where the braces of a K joint meet', xp, node + e * out, 1e-6)
            else:
                self.same('point where the braces of the ridge joint meet', xp, node + [0, e], 1e-6)
            self.same('eccentricity', j.eccentricity(), e)
            if j.ridge or len(j.chords) < 2:
                continue
            # the gap is what the braces leave free on the face of the chord
            xs = []
            for m in j.braces:
                other = next(n for n in m.nodes if n is not j.node)
                d = self.inner_point(other, m) - xp
                s = np.dot(d, v), -np.dot(d, out)               # along the chord, away from it
                depth = e + h0 / 2                              # from xp to the face
                self.check(s[1] > 0, 'brace on the wrong side of the chord')
                at = s[0] / s[1] * depth
                half = m.cross_section.H / 2 / (s[1] / sqrt(s[0] ** 2 + s[1] ** 2))
                xs.append((at, half))
            xs.sort()
            if xs[0][0] < 0 < xs[1][0] or depth <= 0:
                self.same('gap of a K joint', j.gap, xs[1][0] - xs[1][1] - xs[0][0] - xs[0][1], 1e-6)

    def do_move(self, a):
        self.e = a['e']
        for j in self.kjoints():
            j.yloc = a['e'] * j.chords[0].cross_section.H / 16
        self.geometry()

    # ------------------------------------------------------ supports, loads
    def do_hold(self, a):
        t = self.t
        t.generate_supports()
        ends = (t.top_nodes if self.c['short'] else t.bottom_nodes)
        got = {}
        for s in t.supports.values():
            got[id(s.node)] = sorted(s.dofs)
        self.check(len(t.supports) == 2 and set(got) == {id(ends[0]), id(ends[-1])}, 'the supports are not at the ends')
        self.check(len(got[id(ends[0])]) == 2 and len(got[id(ends[-1])]) == 1, f'supported degrees of freedom {list(got.values())}')

    def do_load(self, a):
        t, l = self.t, a['load']
        before = {id(x) for m in t.members.values() for x in m.loads}
        span = self.g['L1'] + self.g['L2']
        if l in ('top', 'bottom'):
            q = dict(top=-10.0, bottom=-2.0)[l]
            t.generate_uniform_load(q, chord=l, load_id=self.lid)
            chord, f = (t.top_chord if l == 'top' else t.bottom_chord), lambda x: q
            borders = []
        else:
            qs, rel = ZONES[l]
            borders = [r * span for r in rel]
            t.generate_piecewise_uniform_load(list(qs), list(borders), load_id=self.lid, ltype=l)
            chord, f = t.top_chord, lambda x: qs[sum(x > b for b in borders)]
        for m in t.members.values():
            new = [x for x in m.loads if id(x) not in before]
            x0, x1 = m.nodes[0].x, m.nodes[1].x
            for s in (0.04, 0.13, 0.24, 0.37, 0.52, 0.66, 0.79, 0.88, 0.97):
                x = x0 + s * (x1 - x0)
                if any(abs(x - b) < 2 for b in borders):
                    continue
                got = 0.0
                for ld in new:
                    if isinstance(ld, self.rp.PWLineLoad):
                        got += ld.f * (ld.values[0] if s <= ld.xdiv else ld.values[1])
                    else:
                        got += ld.f * (ld.values[0] + s * (ld.values[1] - ld.values[0]))
                    self.check(ld.direction == 'y' and ld.load_id == self.lid, 'direction or load case of the load')
                want = f(x) if any(m is k for k in chord) else 0.0
                self.same(f'{l}: load at x = {x:.0f} (member from {x0:.0f} to {x1:.0f})', got, want)
            self.check(set(map(id, new)) <= {id(x) for x in t.loads.values()}, f'{l}: a load of a member is not a load of the truss')
        self.loads.append((f, chord))

    # ---------------------------------------------------------- FE models
    def do_model(self, a):
        t = self.t
        t.generate_fem(a['model'])
        f = t.fem
        if a['model'] == 'no_eccentricity':
            self.mesh(f)
        if not self.loads:
            return
        f.linear_statics(lcase=self.lid)
        self.equilibrium(f, a['model'])

    def mesh(self, f):
        t = self.t
        at = {}
        for n in f.nodes:
            k = tuple(np.round(np.asarray(n.coord, float), 3))
            self.check(k not in at, f'two nodes at {k}')
            at[k] = n
        n_el = 0
        for m in t.members.values():
            p, q = (np.asarray(v.coords, float) for v in m.nodes)
            els = m.fem_elements
            k = 3 if m in t.top_chord or m in t.bottom_chord else 1
            self.check(len(els) == k, f'{len(els)} elements in a member')
            ends = [np.asarray(n.coord, float) for n in m.fem_nodes]
            self.same('ends of the mesh of a member', sorted(map(tuple, (ends[0], ends[-1]))), sorted(map(tuple, (p, q))))
            for e, (i, j) in zip(els, zip(m.fem_nodes, m.fem_nodes[1:])):
                self.check({id(x) for x in e.nodes} == {id(i), id(j)}, 'elements of a member are not a chain')
                self.check(e.section is m.cross_section, 'element with another section')
                self.check(e.section.A == m.cross_section.A and any(e is x for x in f.elements), 'element not in the model')
            n_el += k
        self.check(len(f.elements) == n_el, f'{len(f.elements)} elements, expected {n_el}')
        for j in t.joints.values():
            self.same('node of a joint', j.fem_nodes['xc'].coord, j.node.coords)
            self.check(any(j.fem_nodes['xc'] is n for n in f.nodes), 'node of a joint not in the model')

    def equilibrium(self, f, model):
        t, F = self.t, {}
        for e in f.elements:
            p, q = (np.asarray(n.coord, float) for n in e.nodes)
            d = (q - p) / np.linalg.norm(q - p)
            n = np.array([-d[1], d[0]])
            fi = e.fint[self.lid]
            N, V = list(fi['fx']), list(fi.get('fz', [0, 0]))
            for k, (node, s) in enumerate(zip(e.nodes, (-1, 1))):
                F.setdefault(id(node), [node, np.zeros(2)])[1] += s * N[k] * d - s * V[k] * n
        # a load that changes inside an element may be idealised as its larger value over that element
        exact = crude = 0.0
        for fn, chord in self.loads:
            for m in chord:
                # the gaps of the K joints carry load, too, in the model with eccentricity elements
                (xa, ya), (xb, yb) = (np.asarray(n.coords, float)[:2] for n in m.nodes)
                if model == 'ecc_elements':
                    free = sqrt((xb - xa) ** 2 + (yb - ya) ** 2) - sum(
                        np.linalg.norm(np.asarray(e.nodes[1].coord, float) - np.asarray(e.nodes[0].coord, float)) for e in m.fem_elements)
                    exact += free * fn((xa + xb) / 2)
                    crude += free * max(fn(xa + 1), fn(xb - 1), key=abs)
                for e in m.fem_elements:
                    pq = [np.asarray(n.coord, float) for n in e.nodes]
                    L, x = np.linalg.norm(pq[1] - pq[0]), sorted(v[0] for v in pq)
                    vals = [fn(x[0] + (k + 0.5) / 400 * (x[1] - x[0])) for k in range(400)]
                    exact += L * sum(vals) / 400
                    crude += L * max(vals, key=abs)
        ends = (t.top_nodes if self.c['short'] else t.bottom_nodes)
        held = [ends[0].fem_node, ends[-1].fem_node] if model != 'no_eccentricity' else \
            [next(n for n in f.nodes if np.linalg.norm(np.asarray(n.coord) - np.asarray(v.coords)) < 1e-6) for v in (ends[0], ends[-1])]
        big = max(abs(v).max() for _, v in F.values())
        react = 0.0
        for node, v in F.values():
            if any(node is h for h in held):
                react += v[1]
            else:
                self.check(np.all(np.abs(v) <= (1e-3 if model == 'ecc_elements' else 1e-5) * big), f'{model}: node at {node.coord} is not in equilibrium: {v.tolist()}')
        slack = 0.02 if model == 'ecc_elements' else 1e-3
        self.check(abs(exact) * (1 - slack) <= react <= abs(crude) * (1 + slack), f'{model}: reactions {react}, loads {exact} to {crude}')

    def do_clear(self, a):
        self.t.clear_fem()
        self.check(not self.t.fem.nodes and not self.t.fem.elements, 'the model is not empty')
        for m in self.t.members.values():
            self.check(not m.fem_elements and not m.fem_nodes, 'a member keeps its old mesh')
        self.weights()


def run(chk):
    T = chk.tier == 'thorough'
    g = chk.graph('Truss', defs=dict(
        Kinds=tla({'K', 'N', 'KT'}), Ns=tla({2, 3, 4} if T else {2, 3}), Models=tla({'no_eccentricity', 'en1993', 'ecc_elements'}),
        LoadSet=tla({'top', 'bottom', 'zones', 'fourzones'}), Moves=tla({0, 4, -3}), Shapes='3', MaxOps='7' if T else '6'),
        invariants=['Determinate', 'Mirrored', 'Triangulated', 'Planar', 'Held', 'Strict', 'Order'])
    chk.notes['graph'] = f'{len(g.states)} states, {g.n} transitions'
    paths = list(g.walks(chk.rng, 6000 if T else 900, 7 if T else 6))
    chk.replay(Roof, paths, 'truss')
