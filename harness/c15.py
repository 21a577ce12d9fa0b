"""C15: member forces and utilisation are those of the load case and worst location."""
import contextlib
import io
import itertools
import warnings

import ec3
from common import tla

warnings.simplefilter('ignore')
KEYS = {'N': 'fx', 'V': 'fz', 'M': 'my'}
NAMES = {'N': 'N', 'V': 'Vz', 'M': 'My'}


def seqs(vals, n):
    return [list(x) for x in itertools.product(vals, repeat=n)]


def configs(quick):
    yield 'histories', dict(NE=2, NLC=3 if not quick else 2, Ns=[[-1, 2, 1], [-3, -2, -4]], Vs=[[1, -2, 0]],
                            Ms=[[2, -3, 0], [5, 4, 3]], Once=False)
    yield 'two-elements', dict(NE=2, NLC=1, Ns=seqs([-2, 0, 3], 3), Vs=[[0, 0, 0], [6, 0, 0], [0, -6, 0], [1, 2, 7]],
                               Ms=seqs([-2, 0, 1], 3) if quick else seqs([-2, 0, 1, 3], 3), Once=True)
    yield 'one-element', dict(NE=1, NLC=1, Ns=seqs([-3, -1, 0, 2], 2), Vs=[[0, 0], [5, 0], [0, -6]],
                              Ms=seqs([-4, -1, 0, 2, 3], 2), Once=True)
    yield 'three-elements', dict(NE=3, NLC=1, Ns=[[-1, -1, -1, -4], [-4, 0, 2, 1], [1, 0, 3, 2], [0, 0, -2, 0]],
                                 Vs=[[0, 0, 0, 0], [1, 0, -6, 2]], Ms=seqs([-3, 0, 2], 4), Once=True)


def profiles():
    from metku.sections.steel.CHS import CHS
    from metku.sections.steel.ISection import HEA, IPE
    from metku.sections.steel.RHS import RHS
    return [lambda: RHS(150, 100, 5), lambda: IPE(240), lambda: HEA(200), lambda: CHS(139.7, 6.3),
            lambda: RHS(200, 100, 6)]


class Member:
    turn = 0

    def __init__(self, cf):
        from metku.raami.frame_member import MemberGroup, SteelFrameMember
        from metku.raami.frame_node import FrameNode
        from metku.raami.frame_supports import FixedSupport
        from metku.raami.raami import Raami
        k = Member.turn
        Member.turn += 1
        ps = profiles()
        self.cf = cf
        self.new = ps[k % len(ps)]
        self.sway = k % 3 == 0
        self.ltb = k % 5 == 1 and k % 2 == 1        # an I-profile
        self.lcr = [[1.0, 1.0], [0.9, 0.7], [2.0, 1.0]][k % 3]
        self.allow = [1.0, 0.8][k % 2]
        f = self.f = Raami()
        n = [FrameNode(0, 0), FrameNode([6000, 0, 3000][k % 3], [0, 5000, 2500][k % 3])]
        self.m = SteelFrameMember(n, self.new(), ['beam', 'column'][k % 2], nel=cf['NE'], lcr=self.lcr, sway=self.sway)
        other = SteelFrameMember(n[::-1], self.new(), 'beam', nel=1)
        f.add(n[0])
        f.add(n[1])
        f.add(self.m)
        f.add(other)
        f.add(FixedSupport(n[0]))
        f.add(FixedSupport(n[1]))
        with contextlib.redirect_stdout(io.StringIO()):
            f.generate_fem()
        self.other = other
        self.L = self.m.length()
        self.m.allowable_utilization = self.allow
        self.m.member.LTB = self.ltb
        p = self.new()
        f = [1.0, 1.0, 3.5][k % 3]      # some members are overloaded at several locations
        self.unit = dict(N=0.15 * f * p.A * p.fy, M=0.2 * f * p.Wely * p.fy, V=0.15 * f * p.VRd)
        self.util = {}

    def val(self, k, v):
        return v * self.unit[k]

    def near(self, a, b, what, tol=1e-9):
        if not abs(a - b) <= tol * max(1.0, abs(b)):
            raise AssertionError(f'{what}: {a!r}, expected {b!r}')

    # --- checks, evaluated independently ---
    def section_checks(self, n, v, m):
        p = self.new()
        p.Ned, p.Med[0], p.Ved[1] = n, m, v
        return p.section_resistance()

    def classes(self, n, ms):
        out = set()
        for m in ms:
            p = self.new()
            p.Ned, p.Med[0] = n, m
            out.add((p.section_class(), p.MRd))
        return out

    def expected(self, o):
        """admissible (utilisation, stability ratios)"""
        U = self.unit
        secs = [(n * U['N'], v * U['V'], m * U['M']) for n, v, m in o['sections']]
        top = max(max(self.section_checks(*s)) for s in secs)
        p = self.new()
        mm, nc = o['mm'] * U['M'], o['nc'] * U['N']
        lts = [0.0]
        if self.ltb:
            from metku.structures.steel.steel_member import SteelMember
            mcr = SteelMember(self.new(), self.L).mcrit()
            lts = []
            for n, v, m in secs:
                for _, MRd in self.classes(n, [m]):
                    x = ec3.chi_lt((MRd / mcr) ** 0.5, p.imp_factor_LT, mm / mcr)
                    lts.append(mm / (x * MRd))
        out = []
        for lt in lts:
            if not o['stability']:
                out.append((max(top, lt), dict(buck_y=0.0, buck_z=0.0, bc_y=0.0, bc_z=0.0, LTB=lt)))
                continue
            (ly, Ny), (lz, Nz) = [ec3.buckling(p.A, p.fy, I, self.L * lc, al)
                                  for I, lc, al in zip(p.I, self.lcr, p.imp_factor)]
            st = dict(buck_y=-nc / Ny, buck_z=-nc / Nz, LTB=lt, bc_y=0.0, bc_z=0.0)
            if mm == 0:
                out.append((max([top, *st.values()]), st))
                continue
            cm = 0.9 if self.sway else ec3.cm_table([x * U['M'] for x in o['ends']],
                                                    *[x * U['M'] for x in o['mid']])
            for cls, MRd in self.classes(nc, [m for _, _, m in secs]):
                kyy = ec3.k_yy(-nc / Ny, ly, cm, cls)
                kzy = (0.6 if cls < 3 else 0.8) * kyy if self.ltb else 0.0
                s2 = dict(st, bc_y=-nc / Ny + kyy * mm / MRd, bc_z=-nc / Nz + kzy * mm / MRd)
                out.append((max([top, *s2.values()]), s2))
        return out

    def apply(self, a):
        op = a['op']
        m = self.m
        if op == 'analyse':
            lc = 10 * a['l']
            for i, e in enumerate(m.fem_elements):
                f = {v: [self.val(k, a['p'][k][i]), self.val(k, a['p'][k][i + 1])] for k, v in KEYS.items()}
                for c in ('fy', 'mx', 'mz'):
                    f[c] = [0.0, 0.0]
                e.fint[lc] = f
        elif op == 'collect':
            lc = 10 * a['l']
            m.calc_nodal_forces(lc)
            o = a['exp']
            for k, attr in (('N', m.NEd), ('V', m.VzEd), ('M', m.MyEd)):
                if not any(abs(attr[lc] - self.val(k, x)) <= 1e-6 for x in o['x' + k]):
                    raise AssertionError(f'design value of {k}: {attr[lc] / self.unit[k]}, expected {o["x" + k]}')
        elif op == 'design':
            lc = 10 * a['l']
            m.design(lc)
            u = m.utilization[lc]
            exp = self.expected(a['exp'])
            for eu, st in exp:
                if abs(u - eu) <= 1e-6 * max(1, eu) and \
                        all(abs(m.member.stability[k] - v) <= 1e-6 * max(1, v) for k, v in st.items()):
                    break
            else:
                raise AssertionError(f'utilisation {u} {m.member.stability}, expected {exp[:2]}')
            self.util[lc] = u
            for loc, (n, v, mo) in zip(sorted(m.member.sections), a['exp']['sections']):
                s = m.member.sections[loc]
                for key, k, x in (('N', 'N', n), ('Vz', 'V', v), ('My', 'M', mo)):
                    self.near(s[key], self.val(k, x), f'{key} of section at {loc}', 1e-6)
        elif op == 'extremes':
            L = [10 * x for x in a['L']]
            r = m.get_max_forces(L)
            for k, name in NAMES.items():
                for w in ('min', 'max'):
                    g = r[f'{w} {name}']
                    o = a['exp'][k][w]
                    self.near(g[name], self.val(k, o['v']), f'{w} {name} over {L}', 1e-6)
                    if not any(g['load_id'] == 10 * l and
                               all(abs(g[NAMES[q]] - m.nodal_forces[10 * l][NAMES[q]][i - 1]) < 1e-6 for q in NAMES)
                               for l, i in o['at']):
                        raise AssertionError(f'{w} {name} located at {g}')

    def project(self):
        col = []
        m = self.m
        for l in range(1, self.cf['NLC'] + 1):
            nf = m.nodal_forces.get(10 * l)
            if nf is None:
                col.append(dict(N=[], V=[], M=[]))
            else:
                col.append({k: [round(x / self.unit[k], 6) for x in nf[NAMES[k]]] for k in NAMES})
        if self.other.nodal_forces or self.other.utilization:
            raise AssertionError('another member has forces')
        if set(m.utilization) != set(self.util) or any(m.utilization[k] != v for k, v in self.util.items()):
            raise AssertionError(f'utilisations {m.utilization}')
        if m.resistance_check != all(u <= self.allow for u in self.util.values()):
            raise AssertionError(f'resistance check {m.resistance_check} with {self.util}')
        return dict(col=col)


class Frame:
    """A portal frame with a brace; load k acts in load case Case[k]."""

    def __init__(self, cf, sec=1, upto=1, method='REM'):
        from metku.raami import frame_loads as fl
        from metku.raami.frame_member import SteelFrameMember
        from metku.raami.frame_node import FrameNode
        from metku.raami.frame_supports import FixedSupport, XYHingedSupport
        from metku.raami.raami import Raami
        from metku.sections.steel.ISection import IPE
        from metku.sections.steel.RHS import RHS
        self.cf, self.fl, self.method = cf, fl, method
        f = self.f = Raami()
        self.n = n = [FrameNode(0, 0), FrameNode(0, 4000), FrameNode(6000, 5000), FrameNode(6000, 0)]
        for x in n:
            f.add(x)
        self.m = [SteelFrameMember(n[:2], RHS(150, 150, 6), 'column', nel=2),
                  SteelFrameMember(n[1:3], IPE(300), 'beam', nel=4, hinges=[True, False]),
                  SteelFrameMember([n[3], n[2]], RHS(120, 120, 5), 'column', nel=3, sway=True, lcr=[2.0, 1.0]),
                  SteelFrameMember([n[0], n[2]], RHS(100, 100, 5), 'brace', nel=1)]
        for m in self.m:
            f.add(m)
        f.add(FixedSupport(n[0]))
        f.add(XYHingedSupport(n[3]))
        self.alt = {1: [IPE(300), RHS(120, 120, 5)], 2: [IPE(240), RHS(150, 150, 8)]}
        self.section(sec)
        for i in range(1, upto + 1):
            self.load(i)

    def section(self, s):
        self.m[1].cross_section, self.m[2].cross_section = self.alt[s]

    def load(self, i):
        fl, l = self.fl, 7 * self.cf['Case'][i - 1]
        self.f.add([lambda: fl.LineLoad(self.m[1], [-12.0, -5.0], 'y', l), lambda: fl.PointLoad(self.n[1], [9e3, 0, 4e6], l),
                    lambda: fl.LineLoad(self.m[0], [3.0, 6.0], 'x', l), lambda: fl.PointLoad(self.n[2], [-7e3, -3e4, 0], l)][i - 1]())

    def quiet(self, fn, *a, **k):
        with contextlib.redirect_stdout(io.StringIO()):
            fn(*a, **k)

    def apply(self, a):
        op = a['op']
        if op == 'load':
            self.load(a['i'])
        elif op == 'generate':
            self.quiet(self.f.generate_fem)
        elif op == 'section':
            self.section(a['s'])
        elif op == 'analyse':
            self.quiet(self.f.structural_analysis, 'all' if a['how'] == 'all' else 7 * a['L'][0], self.method,
                       design=a['design'])
        elif op == 'design':
            self.quiet(self.f.design_members, 7 * a['l'])

    ref = {}

    def fresh(self, of, sec, by, l):
        """results of a new frame with exactly these loads and sections"""
        key = (tuple(of), sec, by, l)
        if key not in self.ref:
            f = Frame(self.cf, sec, 0)
            for i in of:
                f.load(i)
            f.quiet(f.f.generate_fem)
            f.quiet(f.f.structural_analysis, 7 * l, 'REM', design=False)
            if by:
                f.section(by)
                f.quiet(f.f.design_members, 7 * l)
            # what the members hold is what the analysis model holds, in order
            for m in f.m:
                nf = m.nodal_forces[7 * l]
                for k, v in KEYS.items():
                    ends = [e.fint[7 * l][v] for e in m.fem_elements]
                    got = nf[NAMES[k]]
                    if len(got) != len(ends) + 1 or any(
                            abs(got[j + d] - e[d]) > 1e-6 * (1 + max(map(abs, got)))
                            for j, e in enumerate(ends) for d in (0, 1)):
                        raise AssertionError(f'{k} of {m}: {got}, elements {ends}')
                for u, nd in zip(m.nodal_displacements[7 * l], m.fem_nodes):
                    if list(u) != list(nd.u[7 * l]):
                        raise AssertionError(f'displacements of {m}')
            self.ref[key] = f
        return self.ref[key]

    def project(self):
        for m in self.m:
            if m.resistance_check != all(u <= 1 for u in m.utilization.values()):
                raise AssertionError(f'resistance check of {m}')
        return self

    def agrees(self, t):
        def near(a, b, floor=1e-3):
            s = max([abs(x) for x in b] + [floor])
            return len(a) == len(b) and all(abs(x - y) <= 1e-6 * s for x, y in zip(a, b))
        for l, (r, u) in enumerate(zip(t['res'], t['ut']), 1):
            for j, m in enumerate(self.m):
                if not r['of']:
                    if 7 * l in m.nodal_forces:
                        return f'{m} has forces in load case {l}'
                else:
                    x = self.fresh(r['of'], r['sec'], 0, l).m[j]
                    for k in NAMES.values():
                        if not near(m.nodal_forces[7 * l][k], x.nodal_forces[7 * l][k], 1e3):
                            return f'{k} of {m} in load case {l}'
                    if not all(near(list(p), list(q)) for p, q in zip(m.nodal_displacements[7 * l],
                                                                     x.nodal_displacements[7 * l])):
                        return f'displacements of {m} in load case {l}'
                if not u['of']:
                    if 7 * l in m.utilization:
                        return f'{m} has a utilisation in load case {l}'
                else:
                    x = self.fresh(u['of'], u['sec'], u['by'], l).m[j]
                    if not near([m.utilization[7 * l]], [x.utilization[7 * l]]):
                        return f'utilisation of {m} in load case {l}: {m.utilization[7 * l]}, ' \
                               f'fresh frame {x.utilization[7 * l]}'
        return None


class Runs:
    """Frame compared with fresh frames (project() needs the specification's state)."""
    turn = 0

    def __init__(self, cf):
        Runs.turn += 1
        self.f = Frame(cf, method=['REM', 'ZERO'][Runs.turn % 2])

    def apply(self, a):
        self.f.apply(a)
        self.f.project()

    def compare_state(self, t):
        r = self.f.agrees(t)
        if r:
            raise AssertionError(r)

    def project(self):
        return {}


def run(chk):
    runs = [dict(Case=[1, 2, 1], Secs={1, 2}, MaxAnalyses=chk.pick(4, 5))]
    if not chk.quick:
        runs.append(dict(Case=[2, 1, 2, 1], Secs={1, 2}, MaxAnalyses=4))
    for cf in runs:
        g = chk.graph('FrameRuns', defs={k: tla(v) for k, v in cf.items()}, invariants=['OwnLoads'],
                      properties=['OnlyAsked'], timeout=300)
        paths = list(g.walks(chk.rng, chk.pick(80, 1500), 22))
        chk.replay(lambda init, cf=cf: Runs(cf), paths, f'FrameRuns/{len(cf["Case"])}')
        chk.notes.setdefault('graphs', {})[f'runs{len(cf["Case"])}'] = dict(states=len(g.states), transitions=g.n)
    for name, cf in configs(chk.quick):
        d = dict(cf, Ns={tuple(x) for x in cf['Ns']}, Vs={tuple(x) for x in cf['Vs']}, Ms={tuple(x) for x in cf['Ms']})
        g = chk.graph('MemberDesign', defs={k: tla(v) for k, v in d.items()}, invariants=['Causal', 'Mirror'],
                      timeout=300)
        chk.replay(lambda init, cf=cf: Member(cf), g.tours(chk.rng, max_len=60 if not cf['Once'] else 3,
                   edge_budget=chk.pick(2500, None)), f'MemberDesign/{name}')
        if not cf['Once']:
            chk.replay(lambda init, cf=cf: Member(cf), g.walks(chk.rng, chk.pick(60, 600), 30), f'MemberDesign/{name}')
        chk.notes.setdefault('graphs', {})[name] = dict(states=len(g.states), transitions=g.n)
