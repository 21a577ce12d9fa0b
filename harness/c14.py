"""C14: sections and materials assigned to members reach the whole model."""
import contextlib
import io

from common import tla

PROF = [None, ('RHS', 150, 100, 5), ('IPE', 200), ('RHS', 120, 120, 8), ('CHS', 139.7, 5)]
MATS = [None, 'S355', 'S420', 'S235']


def section(p):
    from metku.sections.steel.CHS import CHS
    from metku.sections.steel.ISection import IPE
    from metku.sections.steel.RHS import RHS
    k, *dims = PROF[p]
    return {'RHS': RHS, 'IPE': IPE, 'CHS': CHS}[k](*dims)


def configs(quick):
    yield 'pairs', dict(NM=4, Pair=[3, 0, 1, 0], Groups=[[1, 2], [4, 2]], Listed={1}, Secs={1, 2}, Mats={1, 2},
                        Weigh=False)
    yield 'weights', dict(NM=3, Pair=[3, 0, 1], Groups=[[2, 1]], Listed={1}, Secs={1, 2, 3} if not quick else {1, 3}, Mats={1, 2},
                          Weigh=True)
    yield 'groups', dict(NM=4, Pair=[0, 0, 0, 0], Groups=[[2, 3, 1], [3, 4]], Listed={2}, Secs={1, 4} if quick else {1, 2, 4},
                         Mats={1, 3}, Weigh=False)


class Model:
    def __init__(self, cf):
        from metku.raami.frame_member import FrameMember, MemberGroup, SteelFrameMember
        from metku.raami.frame_node import FrameNode
        from metku.raami.frame_supports import FixedSupport
        from metku.raami.raami import Raami
        self.cf = cf
        f = self.f = Raami()
        xy = [(0, 0), (0, 4000), (6000, 4000), (6000, 0)]
        n = [FrameNode(*c) for c in xy]
        for x in n:
            f.add(x)
        ends = [(0, 1), (1, 2), (3, 2), (0, 2)]
        kinds = ['column', 'beam', 'column', 'brace']
        self.m = []
        for i in range(cf['NM']):
            # members of the weighed frames have no design member
            kind = FrameMember if cf['Weigh'] else SteelFrameMember
            self.m.append(kind([n[ends[i][0]], n[ends[i][1]]], section(1), kinds[i], nel=[2, 3, 2, 1][i]))
            f.add(self.m[-1])
        f.add(FixedSupport(n[0]))
        f.add(FixedSupport(n[3]))
        if any(cf['Pair']):
            f.symmetry()
        pairs = [self.m.index(m.symmetry_pair) + 1 if m.symmetry_pair is not None else 0 for m in self.m]
        if pairs != list(cf['Pair']):
            raise AssertionError(f'symmetric pairs {pairs}')
        self.g = {}
        self.MemberGroup = MemberGroup
        self.gen = False
        self.ref = {p: section(p) for p in range(1, len(PROF))}
        from metku.materials.steel_data import Steel
        self.Steel = Steel
        self.k = 0

    def matval(self, q):
        self.k += 1
        name = MATS[q]
        return [name, int(name[1:]), self.Steel(name)][self.k % 3]

    def apply(self, a):
        op = a['op']
        if op == 'sec':
            self.m[a['m'] - 1].cross_section = section(a['p'])
        elif op == 'group':
            ms = [self.m[m - 1] for m in self.cf['Groups'][a['g'] - 1]]
            g = self.g[a['g']] = self.MemberGroup(ms) if a['listed'] else self.MemberGroup(name='B')
            if not a['listed']:
                for m in ms:
                    g.add_member(m)
        elif op == 'gsec':
            self.g[a['g']].cross_section = section(a['p'])
        elif op == 'mat':
            self.m[a['m'] - 1].material = self.matval(a['q'])
        elif op == 'gmat':
            self.g[a['g']].material = self.matval(a['q'])
        elif op == 'gen':
            with contextlib.redirect_stdout(io.StringIO()):
                self.f.generate_fem()
            self.gen = True
        elif op == 'sw':
            self.f.add_self_weight()
            self.gen = False

    def prof(self, s):
        hit = [p for p, r in self.ref.items() if type(r) is type(s) and abs(r.A - s.A) < 1e-9
               and abs(r.Iy - s.Iy) < 1e-6 * r.Iy]
        return hit[0] if hit else repr(s)

    def mat(self, mt):
        return next((q for q in range(1, len(MATS)) if abs(mt.fy - float(MATS[q][1:])) < 1e-9), repr(mt))

    def project(self):
        sec, mat, sw, el = [], [], [], []
        total = 0
        from metku.eurocodes.en1993 import constants
        for m in self.m:
            s = m.cross_section
            p = self.prof(s)
            if m.member is not None and m.member.profile is not s:
                raise AssertionError(f'design member of {m} has another section')
            if abs(s.fy - m.material.fy) > 1e-9 or \
                    m.member is not None and abs(m.member.fy() - m.material.fy) > 1e-9:
                raise AssertionError(f'{m}: yield strength')
            w = self.ref[p].A * m.length() * constants.density
            if abs(m.weight() - w) > 1e-9 * w:
                raise AssertionError(f'weight of {m}')
            total += w
            sec.append(p)
            mat.append(self.mat(m.material))
            own = [ld for ld in self.f.loads.values() if ld.load_id == 100 and ld.member is m]
            if not own:
                sw.append(0)
            else:
                hit = [q for q, r in self.ref.items() if len(own) == 1 and
                       all(abs(v * own[0].f + r.A * constants.density * 9.81) < 1e-9 for v in own[0].values)]
                sw.append(hit[0] if hit else -1)
            if self.gen:
                es = {(self.prof(e.section), self.mat(e.material)) for e in m.fem_elements}
                if any(e.section is not s for e in m.fem_elements):
                    raise AssertionError(f'elements of {m} have another section')
                el.append(list(es.pop()) if len(es) == 1 else sorted(map(list, es)))
        if abs(self.f.weight() - total) > 1e-9 * total:
            raise AssertionError('weight of the frame')
        if self.gen:
            lw = {}
            for ld in self.f.fem.loads:
                lw.setdefault(id(ld.elem), []).append(ld)
            for m, p in zip(self.m, sw):
                for e in m.fem_elements:
                    ls = lw.get(id(e), [])
                    if len(ls) != (1 if p else 0) or any(
                            abs(q + self.ref[p].A * constants.density * 9.81) > 1e-9 for ld in ls for q in ld.qval):
                        raise AssertionError(f'self-weight on the elements of {m}')
        return dict(sec=sec, mat=mat, sw=sw, gen=self.gen, el=el)


def run(chk):
    for name, cf in configs(chk.quick):
        g = chk.graph('Assign', defs={k: tla(v) for k, v in cf.items()}, invariants=['SharedAgree'],
                      properties=['OthersKept'], timeout=300)
        chk.replay(lambda init, cf=cf: Model(cf), g.tours(chk.rng, max_len=80,
                   edge_budget=chk.pick(3000, None)), f'Assign/{name}')
        chk.replay(lambda init, cf=cf: Model(cf), g.walks(chk.rng, chk.pick(60, 600), 30), f'Assign/{name}')
        chk.notes.setdefault('graphs', {})[name] = dict(states=len(g.states), transitions=g.n)
