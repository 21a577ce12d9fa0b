"""C11: building a frame model keeps members, nodes, supports and loads consistent."""
import contextlib
import io
import itertools

from common import tla

U = 0.5       # length of one coordinate unit


def N(*c):
    return list(c)


def M(a, b, nel=1, t='beam', h=(False, False)):
    return dict(a=a, b=b, nel=nel, t=t, h=list(h))


def L(k, o, v, c, dir='y', loc=False, xd=0, f=1):
    return dict(k=k, o=o, v=list(v), dir=dir, loc=loc, c=c, xd=xd, f=f)


BASE = dict(NodeP=[], MemP=[], SupP=[], LoadP=[], CaseP=[], CombP=[], MoveP=[], HingeP=[],
            Start=dict(n=0, m=0, s=0, l=0), Weigh=False, Weight=[], Readd=False)


def configs(quick):
    yield 'assembly', dict(
        NodeP=[N(0, 0), N(0, 4), N(6, 4)],
        MemP=[M(1, 2, 2, 'column'), M(3, 2, 3, 'beam', (True, False)), M(1, 3, 1, 'brace')],
        SupP=[dict(n=1, d=[0, 1, 2]), dict(n=3, d=[1])]), {}
    yield 'loads', dict(
        NodeP=[N(0, 0), N(0, 4), N(6, 4)], MemP=[M(1, 2, 2, 'column'), M(2, 3, 3)],
        SupP=[dict(n=1, d=[0, 1, 2])],
        LoadP=[L('p', 2, [3, -1, 0], 0), L('p', 3, [0, -2, 1], 0, f=2), L('p', 2, [1, 0, 0], 1),
               L('l', 2, [-6, -12], 1), L('l', 1, [2, 6], 2, 'x', True, f=3)],
        CaseP=[dict(c=1, ls=[4, 3]), dict(c=1, ls=[4]), dict(c=2, ls=[5])],
        Start=dict(n=3, m=2, s=1, l=0), Readd=True), {}
    yield 'weight', dict(
        NodeP=[N(0, 0), N(0, 4), N(6, 4)], MemP=[M(1, 2, 2, 'column'), M(2, 3, 1), M(1, 3, 1, 'bar')],
        SupP=[dict(n=1, d=[0, 1, 2])],
        LoadP=[L('p', 2, [3, -1, 0], 0), L('p', 3, [0, -2, 1], 0), L('p', 2, [1, 0, 0], 1),
               L('l', 2, [-6, -12], 100)],
        Start=dict(n=3, m=2, s=1, l=0), Weigh=True, Weight=[-8, -4, -2]), \
        dict(same_name=True)
    yield 'combinations', dict(
        NodeP=[N(0, 0), N(0, 4), N(6, 4)], MemP=[M(1, 2, 2, 'column'), M(2, 3, 1)],
        SupP=[dict(n=1, d=[0, 1, 2])],
        LoadP=[L('p', 2, [3, -1, 0], 0), L('l', 2, [-6, -12], 1), L('p', 3, [0, -2, 1], 0)],
        CombP=[dict(c=7, cs=[0]), dict(c=8, cs=[0, 100])],
        Start=dict(n=3, m=2, s=1, l=1), Weigh=True, Weight=[-8, -4]), \
        dict(same_name=True)
    yield 'geometry', dict(
        NodeP=[N(0, 0), N(0, 4), N(6, 4), N(6, 0)],
        MemP=[M(1, 2, 2, 'column'), M(3, 2, 4, 'beam', (True, False)), M(4, 3, 3, 'column'), M(2, 4, 1, 'bar')],
        SupP=[dict(n=1, d=[0, 1, 2]), dict(n=4, d=[0, 1])],
        LoadP=[L('w', 1, [4, -2], 0, 'x', xd=6), L('w', 2, [-3, 5], 0, xd=3), L('w', 3, [1, 6], 0, 'x', xd=4),
               L('w', 2, [-5, 3], 1, xd=4, f=2), L('l', 3, [3, -6], 1, 'y', True)],
        CaseP=[dict(c=1, ls=[4, 5])],
        MoveP=[dict(n=3, ax=1, v=9), dict(n=3, ax=2, v=7), dict(n=4, ax=1, v=-3), dict(n=1, ax=2, v=1),
               dict(n=3, ax=1, v=6)],
        HingeP=[dict(m=1, e=0), dict(m=1, e=1), dict(m=2, e=1), dict(m=4, e=0)],
        Start=dict(n=4, m=4, s=2, l=3)), dict(cut=True)
    yield 'hinges', dict(
        NodeP=[N(0, 0), N(4, 0), N(8, 0)], MemP=[M(1, 2, 1), M(2, 3, 2), M(3, 1, 3, 'top_chord')],
        HingeP=[dict(m=m, e=e) for m in (1, 2, 3) for e in (0, 1)],
        Start=dict(n=3, m=2, s=0, l=0)), {}
    yield 'space', dict(
        NodeP=[N(0, 0, 0), N(0, 4, 2), N(6, 4, -2)],
        MemP=[M(1, 2, 2, 'bar'), M(3, 2, 3, 'bar'), M(1, 3, 1, 'bar')],
        SupP=[dict(n=1, d=[0, 1, 2])],
        LoadP=[L('p', 2, [3, -1, 0, 0, 0, 0], 0)],
        MoveP=[dict(n=2, ax=3, v=5), dict(n=2, ax=1, v=-1)],
        Start=dict(n=0, m=1, s=0, l=0)), {}


class Fake:
    """Minimal section: what a frame member asks of it while being built."""

    def __init__(self, w):
        self.A, self.I, self.Iy, self.density, self.w = 1.0, [1.0, 1.0], 1.0, 1.0, w

    class material:
        young, nu, density, G = 1.0, 0.3, 1.0, 1.0

    def self_weight(self):
        return self.w


class Build:
    def __init__(self, cf, opt):
        from metku.raami import frame_loads as fl
        from metku.raami.frame_member import FrameMember, SteelFrameMember
        from metku.raami.frame_node import FrameNode
        from metku.raami.frame_supports import Support
        from metku.raami.raami import Raami
        import numpy as np
        self.cf, self.fl, self.Member, self.Support, self.np = cf, fl, FrameMember, Support, np
        self.Steel = SteelFrameMember
        self.opt = opt
        self.f = Raami()
        self.f.dim = len(cf['NodeP'][0])
        self.gen = False
        self.nodes = {}
        shared = None
        for i, c in enumerate(cf['NodeP'], 1):
            c = [v * U for v in c]
            if all(v == int(v) for v in c):
                c = [int(v) for v in c]
            form = i % 3
            if form == 0:          # one array reused by its creator
                shared = np.array(c)
                self.nodes[i] = FrameNode(shared)
                shared += 1
            else:
                self.nodes[i] = FrameNode(*c) if form == 1 else FrameNode(c)
        self.mems, self.sups, self.loads, self.combs = {}, {}, {}, {}
        for kind, fn in (('n', self.node), ('m', self.mem), ('s', self.sup), ('l', self.load)):
            for i in range(1, cf['Start'][kind] + 1):
                fn(i)

    # -- actions
    def node(self, i):
        self.f.add(self.nodes[i])

    def mem(self, i):
        p = self.cf['MemP'][i - 1]
        ends = [self.nodes[p['a']], self.nodes[p['b']]]
        kw = {} if not any(p['h']) else {'hinges': list(p['h'])}
        if i % 2 and not self.cf['Weigh']:
            from metku.sections.steel.RHS import RHS
            m = self.Steel(ends, RHS(100, 100, 5), mem_type=p['t'], nel=p['nel'], **kw)
        else:
            w = self.cf['Weight'][i - 1] if self.cf['Weight'] else 0
            m = self.Member(ends, Fake(-w), p['t'], nel=p['nel'], **kw)
        self.mems[i] = m
        self.f.add(m)

    def sup(self, i):
        p = self.cf['SupP'][i - 1]
        self.sups[i] = self.Support(self.nodes[p['n']], list(p['d']))
        self.f.add(self.sups[i])

    def loadobj(self, i):
        if i not in self.loads:
            p = self.cf['LoadP'][i - 1]
            kw = dict(load_id=p['c'], f=p['f'])
            if self.opt.get('same_name'):
                kw['name'] = 'Load'
            if p['k'] == 'p':
                ld = self.fl.PointLoad(self.nodes[p['o']], list(p['v']), **kw)
            elif p['k'] == 'l':
                ld = self.fl.LineLoad(self.mems[p['o']], list(p['v']), p['dir'],
                                      coord_sys='local' if p['loc'] else 'global', **kw)
            else:
                ld = self.fl.PWLineLoad(self.mems[p['o']], list(p['v']), p['xd'] / 12, p['dir'],
                                        coord_sys='local' if p['loc'] else 'global', **kw)
            self.loads[i] = ld
        return self.loads[i]

    def load(self, i):
        self.f.add(self.loadobj(i))

    def case(self, i):
        p = self.cf['CaseP'][i - 1]
        self.f.add(self.fl.LoadCase(p['c'], [self.loadobj(l) for l in p['ls']]))

    def comb(self, i):
        p = self.cf['CombP'][i - 1]
        cases = [self.f.load_cases[c] for c in p['cs']]
        if i in self.combs and [id(c) for c in self.combs[i].load_cases] == [id(c) for c in cases]:
            if len(self.f.loads) % 2:
                self.combs[i].combine_loads()
                return
        else:
            self.combs[i] = self.fl.LoadCombination(p['c'], 'ULS', cases)
        self.f.add(self.combs[i])

    def apply(self, a):
        op = a['op']
        before = len(self.f.loads)
        with contextlib.redirect_stdout(io.StringIO()):
            if op in ('node', 'mem', 'sup', 'load', 'case', 'comb'):
                getattr(self, op)(a['i'])
            elif op == 'sw':
                self.f.add_self_weight()
            elif op == 'nosw':
                self.f.remove_self_weight()
            elif op == 'gen':
                self.f.generate_fem()
            elif op == 'move':
                setattr(self.nodes[a['n']], 'xyz'[a['ax'] - 1], a['v'] * U)
            elif op == 'hinge':
                self.mems[a['m']].add_hinge(a['e'])
        if op == 'gen':
            self.gen = True
        elif op in ('node', 'mem', 'sup', 'hinge', 'nosw', 'comb'):
            self.gen = False
        elif op in ('load', 'case'):
            self.gen = self.gen and before == len(self.f.loads)
        elif op == 'sw':
            self.gen = self.gen and before == len(self.f.loads)

    # -- projection
    def token(self, ld):
        for k, o in self.loads.items():
            if o is ld:
                return k
        for k, cb in self.combs.items():
            if ld.load_id == cb.comb_id:
                for b, o in self.loads.items():
                    if type(o) is type(ld) and (o.node is ld.node if hasattr(o, 'node') else o.member is ld.member) \
                            and list(o.values if hasattr(o, 'values') else o.v) == \
                            list(ld.values if hasattr(ld, 'values') else ld.v):
                        return 1000 * k + b
                if hasattr(ld, 'member'):
                    return 1000 * k + 100 + self.key(self.mems, ld.member)
        if ld.load_id == self.fl.LoadIDs['SELF-WEIGHT'] and hasattr(ld, 'member'):
            return 100 + self.key(self.mems, ld.member)
        return -1

    @staticmethod
    def key(d, x):
        return next((k for k, v in d.items() if v is x), -1)

    def project(self):
        f = self.f
        ids = list(f.load_ids)
        names = [ld.name for ld in f.loads.values()]
        if len(set(names)) != len(names) or list(f.loads) != names:
            raise AssertionError(f'load names {list(f.loads)} / {names}')
        if set(f.load_cases) != set(ids) or any(k != c.load_id for k, c in f.load_cases.items()):
            raise AssertionError(f'load cases {list(f.load_cases)} but identifiers {ids}')
        for i, m in f.members.items():
            if m.mem_id != i or m.frame is not f:
                raise AssertionError(f'member {i} has id {m.mem_id}')
        for i, n in enumerate(f.nodes):
            if n.node_id != i:
                raise AssertionError(f'node {i} has id {n.node_id}')
        for n in self.nodes.values():
            if [m for m in n.members] != [m for m in self.mems.values() if n in m.nodes]:
                raise AssertionError('members of a node')
        reg = dict(nodes=[self.key(self.nodes, n) for n in f.nodes],
                   mems=[self.key(self.mems, m) for m in f.members.values()],
                   sups=[self.key(self.sups, s) for s in f.supports.values()],
                   ids=ids, loads=sorted(self.token(ld) for ld in f.loads.values()),
                   cases=[sorted(self.token(ld) for ld in f.load_cases[c].loads) for c in ids],
                   combs=list(f.load_combs))
        ln = []
        for m in f.members.values():
            if m.member is not None and abs(m.member.length - m.length()) > 1e-9:
                raise AssertionError('length of the design member')
            ln.append(m.length() ** 2 / U ** 2)
        return dict(reg=reg, gen=self.gen, fem=self.model() if self.gen else [], len=ln)

    def model(self):
        f, fm, np = self.f, self.f.fem, self.np
        mems = list(f.members.values())
        fem_of = [n.fem_node for n in f.nodes]

        def idx(seq, x):
            return next((i + 1 for i, y in enumerate(seq) if y is x), -1)
        chain, ends, kind, rel = [], [], [], []
        seen = []
        for m in mems:
            i = self.key(self.mems, m)
            p = self.cf['MemP'][i - 1]
            chain.append([[float(v) / U * p['nel'] for v in n.coord] for n in m.fem_nodes])
            ends.append([idx(fem_of, m.fem_nodes[0]), idx(fem_of, m.fem_nodes[-1])])
            for e, n1, n2 in itertools.zip_longest(m.fem_elements, m.fem_nodes[:-1], m.fem_nodes[1:]):
                if e is None or n1 is None or e.nodes[0] is not n1 or e.nodes[1] is not n2:
                    raise AssertionError('elements do not connect consecutive nodes')
                if idx(fm.elements, e) < 0 or idx(fm.nodes, n1) < 0 or idx(fm.nodes, n2) < 0:
                    raise AssertionError('element or node missing from the analysis model')
                if e.section is not m.cross_section:
                    raise AssertionError('section of an element')
            seen += m.fem_nodes[1:-1]
            kinds = {type(e).__name__ for e in m.fem_elements}
            kind.append(p['t'] if kinds == {'Rod' if p['t'] in ('bar', 'brace') else 'EBBeam'} else sorted(kinds))
            rel.append([sorted(e.releases) for e in m.fem_elements])
        if len({id(n) for n in seen + fem_of}) != len(seen) + len(fem_of):
            raise AssertionError('internal nodes are shared')
        sup = [dict(n=idx(fem_of, s.node), d=list(s.dof)) for s in fm.supports]
        pl, groups = [], {}
        combs = {c for c in f.load_combs}
        for ld in fm.loads:
            if ld.sid in combs:
                continue
            if hasattr(ld, 'elem'):
                for j, m in enumerate(mems, 1):
                    k = idx(m.fem_elements, ld.elem)
                    if k > 0:
                        break
                else:
                    raise AssertionError('load on an element of no member')
                if list(ld.xloc) != [0, 1]:
                    raise AssertionError('extent of a line load')
                groups.setdefault((ld.sid, j, ld.dir, ld.coords == 'local'), []).append(
                    (k, [float(q) * ld.f for q in ld.qval]))
            else:
                pl.append(dict(c=ld.sid, n=idx(fem_of, ld.node), f=[float(v) * ld.f for v in ld.v]))
        ll = []
        for (c, j, d, loc), es in groups.items():
            nel = len(mems[j - 1].fem_elements)
            if [k for k, _ in es] != [k for _ in range(len(es) // nel) for k in range(1, nel + 1)]:
                raise AssertionError(f'elements {[k for k, _ in es]} loaded')
            for r in range(0, len(es), nel):
                ll.append(dict(c=c, m=j, d=d, loc=loc, q=[q for _, q in es[r:r + nel]]))
        lc = [c.load for c in fm.loadcases.values()]
        return dict(chain=chain, ends=ends, kind=kind, rel=rel,
                    at=[[float(v) / U for v in n.coord] for n in fem_of],
                    nn=len(fm.nodes), ne=len(fm.elements), sup=sup, lc=sorted(lc), nl=len(fm.loads),
                    pl=canon(pl), ll=canon(ll))


def canon(rs):
    return sorted(rs, key=lambda r: repr([(k, flt(v)) for k, v in sorted(r.items())]))


def flt(v):
    return [flt(x) for x in v] if isinstance(v, list) else round(float(v), 6) + 0.0 if isinstance(v, (int, float)) else v


def canonise(st):
    if st['fem']:
        st['fem']['pl'] = canon(st['fem']['pl'])
        st['fem']['ll'] = canon(st['fem']['ll'])


def run(chk):
    for name, cf, opt in configs(chk.quick):
        cf = {**BASE, **cf}
        if opt.get('cut') and chk.quick:
            cf['MoveP'] = cf['MoveP'][:3]
            cf['HingeP'] = cf['HingeP'][:3]
        g = chk.graph('Building', defs={k: (tla(v)) for k, v in cf.items()},
                      invariants=['UniqueIds', 'EveryLoadInOneCase', 'OneWeightEach'], timeout=200)
        for st in g.states.values():
            canonise(st)
        chk.replay(lambda init, cf=cf, opt=opt: Build(cf, opt), g.tours(chk.rng, max_len=60,
                   edge_budget=chk.pick(2500, None)), f'Building/{name}')
        chk.replay(lambda init, cf=cf, opt=opt: Build(cf, opt), g.walks(chk.rng, chk.pick(60, 600), 30),
                   f'Building/{name}')
        chk.notes.setdefault('graphs', {})[name] = dict(states=len(g.states), transitions=g.n)
