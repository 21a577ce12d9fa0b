"""C12: load combinations carry the right factor for every load."""
import contextlib
import io

from common import tla

ALL = {'DEAD', 'LIVE', 'SNOW', 'WIND'}
KINDS = 'plwLx'
SPELL = {'DEAD': 'dead', 'LIVE': 'Live', 'SNOW': 'snow', 'WIND': 'WIND'}


def Ld(k, c, *f):
    return dict(k=k, c=c, f=list(f) or [1])


def C(t, i, *cs):
    return dict(t=t, id=i, cs=list(cs))


def configs(quick):
    yield 'categories', dict(
        Cats=[ALL, ALL, ALL],
        LoadP=[Ld('p', 1, 2), Ld('l', 2), Ld('w', 2, -3), Ld('L', 3), Ld('x', 3, 2)],
        CombP=[C('ULS', 10, 1, 2, 3), C('SLS', 11, 3, 2, 1), C('ULS', 12, 2, 3), C('SLS', 13, 1, 3), C('ULS', 14, 3)]
        + ([] if quick else [C('SLS', 15, 2, 1), C('ULS', 16, 3, 1, 2)]),
        Start=5, Again=False)
    yield 'history', dict(
        Cats=[{'SNOW'}, {'DEAD'}, {'WIND', 'LIVE'}],
        LoadP=[Ld('l', 2, 1, 2), Ld('p', 1, 1, -2), Ld('w', 3, 3), Ld('p', 3)],
        CombP=[C('ULS', 10, 1, 2, 3), C('SLS', 11, 3, 1)], Start=1, Again=True)
    yield 'history2', dict(
        Cats=[{'DEAD'}, {'LIVE', 'SNOW'}, {'DEAD', 'WIND'}],
        LoadP=[Ld('x', 1), Ld('l', 2, 1, 3), Ld('L', 3)],
        CombP=[C('ULS', 10, 3, 2, 1), C('ULS', 11, 1, 2), C('SLS', 12, 2, 3, 1)], Start=0, Again=True)


class Comb:
    def __init__(self, cf, init):
        from metku.raami import frame_loads as fl
        from metku.raami.frame_member import SteelFrameMember
        from metku.raami.frame_node import FrameNode
        from metku.raami.frame_supports import FixedSupport
        from metku.raami.raami import Raami
        from metku.sections.steel.RHS import RHS
        self.cf, self.fl, self.cat = cf, fl, init['cat']
        f = self.f = Raami()
        self.n = [FrameNode(0, 0), FrameNode(0, 3000), FrameNode(4000, 3000)]
        for n in self.n:
            f.add(n)
        self.m = [SteelFrameMember(self.n[:2], RHS(100, 100, 5), 'column', nel=2),
                  SteelFrameMember(self.n[1:], RHS(100, 100, 5), nel=4)]
        for m in self.m:
            f.add(m)
        f.add(FixedSupport(self.n[0]))
        self.cases = []
        for c in range(1, len(cf['Cats']) + 1):
            self.cases.append(fl.LoadCase(c))
            f.add(self.cases[-1])
        self.loads, self.combs, self.gen = {}, {}, False
        for l in range(1, len(cf['LoadP']) + 1):
            self.make(l)
        for l in init['on']:
            self.add(l)

    V = {1: [4, -7, 2], 2: [3, 5], 3: [-6, 11], 4: [2, 8], 5: [1, 9, -3]}

    def make(self, l):
        p = self.cf['LoadP'][l - 1]
        kw = dict(load_id=p['c'], ltype=SPELL[self.cat[p['c'] - 1]], f=p['f'][0])
        v = self.V[l]
        if p['k'] in 'px':
            v = (v + [1])[:3]
            ld = self.fl.PointLoad(self.n[1 if p['k'] == 'p' else 2], v, **kw)
        elif p['k'] == 'l':
            ld = self.fl.LineLoad(self.m[1], v[:2], 'y', **kw)
        elif p['k'] == 'L':
            ld = self.fl.LineLoad(self.m[0], v[:2], 'x', coord_sys='local', name='sivu', **kw)
        else:
            ld = self.fl.PWLineLoad(self.m[1], v[:2], 0.5, 'y', **kw)
        self.loads[l] = ld

    def add(self, l):
        self.f.add(self.loads[l])

    def apply(self, a):
        op = a['op']
        self.gen = op == 'gen'
        if op == 'add':
            self.add(a['l'])
        elif op == 'scale':
            self.loads[a['l']].f = a['f']
        elif op == 'comb':
            p = self.cf['CombP'][a['k'] - 1]
            if a['new']:
                self.combs[a['k']] = self.fl.LoadCombination(p['id'], p['t'], [self.cases[c - 1] for c in p['cs']])
                self.f.add(self.combs[a['k']])
            else:
                self.combs[a['k']].combine_loads()
        else:
            with contextlib.redirect_stdout(io.StringIO()):
                self.f.generate_fem()

    @staticmethod
    def where(ld):
        vals = list(ld.values) if hasattr(ld, 'values') else list(ld.v)
        return (type(ld).__name__, id(getattr(ld, 'member', None)), id(getattr(ld, 'node', None)),
                getattr(ld, 'direction', None), getattr(ld, 'coord_sys', None), getattr(ld, 'xdiv', None),
                tuple(vals), ld.ltype)

    def combined(self, i):
        res = []
        for ld in self.f.loads.values():
            if ld.load_id != i:
                continue
            tok = [l for l, o in self.loads.items() if self.where(o) == self.where(ld)]
            if any(ld is o for o in self.loads.values()) or len(tok) != 1:
                raise AssertionError(f'combined load {ld.name} corresponds to loads {tok}')
            res.append([tok[0], ld.f * 1000])
        case = self.f.load_cases.get(i)
        mine = [ld for ld in self.f.loads.values() if ld.load_id == i]
        if {id(x) for x in (case.loads if case else [])} != {id(x) for x in mine} or \
                (case and len(case.loads) != len(mine)):
            raise AssertionError(f'load case {i} has {len(case.loads) if case else 0} loads, the frame {len(mine)}')
        return sorted(res)

    def femloads(self, i):
        """Scale of every load as it reached the analysis model."""
        res = {}
        import numpy as np
        for ld in self.f.fem.loads:
            if ld.sid != i:
                continue
            hit = []
            for l, o in self.loads.items():
                if hasattr(ld, 'elem'):
                    if not hasattr(o, 'member') or ld.elem not in o.member.fem_elements or ld.dir != o.direction \
                            or ld.coords != o.coord_sys:
                        continue
                    k, n = o.member.fem_elements.index(ld.elem), len(o.member.fem_elements)
                    if hasattr(o, 'xdiv'):
                        base = [o.values[0 if k < n * o.xdiv else 1]] * 2
                    else:
                        base = list(np.linspace(o.values[0], o.values[1], n + 1)[k:k + 2])
                    got = [q * ld.f for q in ld.qval]
                else:
                    if hasattr(o, 'member') or ld.node is not o.node.fem_node:
                        continue
                    k, base, got = 0, list(o.v), [v * ld.f for v in ld.v]
                s = got[0] / base[0]
                if all(abs(g - s * b) < 1e-9 * max(1, abs(g)) for g, b in zip(got, base)):
                    hit.append((l, k, s))
            if len(hit) != 1:
                raise AssertionError(f'analysis load of combination {i} corresponds to {hit}')
            l, k, s = hit[0]
            res.setdefault(l, []).append((k, s))
        out = []
        for l, ks in res.items():
            n = len(self.loads[l].member.fem_elements) if hasattr(self.loads[l], 'member') else 1
            if sorted(k for k, _ in ks) != list(range(n)) or max(s for _, s in ks) - min(s for _, s in ks) > 1e-9:
                raise AssertionError(f'load {l} of combination {i} on the elements: {ks}')
            out.append([l, ks[0][1] * 1000])
        return sorted(out)

    def project(self):
        ids = [p['id'] for p in self.cf['CombP']]
        on = sorted(l for l, o in self.loads.items() if any(o is x for x in self.f.loads.values()))
        for l, o in self.loads.items():
            c = self.cf['LoadP'][l - 1]['c']
            if o.load_id != c or (l in on) != any(o is x for x in self.cases[c - 1].loads):
                raise AssertionError(f'load {l} has left its load case')
        if len(self.f.load_ids) != len(set(self.f.load_ids)):
            raise AssertionError('load identifiers repeat')
        return dict(on=on, gen=self.gen, comb=[self.combined(i) for i in ids],
                    fem=[self.femloads(i) for i in ids] if self.gen else [],
                    orig=[self.loads[l].f for l in sorted(self.loads)])


def run(chk):
    for name, cf in configs(chk.quick):
        g = chk.graph('Combination', defs={k: tla(v) for k, v in cf.items()}, invariants=['OneLead', 'OnceEach'],
                      timeout=300)
        chk.replay(lambda init, cf=cf: Comb(cf, init), g.tours(chk.rng, max_len=80,
                   edge_budget=chk.pick(4000, None)), f'Combination/{name}')
        chk.replay(lambda init, cf=cf: Comb(cf, init), g.walks(chk.rng, chk.pick(100, 1000), 25),
                   f'Combination/{name}')
        chk.notes.setdefault('graphs', {})[name] = dict(states=len(g.states), transitions=g.n)
