"""C13: the Eurocode combiner returns the governing combination."""
from common import tla


def P(k, v, d='y', *ids):
    return dict(k=k, v=v, d=d, ids=list(ids) or [0])


def configs(quick):
    S = [dict(cls=c, cc=cc, kk=kk) for c, cc, kk in
         [('A', 1, 1), ('B', 2, 5), ('C', 3, 4), ('D', 2, 1), ('E', 3, 2), ('E', 1, 1)]]
    yield 'mixed', dict(LoadP=[P('G', 200), P('A', 100), P('Q', 400), P('S', 200), P('W', 100, 'x', 0, 2)],
                        Setups=S if not quick else S[:5], Spans={10, 5, 20, 25})
    yield 'leading', dict(LoadP=[P('Q', 300), P('Q', 300, 'y', 1), P('S', 300, 'y', 3, 1), P('W', 400, 'x', 1)],
                          Setups=S if not quick else S[1:], Spans={10})
    yield 'uplift', dict(LoadP=[P('G', 100, 'y', 2), P('W', -200), P('W', 100, 'y', 2), P('G', -40), P('S', 0)],
                         Setups=S[:2], Spans={10})
    yield 'many', dict(LoadP=[P('G', 200), P('A', 100, 'x'), P('Q', 400), P('Q', 200, 'y', 1, 2), P('S', 200),
                            P('S', 300, 'y', 4), P('W', 100, 'x', 0, 2)], Setups=S[:3] if quick else S, Spans={10, 5})


UNIT = 0.01      # a pool value of 100 is 1.0 in the code


class Comb:
    def __init__(self, cf, init):
        from metku.eurocodes.en1991 import en1991 as en
        self.en, self.cf, self.su = en, cf, init['su']
        mk = {'G': en.Load, 'A': en.AreaLoad, 'Q': en.ImposedLoad, 'S': en.SnowLoad, 'W': en.WindLoad}
        self.loads = [mk[p['k']](p['v'] * UNIT) for p in cf['LoadP']]
        self.facs = [list(l.comb_factors) for l in self.loads]
        a = (self.su['cls'], self.su['CC' if 'CC' in self.su else 'cc'], self.su['kk'])
        self.multi = en.MultiCombiner(*a)
        self.one = {'uls': en.ULSCombiner(*a), 'sls': en.SLSCombiner(*a), 'acc': en.ACCCombiner(*a)}
        self.idx = {k: {} for k in ('uls', 'sls', 'acc', 'muls', 'msls', 'macc')}
        self.on = []

    def each(self):
        yield from self.one.items()
        yield 'muls', self.multi.ULS
        yield 'msls', self.multi.SLS
        yield 'macc', self.multi.Acc

    def entries(self, c):
        return c.G_k + c.Q_k

    def apply(self, a):
        if a['op'] == 'add':
            l = a['l']
            p = self.cf['LoadP'][l - 1]
            before = {k: [id(e) for e in self.entries(c)] for k, c in self.each()}
            arg = [self.loads[l - 1], p['d'], list(p['ids'])]
            self.multi.add(arg)
            for c in self.one.values():
                c.add(arg)
            for k, c in self.each():
                new = [e for e in self.entries(c) if id(e) not in before[k]]
                if len(new) != 1:
                    raise AssertionError(f'{len(new)} loads added')
                self.idx[k][id(new[0])] = (l, new[0])
            self.on.append(l)
            return
        if a['op'] == 'reduce':
            self.multi.use_reduction_factor(a['L'])
            for c in self.one.values():
                c.use_reduction_factor(a['L'])
            return
        for _ in range(2):
            res = self.multi.get_result()
            self.one_of(a['uls'], 'muls', self.multi.ULS.combine(), res['uls'])
            self.one_of(a['acc'], 'macc', self.multi.Acc.combine(), res['acc'])
            for i, k in enumerate(('char', 'freq', 'quasi')):
                self.one_of(a[k], 'msls', self.multi.SLS.combine()[i], res['sls'][k])
        self.one_of(a['uls'], 'uls', self.one['uls'].combine(), self.one['uls'].get_result())
        self.one_of(a['acc'], 'acc', self.one['acc'].combine(), self.one['acc'].get_result())
        sls, split = self.one['sls'].combine(), self.one['sls'].get_result(split_result=True)
        for i, k in enumerate(('char', 'freq', 'quasi')):
            self.one_of(a[k], 'sls', sls[i], self.one['sls'].get_result()[k])
            self.parts(sls[i], split[k], 'sls')
        return 'governing'

    def factors(self, which, comb):
        f = [-1] * len(self.cf['LoadP'])
        for part in comb['combination'].values():
            for e in part:
                l, obj = self.idx[which][id(e['load'])]
                if f[l - 1] != -1:
                    raise AssertionError(f'load {l} twice in a combination')
                f[l - 1] = e['factor'] * 1e5
        return f

    def one_of(self, cands, which, comb, res):
        f, v = self.factors(which, comb), comb['value']
        hit = [c for c in cands if close(c['f'], f, 1e-3)]
        if not hit:
            raise AssertionError(f'{which}: factors {f} are not those of a governing combination {cands}')
        c = hit[0]
        if abs(c['v'] * 1e-3 * UNIT - v) > 1e-6:
            raise AssertionError(f'{which}: value {v}, expected {c["v"] * 1e-3 * UNIT}')
        for d in 'xy':
            exp = c['s'][d]
            if len(exp) != len(res[d]):
                raise AssertionError(f'{which}: {res} expected {c["s"]}')
            for e, r in zip(exp, res[d]):
                if (e == []) != (r is None) or (e and abs(e[0] * 1e-3 * UNIT - r) > 0.0051 * len(self.on) + 1e-9):
                    raise AssertionError(f'{which}: {d} results {res[d]}, expected {exp}')

    def parts(self, comb, split, which):
        """Split results: every part sums its own loads."""
        if set(split) != set(comb['combination']):
            raise AssertionError(f'parts {list(split)} of {list(comb["combination"])}')
        for part, es in comb['combination'].items():
            sums = {}
            for e in es:
                l, obj = self.idx[which][id(e['load'])]
                for i in set(self.cf['LoadP'][l - 1]['ids']):
                    sums.setdefault(i, {'x': 0.0, 'y': 0.0})[obj[1]] += obj[0].value * e['factor']
            for d in 'xy':
                got = split[part][d]
                if len(got) != max(sums) + 1 or any((got[i] is None) != (i not in sums) for i in range(len(got))) or \
                        any(abs(got[i] - s[d]) > 0.0051 * len(es) + 1e-9 for i, s in sums.items()):
                    raise AssertionError(f'part {part}: {got} expected {sums}')

    def project(self):
        val = {}
        for k, c in self.each():
            for e in self.entries(c):
                l = self.idx[k][id(e)][0]
                if abs(val.setdefault(l, e[0].value) - e[0].value) > 1e-12:
                    raise AssertionError('combiners disagree')
        if [list(l.comb_factors) for l in self.loads] != self.facs:
            raise AssertionError('factors of a given load changed')
        return dict(on=sorted(self.on), orig=[l.value / UNIT for l in self.loads],
                    val=[val.get(l, 0) / UNIT for l in range(1, len(self.loads) + 1)])


def close(a, b, tol):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def run(chk):
    for name, cf in configs(chk.quick):
        g = chk.graph('Combiner', defs={k: tla(v) for k, v in cf.items() if k != 'Setups'} |
                      {'Setups': '{' + ', '.join(tla(s) for s in cf['Setups']) + '}'},
                      invariants=['Governs'] if name != 'uplift' else [], timeout=300)
        chk.replay(lambda init, cf=cf: Comb(cf, init), g.tours(chk.rng, max_len=60,
                   edge_budget=chk.pick(4000, None)), f'Combiner/{name}')
        chk.notes.setdefault('graphs', {})[name] = dict(states=len(g.states), transitions=g.n)
