"""C10: frame analysis depends on the current model only and satisfies statics."""
from common import tla

S = 6000
INF = float('inf')


class Shape:
    def __init__(self, name, nodes, els, secs, mats, sups, loads, toggles, methods=('REM',)):
        self.__dict__.update(locals())

    def defs(self, mode, traces=()):
        cases = sorted({l['c'] for l in self.loads})
        return dict(Mode=f'"{mode}"', Nodes=tla(self.nodes),
                    Els=tla([dict(k=k, a=a, b=b, m=m) for k, a, b, m in self.els]),
                    Secs=tla(self.secs), Mats=tla(self.mats),
                    Sups=tla([dict(n=n, d=d) for n, d in self.sups]), Loads=tla(self.loads),
                    Cases=tla(set(cases)),
                    Toggles=tla([dict(k=k, i=i, v=v, up=k == 'el') for k, i, v in self.toggles]),
                    Methods=tla(set(self.methods)), Traces=tla(list(traces)), S=str(S))


def P(c, n, *v):
    return dict(t='p', c=c, n=n, v=list(v))


def Q(c, e, q1, q2, d, loc=False):
    return dict(t='l', c=c, e=e, q=[q1, q2], dir=d, loc=loc)


PORTAL = dict(nodes=[[0, 0], [0, 4], [3, 4], [3, 0]], els=[('beam', 1, 2, 1), ('beam', 2, 3, 2), ('beam', 3, 4, 1)],
              secs=[[4, 6], [3, 4], [4, 6]], mats=[1, 1], sups=[(1, [1, 2, 3]), (4, [1, 2]), (4, [3])])


def shapes(quick):
    yield Shape('portal-geometry', **PORTAL, loads=[P(1, 2, 1, 0, 0), Q(1, 2, -1, -1, 'y'), P(2, 3, 0, -2, 1)],
                toggles=[('sec', 2, [[3, 4], [6, 9]]), ('E', 1, [1, 2]), ('pos', 4, [[3, 0], [6, 0]]),
                         ('sup', 3, [1, 0]), ('ld', 1, [1, 2])], methods=('REM', 'ZERO'))
    yield Shape('portal-hinges', **PORTAL, loads=[P(1, 2, 1, 0, 0), Q(1, 2, -1, -2, 'y'), Q(2, 1, 1, 0, 'x')],
                toggles=[('rel', 2, [[], [2], [5], [2, 5]]), ('rel', 3, [[], [5]]), ('sec', 2, [[3, 4], [6, 9]]),
                         ('ld', 2, [1, 0, 3])])
    yield Shape('portal-loads', **PORTAL,
                loads=[Q(1, 2, -1, -1, 'y'), Q(1, 2, -1, 1, 'y', True), Q(1, 2, 2, 1, 'x'), Q(1, 3, 1, 2, 'x', True),
                       P(1, 3, 0, -1, 1), Q(2, 3, -1, -2, 'y', True)],
                toggles=[('ld', 1, [1, 0, 2]), ('ld', 2, [1, 0]), ('ld', 3, [1, 3]), ('ld', 6, [1, 0]),
                         ('pos', 4, [[3, 0], [6, 0]]), ('rel', 2, [[], [5]])])
    yield Shape('growing', nodes=[[0, 0], [4, 0], [8, 0], [8, -3]],
                els=[('beam', 1, 2, 1), ('beam', 2, 3, 1), ('rod', 4, 2, 2), ('beam', 3, 4, 2)],
                secs=[[4, 8], [4, 8], [3, 0], [2, 5]], mats=[1, 1],
                sups=[(1, [1, 2, 3]), (3, [1, 2, 3]), (4, [1, 2])],
                loads=[P(1, 2, 0, -1, 0), Q(1, 1, -1, 0, 'y'), P(2, 2, 1, 0, 2)],
                toggles=[('el', 3, [0, 1]), ('el', 4, [0, 1]), ('sup', 2, [1, 0]), ('E', 2, [1, 2]),
                         ('sec', 3, [[3, 0], [6, 0]])])
    yield Shape('truss', nodes=[[0, 0], [4, 0], [4, 3], [0, 3]],
                els=[('rod', 1, 2, 1), ('rod', 2, 3, 1), ('rod', 3, 4, 1), ('rod', 1, 3, 2), ('rod', 4, 2, 2),
                     ('rod', 1, 4, 1)],
                secs=[[4, 0], [3, 0], [4, 0], [2, 0], [2, 0], [3, 0]], mats=[1, 2],
                sups=[(1, [1, 2]), (4, [1, 2])],
                loads=[P(1, 3, 0, -2, 0), P(1, 2, 1, 0, 0), P(2, 2, 0, -1, 0)],
                toggles=[('sec', 4, [[2, 0], [5, 0]]), ('E', 2, [2, 1]), ('ld', 2, [1, 0, 2])])
    yield Shape('semi-rigid', nodes=[[0, 0], [0, 4], [3, 4], [3, 0]],
                els=[('beam', 1, 2, 1), ('semi', 2, 3, 2), ('semi', 4, 3, 1)],
                secs=[[4, 6], [3, 4], [4, 6]], mats=[1, 1], sups=[(1, [1, 2, 3]), (4, [1, 2, 3])],
                loads=[P(1, 2, 1, 0, 0), Q(1, 2, -1, -2, 'y'), Q(1, 2, 1, 0, 'y', True), Q(2, 3, 1, 1, 'x'), P(2, 3, 0, -1, 1)],
                toggles=[('ks', 2, [[-1, -1], [1, 3], [0, 2], [5, -1]]), ('ks', 3, [[2, -1], [-1, 0], [4, 4]]),
                         ('sec', 2, [[3, 4], [6, 9]]), ('E', 1, [1, 2]), ('ld', 3, [0, 1])], methods=('REM', 'ZERO'))
    yield Shape('springs', nodes=[[0, 0], [4, 0], [8, 0], [4, -3], [8, -4]],
                els=[('beam', 1, 2, 1), ('beam', 2, 3, 1), ('spring', 4, 2, 1), ('spring', 3, 5, 1), ('rod', 1, 4, 1)],
                secs=[[4, 8], [4, 8], [2, 0], [1, 0], [3, 0]], mats=[1], sups=[(1, [1, 2]), (4, [2]), (5, [1, 2])],
                loads=[P(1, 2, 0, -1, 0), Q(1, 1, -1, 0, 'y'), P(2, 3, 0, -1, 1)],
                toggles=[('sec', 3, [[2, 0], [5, 0]]), ('sec', 4, [[1, 0], [4, 0]]), ('sec', 2, [[4, 8], [6, 3]]),
                         ('pos', 5, [[8, -4], [8, -3]]), ('ld', 1, [1, 2])], methods=('REM', 'ZERO'))


class Frame:
    """The real FrameFEM, driven by edit and analyse actions."""

    def __init__(self, sh, init, events):
        from metku.framefem import framefem as ff
        from metku.framefem.elements.ebbeam import EBBeam
        from metku.framefem.elements.rod import Rod
        from metku.framefem.elements.springs import LinearSpring
        from metku.framefem.elements.eb_semi_rigid_beam import EBSemiRigidBeam
        self.sh, self.events, self.ff, self.EB, self.Rod = sh, events, ff, EBBeam, Rod
        self.Spring, self.Semi = LinearSpring, EBSemiRigidBeam
        self.cur = {(k, i): v[init['cfg'][t] - 1] for t, (k, i, v) in enumerate(sh.toggles)}
        self.state = {'cfg': list(init['cfg']), 'fresh': False}
        f = self.f = ff.FrameFEM()
        self.loadobj, self.supobj, self.els, self.mats, self.nodes = {}, {}, {}, {}, {}
        for n, xy in enumerate(sh.nodes, 1):
            if self.late_node(n):
                continue
            self.add_node(n)
        for m, E in enumerate(sh.mats, 1):
            f.add_material(self.cur.get(('E', m), E), 0.3, 7850e-9)
        for e in range(1, len(sh.els) + 1):
            if self.cur.get(('el', e), 1):
                self.add_el(e)
        for c in sorted({l['c'] for l in sh.loads}):
            f.add_loadcase(supp_id=1, load_id=c)
        for s in range(1, len(sh.sups) + 1):
            if self.cur.get(('sup', s), 1):
                self.add_sup(s)
        for l in range(1, len(sh.loads) + 1):
            self.set_load(l, self.cur.get(('ld', l), 1))

    def late_node(self, n):
        return not any(self.cur.get(('el', e), 1) and n in (a, b) for e, (_, a, b, _) in enumerate(self.sh.els, 1))

    def add_node(self, n):
        x, y = self.cur.get(('pos', n), self.sh.nodes[n - 1])
        self.nodes[n] = self.f.add_node(x, y)

    def add_el(self, e):
        k, a, b, m = self.sh.els[e - 1]
        for n in (a, b):
            if n not in self.nodes:
                self.add_node(n)
                for s, (sn, _) in enumerate(self.sh.sups, 1):
                    if sn == n and self.cur.get(('sup', s), 1):
                        self.add_sup(s)
        A, I = self.cur.get(('sec', e), self.sh.secs[e - 1])
        sec = self.ff.BeamSection(A, I)
        self.f.add_section(sec)
        if k == 'spring':
            el = self.Spring(self.nodes[a], self.nodes[b], A)
        elif k == 'semi':
            ks = self.cur.get(('ks', e), [-1, -1])
            el = self.Semi(self.nodes[a], self.nodes[b], sec, self.f.materials[m - 1],
                           rot_stiff=[INF if x == -1 else x for x in ks])
        else:
            cls = self.EB if k == 'beam' else self.Rod
            el = cls(self.nodes[a], self.nodes[b], sec, self.f.materials[m - 1])
        self.f.add_element(el)
        self.els[e] = el
        rel = self.cur.get(('rel', e), [])
        if rel:
            self.f.add_release(self.f.elements.index(el), list(rel))

    def add_sup(self, s):
        n, d = self.sh.sups[s - 1]
        if n not in self.nodes or s in self.supobj:
            return
        self.f.add_support(1, self.f.nodes.index(self.nodes[n]), [x - 1 for x in d])
        self.supobj[s] = self.f.supports[-1]

    def set_load(self, l, fac):
        if l in self.loadobj:
            if fac == 0:
                self.f.loads.remove(self.loadobj.pop(l))
            else:
                self.loadobj[l].f = fac
            return
        if fac == 0:
            return
        d = self.sh.loads[l - 1]
        if d['t'] == 'p':
            ld = self.ff.PointLoad(d['c'], self.nodes[d['n']], list(d['v']), fac)
        else:
            ld = self.ff.LineLoad(d['c'], self.els[d['e']], [0, 1], list(d['q']), d['dir'],
                                  'local' if d['loc'] else 'global')
            ld.f = fac
        self.f.add_load(ld)
        self.loadobj[l] = ld

    def edit(self, k, i, v):
        self.cur[(k, i)] = v
        if k == 'pos':
            self.nodes[i].x, self.nodes[i].y = v
        elif k == 'E':
            self.f.materials[i - 1].young = v
        elif k == 'sec':
            if i not in self.els:
                return
            if self.sh.els[i - 1][0] == 'spring':
                self.els[i].k = v[0]
            elif v[1] % 2:                 # both ways of changing a section
                self.els[i].section = self.ff.BeamSection(*v)
            else:
                self.els[i].section.A = v[0]
                self.els[i].section.I[0] = v[1]
        elif k == 'ks':
            self.els[i].rot_stiff = [1e20 if x == -1 else 1e-4 if x == 0 else x for x in v]
        elif k == 'rel':
            self.f.add_release(self.f.elements.index(self.els[i]), list(v))
        elif k == 'sup':
            if v:
                self.add_sup(i)
            elif i in self.supobj:
                self.f.supports.remove(self.supobj.pop(i))
        elif k == 'ld':
            self.set_load(i, v)
        elif k == 'el' and v and i not in self.els:
            self.add_el(i)

    def apply(self, a):
        if a['op'] == 'edit':
            self.edit(a['k'], a['i'], a['v'])
            t = [j for j, (k, i, _) in enumerate(self.sh.toggles) if (k, i) == (a['k'], a['i'])][0]
            self.state['cfg'][t] = self.sh.toggles[t][2].index(a['v']) + 1
            self.state['fresh'] = False
            return
        cs = sorted(a['cases'])
        self.f.linear_statics(cs[0] if len(cs) == 1 else cs, support_method=a['m'])
        self.state['fresh'] = True
        for c in cs:
            self.events.append(self.record(a['model'], c))

    def record(self, model, c):
        u = [[fix(x) for x in self.nodes[n].u[c]] if n in self.nodes else [0, 0, 0]
             for n in range(1, len(self.sh.nodes) + 1)]
        R = []
        for e in range(1, len(self.sh.els) + 1):
            if e not in self.els:
                R.append([0] * 6)
                continue
            fi = self.els[e].fint[c]
            R.append([fix(x) for x in (-fi['fx'][0], fi['fz'][0], -fi['my'][0], fi['fx'][1], -fi['fz'][1], fi['my'][1])])
        return dict(m=model, c=c, u=u, R=R)

    def project(self):
        return self.state


def fix(x):
    x = float(x)
    if not abs(x) < 1e4:
        return 10 ** 9
    return round(x * S)


def run(chk):
    import contextlib
    import io
    import json
    for sh in shapes(chk.quick):
        g = chk.graph('FrameStatics', defs=sh.defs('design'), view='View2')
        events = []
        with contextlib.redirect_stdout(io.StringIO()):
            chk.replay(lambda init, sh=sh: Frame(sh, init, events), g.tours(chk.rng, max_len=60,
                       edge_budget=chk.pick(900, None)), f'FrameStatics/{sh.name}')
            chk.replay(lambda init, sh=sh: Frame(sh, init, events), g.walks(chk.rng, chk.pick(20, 200), 40),
                       f'FrameStatics/{sh.name}')
        # equal reports of one model need to be validated only once
        uniq = {}
        for ev in events:
            uniq.setdefault(json.dumps(ev, sort_keys=True), ev)
        evs = list(uniq.values())
        for ev in evs:
            if any(abs(x) >= 10 ** 6 for row in ev['u'] + ev['R'] for x in row):
                chk.violation(f'FrameStatics/{sh.name}/size', dict(what='response out of any plausible range', event=ev))
        evs = [ev for ev in evs if all(abs(x) < 10 ** 6 for row in ev['u'] + ev['R'] for x in row)]
        for j in range(0, len(evs), 1500):
            part = evs[j:j + 1500]
            r = chk.tlc('FrameStatics', defs=sh.defs('trace', part), view='View')
            ok = {ln['ok'] for ln in r.lines if 'ok' in ln}
            for k, ev in enumerate(part, 1):
                if k not in ok:
                    chk.violation(f'FrameStatics/{sh.name}/statics', dict(
                        what=f'load case {ev["c"]}: reported displacements and member forces violate statics of the current model',
                        event=ev))
        chk.notes.setdefault('analyses', {})[sh.name] = dict(recorded=len(events), distinct=len(evs))
