"""C27: bolts and bolted end-plate joints (EN 1993-1-8)."""
import contextlib
import io
import warnings
from math import ceil, pi, sqrt

from common import MachineryError, tla

warnings.simplefilter('ignore')


def joints():
    """Dimensions in mm; z: tension rows, shear: rows in shear only."""
    return [
        dict(col=('HEA', 340), beam=('IPE', 500), g='S235', z=[285, 200, 120], shear=[-200], etop=85, ebot=15, af=8, aw=5, cls=10.9, ext=True),
        dict(col=('HEB', 220), beam=('IPE', 300), g='S355', z=[100, 30], shear=[-90], etop=12, ebot=12, af=6, aw=4, cls=8.8, ext=False),
        dict(ts=16, col=('HEA', 240), beam=('IPE', 300), g='S235', z=[95], shear=[-95], etop=10, ebot=20, af=5, aw=5, cls=8.8, ext=False),
        dict(col=('HEB', 300), beam=('IPE', 400), g='S275', z=[245, 150], shear=[], etop=90, ebot=20, af=7, aw=5, cls=10.9, ext=True),
        dict(col=('HEB', 280), beam=('IPE', 550), g='S355', z=[315, 215, 135, 60], shear=[-60, -215], etop=85, ebot=15, af=8, aw=5, cls=8.8, ext=True),
    ]


def sections(c):
    from metku.sections.steel.ISection import HEA, HEB, IPE
    k = dict(HEA=HEA, HEB=HEB, IPE=IPE)
    (a, x), (b, y) = c['col'], c['beam']
    return k[a](x, fy=c['g']), k[b](y, fy=c['g'])


FU = dict(S235=360, S275=430, S355=510)
BETA_W = dict(S235=0.8, S275=0.85, S355=0.9)


def weld(c):
    fy = int(c['g'][1:])
    return ceil(c.get('ts', 10) * BETA_W[c['g']] / sqrt(2) * 1.25 * fy / FU[c['g']])


def groups(c):
    n = len(c['z'])
    return [(a, b) for a in range(n) for b in range(a + 1, n)]


def record(c):
    from metku.materials.steel_data import Steel
    col, beam = sections(c)
    fu = Steel(c['g']).fu
    if fu != FU[c['g']]:
        FU[c['g']] = fu
    A = 2 * col.b * col.tf + (col.h - 2 * col.tf) * col.tw + (4 - pi) * col.r ** 2
    t = lambda x: round(10 * x)
    fy = int(c['g'][1:])
    fub = {8.8: 800, 10.9: 1000}[c['cls']]
    return dict(z=[t(z) for z in c['z']], ext=c['ext'], hc=t(col.h), bc=t(col.b), tfc=t(col.tf), twc=t(col.tw), rc=t(col.r), fyc=fy,
                hb=t(beam.h), tfb=t(beam.tf), twb=t(beam.tw), fyb=fy, fyp=fy, wpl=round(float(beam.Wpl[0]) / 1000), af=c['af'], aw=c['aw'],
                etop=c['etop'], ebot=c['ebot'], fub=fub, ts=t(c.get('ts', 10)), bs=t((col.b - col.tw) / 2),
                avc=round(A - 2 * col.b * col.tf + (col.tw + 2 * col.r) * col.tf))


def geometry(c, bp, e, mv):
    col, beam = sections(c)
    z = list(c['z'])
    if mv:
        z[-1] -= 15
    w = bp - 2 * e
    mc = (w - col.tw) / 2 - 0.8 * col.r
    ec = e + (col.b - bp) / 2
    mp = (w - beam.tw) / 2 - 0.8 * sqrt(2) * c['aw']
    m2p = beam.h / 2 - beam.tf - 0.8 * sqrt(2) * c['af'] - z[1 if c['ext'] else 0]
    mid = (beam.h - beam.tf) / 2
    m2c = [abs(x - mid) - c.get('ts', 10) / 2 - 0.8 * sqrt(2) * weld(c) for x in z]
    return z, mc, ec, mp, m2p, m2c


def alpha_plate(e, m, m2):
    return min(max(4 + 1.67 * e / m * (m / m2) ** 0.67, 4 + 1.25 * e / m), 8)


def alpha_chart(e, m, m2):
    """Figure 6.11 by its usual closed form; None where the curve is left."""
    l1, l2 = m / (m + e), m2 / (m + e)

    def f(a):
        lim = 1.25 / (a - 2.75)
        x = 1 - l2 / (0.5 * a * lim)
        return None if x < 0 else lim + (1 - lim) * x ** (0.185 * a ** 1.785) - l1
    lo, hi = 4.45, 8.0
    flo, fhi = f(lo), f(hi)
    if flo is None or fhi is None or flo * fhi > 0:
        return None
    for _ in range(80):
        mid = (lo + hi) / 2
        fm = f(mid)
        if fm is None:
            return None
        if flo * fm > 0:
            lo, flo = mid, fm
        else:
            hi = mid
    return lo


def table(d):
    return ' @@ '.join(f'({tla(k)} :> {v})' for k, v in d.items())


class Joint:
    def __init__(self, cat, init):
        import metku.structures.steel.end_plate_joint as ep
        from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as ec
        self.cat, self.st = cat, dict(init)
        c = self.c = cat[init['j'] - 1]
        col, beam = sections(c)
        self.col_A, self.fy = float(col.A), float(col.fy)
        ext, n = c['ext'], len(c['z'])
        T, S = ec.TENSION_ROW, ec.SHEAR_ROW
        first = 1 if ext else 0
        plate = lambda r, a, b: (ec.ROW_OUTSIDE_BEAM_TENSION_FLANGE if ext and r == 0 else ec.FIRST_ROW_BELOW_BEAM_TENSION_FLANGE if r == first
                                 else ec.OTHER_INNER_ROW if a < r < b else ec.OTHER_END_ROW)
        flange = lambda r, a, b: ec.INNER_ROW if a < r < b else ec.END_ROW
        pos = [dict(flange=flange(r, 0, n - 1), plate=plate(r, 0, n - 1)) for r in range(n)]
        pos += [dict(flange=ec.END_ROW, plate=ec.OTHER_END_ROW) for _ in c['shear']]
        grp = [list(range(a, b + 1)) for a, b in groups(c)]
        gpos = [[dict(flange=flange(r, a, b), plate=plate(r, a, b)) for r in range(a, b + 1)] for a, b in groups(c)]
        with contextlib.redirect_stdout(io.StringIO()):
            self.bolts = ec.Bolt(init['d'], c['cls'], length=40.0)
            self.j = ep.EndPlateJoint(col, beam, tp=init['tp'], bp=init['bp'], mat_p=c['g'], etop=c['etop'], ebottom=c['ebot'], bolt=self.bolts,
                                      y_bolts=c['z'] + c['shear'], e_bolts=init['e'], bolt_row_pos=pos, groups=grp, group_pos=gpos,
                                      row_types=[T] * n + [S] * len(c['shear']))
        self.j.weld_f, self.j.weld_w = c['af'], c['aw']
        self.skipped = 0

    def apply(self, a):
        with contextlib.redirect_stdout(io.StringIO()):
            getattr(self, a['op'])(a)

    def project(self):
        j = self.j
        col = j.col
        st = (1 if j.stiffeners['col_bottom_flange'] else 0) + (2 if j.stiffeners['col_top_flange'] else 0)
        n = len(self.c['z'])
        if abs(j.bolt_rows[n - 1].z_top + j.bolt_rows[n - 1].z - 0.5 * j.beam.h - j.etop) > 1e-9:
            raise AssertionError('distance of the last row from the top of the plate')
        return dict(j=self.st['j'], tp=j.tp, bp=j.bp, e=j.ebolts, d=j.bolt_size, beta=round(100 * j.beta),
                    sig=round(100 * col.sigma_com() / col.fy), mv=0 if abs(j.bolt_rows[n - 1].z - self.c['z'][-1]) < 1e-9 else 1, st=st)

    def tp(self, a):
        self.j.tp = a['v']

    def bp(self, a):
        self.j.bp = a['v']

    def ebolts(self, a):
        self.j.ebolts = a['v']

    def bolt(self, a):
        self.j.bolt_size = a['v']

    def beta(self, a):
        self.j.beta = a['v'] / 100

    def sigma(self, a):
        self.j.col.Ned = -a['v'] / 100 * self.col_A * self.fy

    def move(self, a):
        row = self.j.bolt_rows[len(self.c['z']) - 1]
        if a['v']:
            row.z_top = row.z_top + 15
        else:
            row.z = self.c['z'][-1]

    def stiffen(self, a):
        self.j.add_stiffener('col_bottom_flange' if a['v'] == 1 else 'col_top_flange', t=self.c.get('ts', 10))

    def near(self, what, got, want, tol, scale=0.0):
        if not abs(got - want) <= tol * max(abs(want), scale):
            raise AssertionError(f'{what} is {got}, specification {want}')

    def bend(self, a):
        o, j = a['res'], self.j
        n = len(self.c['z'])
        webs = lambda: [float(f()) for r in j.bolt_rows[:n] for f in (r.column_web_in_tension, r.beam_web_in_tension)] + \
            [float(g.column_web_in_tension()) for g in j.row_groups]
        first = webs()
        M = float(j.MjRd)
        for x, y in zip(first, webs()):
            self.near('web in tension, asked before the bending resistance,', x, y, 1e-9)
        F = [float(r.FtRd) for r in j.bolt_rows[:n]]
        arm = [r.z + (j.beam.h - j.beam.tf) / 2 for r in j.bolt_rows[:n]]
        exact = sum(f * x for f, x in zip(F, arm))
        self.near('bending resistance from the row forces', M, exact, 1e-10, 1.0)
        Fv = float(self.bolts.shear_resistance())
        V = sum(2 * Fv * (0.286 if f > 0 else 1) for f in F) + 2 * Fv * len(self.c['shear'])
        self.near('shear resistance of the bolts', float(j.VjRd), V, 1e-9)
        comp = min(float(j.V_wp_Rd()) / j.beta, float(j.Fc_wc_Rd()), float(j.Fc_fb_Rd()))
        self.near('compression side', comp, 10 * o['comp'], 3e-3)
        if o['tie']:
            return
        for r in range(n):
            row = j.bolt_rows[r]
            keep = row.FtRd
            self.near(f'resistance of row {r + 1}', float(row.tension_resistance()), 10 * o['own'][r], 4e-3)
            row.FtRd = keep
        for g, (p, q) in zip(j.row_groups, groups(self.c)):
            want = 10 * o['groups'][p][q]
            if want < 9e8:
                self.near(f'resistance of rows {p + 1} to {q + 1}', float(g.tension_resistance()), want, 4e-3)
        big = 10 * max(o['force'])
        for r in range(n):
            self.near(f'force of row {r + 1}', F[r], 10 * o['force'][r], 8e-3, 1.2 * big)
        self.near('bending resistance', M, o['moment'], 6e-3)

    def stiff(self, a):
        o, j = a['res'], self.j
        z, keq = j.zeq_and_keq()
        self.near('equivalent lever arm', float(z), o['z'] / 10, 3e-3)
        self.near('equivalent lever arm', float(j.zeq()), o['z'] / 10, 3e-3)
        self.near('equivalent stiffness', float(keq), o['keq'] / 1e4, 8e-3)
        self.near('equivalent stiffness', float(j.keq()), o['keq'] / 1e4, 8e-3)
        for r in range(len(self.c['z'])):
            self.near(f'stiffness of row {r + 1}', float(j.bolt_rows[r].keff()), o['rows'][r] / 1e4, 8e-3)
        self.near('initial stiffness', float(j.Sj_ini()), 210000 * (o['z'] / 10) ** 2 * o['k'] / 1e4, 1.2e-2)


class One:
    """Single bolts: Table 3.4."""

    def __init__(self, init):
        self.st = dict(init)
        self.old = {}

    def apply(self, a):
        from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as ec
        cls = a['c'] / 10 if a['c'] < 100 else 10.9
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            length = 45.0 if a['perp'] else 270.0
            new = ec.Bolt(a['s'], cls, length=length)
            old = self.old.setdefault((cls, length), ec.Bolt(16, cls, length=length))
            old.size = a['s']
        As = {12: 84.3, 16: 157, 20: 245, 24: 353, 30: 561, 36: 817}[a['s']]
        g = 1.25
        shear = a['av'] / 100 * a['fub'] * As / g
        plain = 0.6 * a['fub'] * pi * a['s'] ** 2 / 4 / g
        tens = 0.9 * a['fub'] * As / g
        k1, ab = a['k1'][0] / a['k1'][1], a['ab'][0] / a['ab'][1]
        t = 13
        bear = k1 * ab * a['fu'] * a['s'] * t / g
        pos = lambda x: 'edge' if x else 'inner'
        for what, b in (('new', new), ('changed', old)):
            who = f'{what} bolt M{a["s"]} {cls}'
            for name, got, want in (('hole', b.d0, a['d0']), ('stress area', b.As, As), ('shear (thread)', b.shear_resistance(), shear),
                                    ('shear (shank)', b.shear_resistance(threads_in_plane=False), plain), ('tension', b.tension_resistance(), tens),
                                    ('countersunk', b.tension_resistance(k2=0.63), 0.7 * tens),
                                    ('bearing', b.bearing_resistance(a['fu'], t, a['e'], a['p'], pos(a['perp']), pos(a['load'])), bear)):
                self.near(f'{who}: {name}', got, want)
        if {k: v for k, v in vars(new).items()} != {k: v for k, v in vars(old).items()}:
            raise AssertionError(f'bolt changed to M{a["s"]} is {vars(old)}, a new one {vars(new)}')
        self.near('shear resistance (thread)', ec.bolt_shear_resistance(a['fub'], As, cls, threads_in_plane=True), shear)
        self.near('shear resistance (shank)', ec.bolt_shear_resistance(a['fub'], pi * a['s'] ** 2 / 4, cls, threads_in_plane=False), plain)
        self.near('bearing resistance', ec.bolt_bearing_resistance(a['fub'], a['fu'], a['s'], t, a['e'], a['p'], a['d0'],
                                                                   pos(a['perp']), pos(a['load'])), bear)
        self.near('tension resistance', ec.bolt_tension_resistance(a['fub'], As), tens)
        self.near('punching', ec.bolt_punching_shear_resistance(a['s'] * 1.5, t, a['fu']), 0.6 * pi * 1.5 * a['s'] * t * a['fu'] / g)
        self.near('shear and tension', ec.shear_and_tension_resistance(0.3 * shear, shear, 0.7 * tens, tens), 0.3 + 0.5)
        self.near('block tearing', ec.block_tearing(355, a['fu'], 100, 400), a['fu'] * 100 / g + 355 * 400 / sqrt(3))
        self.near('block tearing', ec.block_tearing(355, a['fu'], 100, 400, concentric_load=False), a['fu'] * 50 / g + 355 * 400 / sqrt(3))

    def near(self, what, got, want):
        if not abs(got - want) <= 1e-9 * max(1, abs(want)):
            raise AssertionError(f'{what} is {got}, Table 3.4: {want}')

    def project(self):
        return dict(self.st)


def run(chk):
    with contextlib.redirect_stdout(io.StringIO()):
        from metku.structures.steel.end_plate_joint import EndPlateJoint  # noqa: F401
    warnings.simplefilter('ignore')
    T = chk.tier == 'thorough'
    cat = joints()
    rec = [record(c) for c in cat]
    bolts = {20: dict({'as': 2450}, lb=round(10 * (2 * 3 + (12.5 + 18) / 2))), 24: dict({'as': 3530}, lb=round(10 * (2 * 4 + (15 + 21.5) / 2)))}
    tps, bps, es, ds = ({10, 15, 25}, {210, 240, 320}, {50, 60}, {20, 24}) if T else ({12, 20}, {220, 310}, {55, 60}, {20, 24})
    betas, sigmas = ({50, 75, 100, 140}, {0, 90}) if T else ({75, 100, 140}, {0, 90})
    ap, af = {}, {}
    chart = 0
    for i, c in enumerate(cat):
        for bp in bps:
            for e in es:
                for mv in (0, 1):
                    z, mc, ec, mp, m2p, m2c = geometry(c, bp, e, mv)
                    ap[i + 1, bp, e, mv] = round(1000 * alpha_plate(e, mp, m2p))
                    for r in range(len(z)):
                        a = alpha_chart(ec, mc, m2c[r])
                        chart += a is not None
                        af[i + 1, r + 1, bp, e, mv] = round(1000 * (a or alpha_plate(ec, mc, m2c[r])))
    consts = dict(Joints=tla(rec), Tps=tla(tps), Bps=tla(bps), Es=tla(es), Ds=tla(ds), Betas=tla(betas), Sigmas=tla(sigmas),
                  Stiffs=tla({1, 2}), AlphaP=table(ap), AlphaF=table(af), BoltData=table({k: tla(v) for k, v in bolts.items()}))
    none = dict(Classes='{}', E1s='{}', E2s='{}', P1s='{}', P2s='{}', Fus='{}')
    g = chk.graph('Bolts', defs=dict(consts, Modes=tla({'joint'}), **none), properties=['Equilibrium', 'Maximal', 'StiffnessSane'])
    ties = sum(1 for es_ in g.out.values() for a, _ in es_ if a['op'] == 'bend' and a['res']['tie'])
    bends = sum(1 for es_ in g.out.values() for a, _ in es_ if a['op'] == 'bend')
    chk.notes['joints'] = f'{len(cat)} joints, {len(g.states)} states, {g.n} transitions, {ties} of {bends} bending answers at a tie of failure modes'
    if ties * 3 > bends:
        raise MachineryError(f'{ties} of {bends} states have ties')
    chk.replay(lambda s: Joint(cat, s), g.tours(chk.rng, max_len=300), 'joints')
    one = dict(consts, Joints=tla(rec[:1]), Tps='{10}', Bps='{200}', Es='{50}', Ds=tla({12, 16, 20, 24, 30, 36}), Modes=tla({'bolt'}),
               Classes=tla({46, 48, 56, 58, 68, 88, 109} if T else {46, 58, 88, 109}), E1s=tla({20, 40, 80, 160}), E2s=tla({25, 50, 90}),
               P1s=tla({40, 75, 160}), P2s=tla({45, 80, 160}), Fus=tla({360, 510, 700} if T else {360, 510}))
    g = chk.graph('Bolts', defs=one)
    chk.replay(lambda s: One(s), g.tours(chk.rng, max_len=100), 'bolts')
