"""C33: fin plate joints, plates and the cost of making joints."""
import contextlib
import io
import warnings
from math import hypot, pi, sqrt

from common import tla

warnings.simplefilter('ignore')
warnings.filterwarnings('ignore')

GM0, GM1, GM2 = 1.0, 1.0, 1.25
FU = {235: 360, 275: 430, 355: 510}


def quiet(fn, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **kw)


def beam(kind, size, g):
    from metku.sections.steel.ISection import HEA, IPE
    return dict(HEA=HEA, IPE=IPE)[kind](size, fy=g)


def beam_record(kind, size, g):
    b = quiet(beam, kind, size, g)
    return dict(kind=kind, size=size, g=g, h=round(b.h), b=round(b.b), tf10=round(10 * b.tf), tw10=round(10 * b.tw), r=round(b.r))


def bolt_record(d, cls, length):
    from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
    b = quiet(Bolt, d, cls, length=length)
    return dict(d=d, cls=str(cls), len=round(b.length), full=b.bolt_type == 'Full thread', d0=d + (1 if d < 16 else 2 if d < 27 else 3))


def make_bolt(r):
    from metku.eurocodes.en1993.en1993_1_8.en1993_1_8 import Bolt
    return quiet(Bolt, r['d'], float(r['cls']), length=float(r['len']))


class Prices:
    """Unit prices: of the cost centres (money per minute) and of the catalogues; the times and quantities come from the
    specification and from the formulas below (Haapio 2012)."""

    def __init__(self):
        from metku.cost import cost_data, workshop
        self.ws = workshop.Workshop()
        self.rate = {k: sum(c.costs.values()) / c.utility for k, c in self.ws.cost_centres.items()}
        self.power = workshop.cost_energy_min
        self.paint = workshop.paints['alkyd']
        self.steel = cost_data.BASIC_STEEL_PRICE
        self.ft, self.pt = cost_data.bolt_unit_cost_full_thread, cost_data.bolt_unit_cost_part_thread
        self.nut, self.washer = cost_data.nut_unit_cost, cost_data.washer_unit_cost

    def cut(self, t, length, idle=3.0, plasma=None):
        plasma = t <= 30 if plasma is None else plasma
        if plasma:
            speed = 8.9212 * t ** 2 - 486.87 * t + 8155.8
            per = 0.071 * 0.3 + 40 / 480 + 72 * self.power
        else:
            speed = -4.1939 * t + 658.67
            per = 0.0063 * 18.40 + (0.025 + 1e-5 * t ** 2 + 0.001 * t + 0.0224) * 4.18
        tp = length / speed
        return (tp + idle) * self.rate['cutting'] + tp * per

    def painting(self, area):
        time, money = 0.0, 0.0
        for vs, dft, eur in zip(self.paint['vol_solid'], self.paint['DFT'], self.paint['price']):
            vol = (dft * 1e-3 + 0.01 + 0.3 * dft * 1e-3) / vs * area       # mm3
            time += vol / 900000
            money += vol * 1e-6 * eur
        return time * self.rate['painting'] + money

    def blasting(self, length):
        tp = length / 3000
        return tp * (self.rate['blasting'] + 0.042 * 0.75 + 40 * self.power)

    def welding(self, a, length, kind='fillet'):
        if kind == 'fillet':
            tp, w = length * 1e-3 * (0.4988 * a ** 2 - 0.0005 * a + 0.0021), length * a ** 2 * 7850e-9
        else:
            tp, w = length * 1e-3 * (0.249 * a ** 2 + 0.0096 * a - 0.0506), length * a ** 2 / 2 * 7850e-9
        tp += 0.5 + 0.5 + 0.27 + 3 * 0.09 + 0.05
        return tp * (self.rate['assembly_welding'] + 6 * self.power) + w * (1.66 + 0.4 * 3.79)

    def sawing(self, w, r):
        tp = wear = 0.0
        for _ in range(2):
            tp += w['h'] / 2.0 / r['speed'] + w['ah'] / 1800
            wear += w['at'] / (1800 * 1350 * r['wear'] / 100) * 170
        return (r['idle'] / 100 + tp) * self.rate['sawing'] + tp * 10 * self.power + wear

    def plate(self, p, rim):
        out = dict(material=p['vol'] * 7850e-9 * (self.steel + p['eurt']) * 1e-3,
                   cutting=self.cut(p['t'], p['rim']), painting=self.painting(p['paint']), blasting=self.blasting(p['long']))
        if rim:
            out['welding'] = self.welding(rim, p['rim'])
        if p['holes']:
            out['holes'] = self.cut(p['t'], p['holes'] * pi)
        return out

    def bolts(self, r, b):
        return (r['bolts'] * (self.ft if b['full'] else self.pt)[b['len']][b['d']] + r['nuts'] * self.nut[b['d']]
                + r['washers'] * self.washer[b['d']])


def same(what, got, want, tol=1e-6):
    if abs(got - want) > tol * max(1.0, abs(want)):
        raise AssertionError(f'{what}: {got} instead of {want}')


def kept(x):
    return getattr(x, '_cost', None)


def parts(what, got, want, total):
    for k in (set(got) | set(want) if got else ()):   # total only, where parts are not kept
        same(f'{what}: {k}', got.get(k, 0.0), want.get(k, 0.0))
    same(f'{what}: total', total, sum(want.values()))


class Edited:
    """An object whose dimensions are edited; x is the index of every choice."""

    def __init__(self, choices, prices, init):
        self.choices, self.prices = choices, prices
        self.x = dict(init)
        self.start()

    def v(self, k):
        return self.choices[k][self.x[k] - 1]

    def apply(self, a):
        if a['op'] == 'set':
            k = a['k']
            self.x[k] = next(i + 1 for i, c in enumerate(self.choices[k]) if c == a['v'])
            quiet(self.put, k, self.v(k))
        else:
            quiet(getattr(self, a['op']), a['r'])

    def project(self):
        for k, v in self.read().items():
            if v != self.v(k):
                raise AssertionError(f'{k} is {v} instead of {self.v(k)}')
        return dict(self.x)


class Fin(Edited):
    def start(self):
        from metku.structures.steel.fin_plate_joint import FinPlateJoint
        from metku.structures.steel.plates import RectPlateWithHoles
        v = self.v
        b = v('bolt')
        plate = quiet(RectPlateWithHoles, v('bp'), v('hp'), v('tp'), b['d0'], [v('x0'), 50], px=v('p2'), py=v('p1'), n1=v('n1'), n2=v('n2'),
                      material=f'S{v("grade")}')
        bm = v('beam')
        self.j = quiet(FinPlateJoint, quiet(beam, bm['kind'], bm['size'], bm['g']), plate, make_bolt(b), v('gh'))
        self.j.workshop = self.prices.ws
        self.j.plate_pos_y, self.j.weld_size, plate.weld_size = v('pos'), v('weld'), v('rim')

    def put(self, k, v):
        from metku.materials.steel_data import Steel
        j = self.j
        if k in ('n1', 'n2'):
            setattr(j.plate, k, v)
        elif k in ('hp', 'bp', 'tp', 'p1', 'p2', 'gh'):
            setattr(j, k, v)
        elif k == 'x0':
            j.plate.x0[0] = v
        elif k == 'bolt':
            j.bolt = make_bolt(v)
        elif k == 'beam':
            j.beam = beam(v['kind'], v['size'], v['g'])
        elif k == 'grade':
            j.plate.material = Steel(f'S{v}')
        elif k == 'pos':
            j.plate_pos_y = v
        elif k == 'weld':
            j.weld_size = v
        else:
            j.plate.weld_size = v

    def read(self):
        j = self.j
        return dict(n1=j.plate.n1, n2=j.plate.n2, hp=j.hp, bp=j.bp, tp=j.tp, p1=j.p1, p2=j.p2, gh=j.gh, x0=j.plate.x0[0], pos=j.plate_pos_y,
                    weld=j.weld_size, rim=j.plate.weld_size)

    def group(self, r, fver, fhor):
        """Shear force at which the worst bolt of the group, loaded at distance z, is used up: elastic distribution."""
        z, n, jp = r['z2'] / 2, r['n'], r['j4'] / 4
        worst = 0.0
        for px, py in r['pos']:
            ver, hor = 1 / n + z * px / 2 / jp, z * py / 2 / jp
            worst = max(worst, hypot(ver / fver, hor / fhor))
        return 1 / worst

    def resist(self, r):
        j, v = self.j, self.v
        b, bm = v('bolt'), v('beam')
        tp, hp, z = v('tp'), v('hp'), r['z2'] / 2
        fy, fu = v('grade'), FU[v('grade')]
        sec = beam(bm['kind'], bm['size'], bm['g'])
        bfy, bfu, tw = bm['g'], FU[bm['g']], sec.tw
        e1, e1b, e2, e2b = r['e1x2'] / 2, r['e1bx2'] / 2, r['e2'], r['e2b']
        for n, want in (('e1', e1), ('e2', e2), ('e1b', e1b), ('e2b', e2b), ('z', z)):
            same(n, getattr(j, n), want)
        d, d0 = b['d'], b['d0']
        fv = make_bolt(b).shear_resistance()
        same('shear of the bolts', j.bolt_shear(), self.group(r, fv, fv))
        fub = {8.8: 800, 10.9: 1000}[float(b['cls'])]
        p1, p2 = v('p1'), v('p2') if v('n2') > 1 else 1e5

        def bearing(along, across, pitch, fu, t):
            k1 = min(2.8 * across / d0 - 1.7, 1.4 * pitch / d0 - 1.7, 2.5)
            return k1 * min(along / 3 / d0, fub / fu, 1) * fu * d * t / GM2
        same('bearing of the fin plate', j.fin_plate_bearing(), self.group(r, bearing(e1, e2, p2, fu, tp), bearing(e2, e1, p1, fu, tp)))
        same('bearing of the web', j.beam_web_bearing(), self.group(r, bearing(e1b, e2b, p2, bfu, tw), bearing(e2b, e1b, p1, bfu, tw)))
        same('gross shear of the fin plate', j.fin_plate_shear_gross(), hp * tp / 1.27 * fy / sqrt(3) / GM0)
        same('net shear of the fin plate', j.fin_plate_shear_net(), r['net'] * fu / sqrt(3) / GM2)
        same('block tearing of the fin plate', j.fin_plate_block_tearing(),
             0.5 * fu * r['antp'] / 2 / GM2 + r['anvp'] / 2 * fy / sqrt(3) / GM0)
        same('bending of the fin plate', j.fin_plate_bending(), tp * hp ** 2 / 6 * fy / GM0 / z)
        self.ltb(r, tp, hp, fy)
        av = float(sec.Ashear[1])
        same('gross shear of the web', j.beam_web_shear_gross(), av * bfy / sqrt(3) / GM0)
        same('net shear of the web', j.beam_web_shear_net(), (av - r['webnet'] * tw) * bfu / sqrt(3) / GM2)
        same('block tearing of the web', j.beam_web_block_tearing(),
             tw * (0.5 * bfu * r['ant'] / 2 / GM2 + r['anv'] / 2 * bfy / sqrt(3) / GM0))
        if bool(j.check_bolt_position()) != r['ok']:
            raise AssertionError(f'bolt positions accepted: {not r["ok"]}')

    def ltb(self, r, tp, hp, fy):
        from metku.eurocodes.en1993.constants import E
        w = tp * hp ** 2 / 6
        z, first = r['z2'] / 2, self.v('x0')

        def rd(zp):
            lam = 2.8 / (pi * sqrt(E / fy)) * sqrt(zp * hp / 1.5 / tp ** 2)
            phi = 0.5 * (1 + 0.76 * (lam - 0.2) + lam ** 2)
            chi = min(1.0, 1 / (phi + sqrt(phi ** 2 - lam ** 2)))
            free = 20 * zp < 20 * tp / 0.15
            return w * fy / z * (1.0 if free else min(chi / 0.6 / GM1, 1 / GM0))
        got = self.j.fin_plate_ltb()
        if first == z:
            same('lateral-torsional buckling of the fin plate', got, rd(z))
        elif not (1 - 1e-9) * rd(z) <= got <= (1 + 1e-9) * rd(first):
            raise AssertionError(f'lateral-torsional buckling of the fin plate: {got} not in {rd(z)} ... {rd(first)}')

    def cost(self, r):
        P, j = self.prices, self.j
        total = j.cost(P.ws)
        plate = P.plate(r['plate'], r['rimweld'])
        tw = beam(self.v('beam')['kind'], self.v('beam')['size'], self.v('beam')['g']).tw
        want = dict(plate=sum(plate.values()), welding=P.welding(r['size'], r['weld']), bolts=P.bolts(r, self.v('bolt')))
        want['beam holes'] = P.cut(tw, r['holes'] * pi)
        parts('fin plate joint', kept(j), want, total)
        total = j.plate.cost(P.ws, P.steel)
        parts('plate', kept(j.plate), plate, total)


class End(Edited):
    def start(self):
        from metku.eurocodes.en1993.en1993_1_8 import en1993_1_8 as ec
        from metku.sections.steel.ISection import HEB
        import metku.structures.steel.end_plate_joint as ep
        v = self.v
        bm = v('beam')
        n = v('rows')
        self.j = quiet(ep.EndPlateJoint, quiet(HEB, 300, fy=355), quiet(beam, bm['kind'], bm['size'], bm['g']), tp=v('tp'), bp=v('bp'),
                       mat_p=f'S{v("grade")}', etop=v('etop'), ebottom=v('ebot'), bolt=make_bolt(v('bolt')),
                       y_bolts=[100 - 60 * i for i in range(n)], e_bolts=40,
                       bolt_row_pos=[dict(flange=ec.END_ROW, plate=ec.OTHER_END_ROW)] * n, row_types=[ec.TENSION_ROW] * n)
        self.j.weld_f, self.j.weld_w = v('wf'), v('ww')
        self.stiffen(v('stiff'))

    def stiffen(self, v):
        from metku.structures.steel.plates import RectPlate
        self.j.stiffeners['col_top_flange'] = RectPlate(100, 262, v, 'S355') if v else None

    def put(self, k, v):
        from metku.materials.steel_data import Steel
        j = self.j
        if k in ('tp', 'bp', 'etop'):
            setattr(j, k, v)
        elif k == 'bolt':
            b = make_bolt(v)
            for row in j.bolt_rows:
                row.bolt = b
        elif k == 'grade':
            j.end_plate.material = Steel(f'S{v}')
        elif k in ('wf', 'ww'):
            setattr(j, 'weld_' + k[1], v)
        elif k == 'stiff':
            self.stiffen(v)
        else:                                      # the beam, the rows and the lower edge are those the joint was made with
            self.start()

    def read(self):
        j = self.j
        return dict(tp=j.tp, bp=j.bp, etop=j.etop, ebot=j.ebottom, wf=j.weld_f, ww=j.weld_w, rows=len(j.bolt_rows))

    def cost(self, r):
        P, j = self.prices, self.j
        total = j.cost(P.ws)
        plate = P.plate(r['plate'], r['rimweld'])
        want = dict(plate=sum(plate.values()), bolts=P.bolts(r, self.v('bolt')),
                    welding=P.welding(r['wf'], r['flange10'] / 10 + r['arcs'] * pi / 2) + P.welding(r['ww'], r['web10'] / 10))
        if r['stiff']:
            t = r['stiff']
            eurt = {8: 23, 10: 12, 12: 0}[t] + 35
            want['col_top_flange'] = sum(P.plate(dict(vol=100 * 262 * t, eurt=eurt, t=t, rim=724, paint=2 * 26200 + 724 * t, long=262, holes=0), 0).values())
        # the holes of the end plate, or those of the plate and of the column flange
        holes = total - sum(want.values())
        lo = P.cut(r['plate']['t'], r['holes'] * pi)
        hi = lo + P.cut(19.0, r['holes'] * pi)
        if not lo * (1 - 1e-9) <= holes <= hi * (1 + 1e-9):
            raise AssertionError(f'holes of the end plate joint: {holes} not in {lo} ... {hi}')
        want['holes'] = holes
        parts('end plate joint', kept(j), want, total)


class Shop:
    def __init__(self, prices, init):
        from metku.cost.workshop import Workshop
        self.prices, self.x = prices, dict(init)
        self.ws = Workshop()

    def project(self):
        return dict(self.x)

    def apply(self, a):
        w, r, P, c = a['w'], a['r'], self.prices, self.ws.cost_centres
        self.x['last'] = w['i']
        k = w['k']
        if k == 'cut':
            got, want = c['cutting'].cost(w['t'], w['len']), P.cut(w['t'], w['len'], r['idle'] / 100, r['plasma'])
        elif k == 'paint':
            got, want = c['painting'].cost(w['area']), P.painting(w['area'])
        elif k == 'blast':
            got, want = c['blasting'].cost(w['len']), P.blasting(w['len'])
        elif k == 'weld':
            args = () if w['kind'] == 'default' else (w['kind'],)
            got, want = c['assembly_welding'].cost(w['a'], w['len'], *args), P.welding(w['a'], w['len'], 'butt' if w['kind'] == 'butt' else 'fillet')
        else:
            got = c['sawing'].cost(w['len'], w['bevels'], w['grade'], [w['h']] * 2, [w['t']] * 2, [w['ah']] * 2, [w['at']] * 2)
            want = P.sawing(w, r)
        same(f'cost of {w}', got, want)


def jobs():
    out = [dict(k='cut', t=t, len=n) for t in (6, 30, 31, 50) for n in (400, 1500)]
    out += [dict(k='paint', area=a) for a in (120000, 900000)]
    out += [dict(k='blast', len=n) for n in (300, 6000)]
    out += [dict(k='weld', a=a, len=n, kind=m) for a, n, m in ((4, 500, 'default'), (6, 900, 'fillet'), (8, 500, 'butt'), (10, 300, 'butt'))]
    out += [dict(k='saw', len=n, bevels=b, grade=g, h=h, t=t, ah=ah, at=at) for n, b, g, h, t, ah, at in
            ((4000, 0, 'S355', 100, 5, 1000, 1900), (2000, 2, 'S420', 100, 6, 1200, 2200), (8000, 1, 'S355', 200, 10, 4000, 7500),
             (6000, 0, 'S235', 300, 16, 6000, 9000), (6000, 0, 'S700', 300, 21, 6000, 9000), (1000, 2, 'S500', 50, 26, 900, 2000),
             (1000, 0, 'S690', 50, 33, 900, 2000), (1000, 0, 'S550', 50, 40, 900, 2000),
             (3000, 1, 'S355', 150, 12, 1800, 3000), (3000, 1, 'S355', 150, 15, 1800, 3000), (3000, 0, 'S355', 150, 20, 1800, 3000),
             (3000, 0, 'S355', 150, 25, 1800, 3000), (3000, 2, 'S355', 150, 30, 1800, 3000), (3000, 1, 'S355', 150, 35, 1800, 3000))]
    return [dict(w, i=i + 1) for i, w in enumerate(out)]


def fin_choices(variant):
    b1, b2, b3 = bolt_record(20, 8.8, 50), bolt_record(24, 8.8, 60), bolt_record(16, 10.9, 45)
    i3, i4, he = beam_record('IPE', 300, 235), beam_record('IPE', 400, 355), beam_record('HEA', 300, 355)
    if variant == 0:
        return dict(n1=[3, 2], n2=[1, 2], hp=[230, 210, 240], bp=[110, 190], tp=[10, 8], x0=[60, 50, 75], p1=[70, 60, 40], p2=[0, 60, 50], gh=[10, 15],
                    pos=[0, 10, -12], bolt=[b1, b2], beam=[i3, i4], grade=[235, 355], weld=[5, 8], rim=[0, 4])
    if variant == 1:
        return dict(n1=[4, 3], n2=[2, 1], hp=[280, 260], bp=[180, 160], tp=[12, 20, 5], x0=[60, 90], p1=[65, 80], p2=[60, 75], gh=[20, 10],
                    pos=[0, 20], bolt=[b2, b3], beam=[i4, he], grade=[355, 275], weld=[6, 4], rim=[5, 0])
    return dict(n1=[2, 5], n2=[1, 2], hp=[150, 290], bp=[130, 200], tp=[8, 10, 15], x0=[50, 80, 45], p1=[60, 50], p2=[60, 45], gh=[10, 5],
                pos=[0, -20], bolt=[b3, b1], beam=[he, i4], grade=[275, 235], weld=[4, 5], rim=[0, 3])


def end_choices():
    b1, b2 = bolt_record(20, 8.8, 50), bolt_record(24, 10.9, 70)
    return dict(beam=[beam_record('IPE', 300, 355), beam_record('HEA', 260, 355)], rows=[2, 3], tp=[15, 20], bp=[200, 220], etop=[20, 85], ebot=[20, 30],
                bolt=[b1, b2], grade=[355, 235], wf=[5, 7], ww=[4, 5], stiff=[0, 8, 12])


def value(v):
    return '<<' + ', '.join(tla(x) for x in v) + '>>'


def choices(c):
    return '[' + ', '.join(f'{k} |-> {value(v)}' for k, v in c.items()) + ']'


def run(chk):
    prices = Prices()
    inv = ['Closed', 'Balance', 'Sections', 'Painted', 'Matching']
    for i in range(3):
        c = fin_choices(i)
        g = chk.graph('FinPlate', defs=dict(Kind='"fin"', Choices=choices(c), MaxOff=str(chk.pick(2, 4)), Jobs='<<>>'), invariants=inv)
        chk.replay(lambda init, c=c: Fin(c, prices, init), g.tours(chk.rng, max_len=80, edge_budget=chk.pick(3500, None)), f'FinPlate/fin{i}')
        chk.replay(lambda init, c=c: Fin(c, prices, init), g.walks(chk.rng, chk.pick(20, 200), 60), f'FinPlate/fin{i}')
    c = end_choices()
    g = chk.graph('FinPlate', defs=dict(Kind='"end"', Choices=choices(c), MaxOff=str(chk.pick(2, 4)), Jobs='<<>>'), invariants=inv)
    chk.replay(lambda init: End(c, prices, init), g.tours(chk.rng, max_len=80, edge_budget=chk.pick(2500, None)), 'FinPlate/end')
    w = jobs()
    g = chk.graph('FinPlate', defs=dict(Kind='"shop"', Choices=choices(dict(last=[0] * len(w))), MaxOff='1', Jobs=value(w)), invariants=inv)
    chk.replay(lambda init: Shop(prices, init), g.tours(chk.rng, max_len=200, edge_budget=None), 'FinPlate/shop')
