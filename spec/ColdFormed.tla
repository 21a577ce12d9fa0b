----------------------------- MODULE ColdFormed -----------------------------
(* Thin-walled open sections (EN 1993-1-3, Annex C) as polylines with        *)
(* integer coordinates and wall lengths, cold-formed C and Z sections with   *)
(* the parts that are effective under a load, and the design rules of        *)
(* EN 1993-1-3 for connections, local forces and sheeting as fractions.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,          \* "poly", "section" or "rules"
          Shapes,        \* polylines [n |-> nodes, t |-> thicknesses]
          Thick,         \* wall thicknesses
          Shifts,        \* translations <<dy, dz>>
          Depth,
          Profiles,      \* C and Z sections, lengths in hundredths
          Loads,
          Screws,        \* <<t, t1, d>> in hundredths
          Webs,          \* webs under a local force
          Pairs,         \* sheeting (two webs) under a local force
          Sheets,        \* purlins with sheeting
          Lambdas, Ratios, Averages, Edges
VARIABLES d, steps, act
vars == <<d, steps, act>>
St == [d |-> d, steps |-> steps]
View == <<d, steps>>
Abs(x) == IF x < 0 THEN -x ELSE x
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
RECURSIVE Sum(_, _)
Sum(f, i) == IF i = 0 THEN 0 ELSE f[i] + Sum(f, i - 1)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Isqrt(n) == Root(n, 0, 40001)
(* ------------------------------ polylines ------------------------------- *)
N(s) == Len(s.t)
Len2(s, i) == (s.n[i + 1][1] - s.n[i][1]) * (s.n[i + 1][1] - s.n[i][1]) + (s.n[i + 1][2] - s.n[i][2]) * (s.n[i + 1][2] - s.n[i][2])
Wall(s, i) == Isqrt(Len2(s, i))
Whole(s) == \A i \in 1 .. N(s) : Len2(s, i) > 0 /\ Wall(s, i) * Wall(s, i) = Len2(s, i)
Over(s, F(_)) == Sum([i \in 1 .. N(s) |-> Wall(s, i) * s.t[i] * F(i)], N(s))
Y(s, i) == s.n[i][1]
Z(s, i) == s.n[i][2]
RECURSIVE W(_, _)
W(s, i) == IF i = 1 THEN 0 ELSE W(s, i - 1) + Y(s, i - 1) * Z(s, i) - Y(s, i) * Z(s, i - 1)
One(F(_), i) == F(i) + F(i + 1)
Sq(F(_), i) == F(i) * F(i) + F(i + 1) * F(i + 1) + F(i) * F(i + 1)
Pr(F(_), G(_), i) == 2 * F(i) * G(i) + 2 * F(i + 1) * G(i + 1) + F(i) * G(i + 1) + F(i + 1) * G(i)
\* A, 2 S, 3 I, 6 I and so on: sums over the walls
Props(s) == LET y(i) == Y(s, i) z(i) == Z(s, i) w(i) == W(s, i)
                u(i) == 1 y1(i) == One(y, i) z1(i) == One(z, i) w1(i) == One(w, i)
                yy(i) == Sq(y, i) zz(i) == Sq(z, i) ww(i) == Sq(w, i)
                yz(i) == Pr(y, z, i) yw(i) == Pr(y, w, i) zw(i) == Pr(z, w, i) tt(i) == s.t[i] * s.t[i]
            IN [op |-> "ask", A |-> Over(s, u), Sz2 |-> Over(s, y1), Sy2 |-> Over(s, z1), Iz3 |-> Over(s, yy), Iy3 |-> Over(s, zz),
                Iyz6 |-> Over(s, yz), Iw2 |-> Over(s, w1), Iyw6 |-> Over(s, yw), Izw6 |-> Over(s, zw), Iww3 |-> Over(s, ww),
                It3 |-> Over(s, tt), tmin |-> CHOOSE v \in {s.t[i] : i \in 1 .. N(s)} : \A i \in 1 .. N(s) : v <= s.t[i],
                w |-> [i \in 1 .. N(s) + 1 |-> W(s, i)]]
Become(s, a) == s # d /\ Whole(s) /\ d' = s /\ steps' = steps + 1 /\ act' = a
Insert(q, i, v) == SubSeq(q, 1, i) \o <<v>> \o SubSeq(q, i + 1, Len(q))
At(s, i, k) == <<Y(s, i) + ((Y(s, i + 1) - Y(s, i)) * k) \div 4, Z(s, i) + ((Z(s, i + 1) - Z(s, i)) * k) \div 4>>
Exact(s, i, k) == ((Y(s, i + 1) - Y(s, i)) * k) % 4 = 0 /\ ((Z(s, i + 1) - Z(s, i)) * k) % 4 = 0
Split(i, k) == Exact(d, i, k) /\ Become([n |-> Insert(d.n, i, At(d, i, k)), t |-> Insert(d.t, i, d.t[i])], [op |-> "split", i |-> i, k |-> k])
Shift(v) == Become([d EXCEPT !.n = [i \in 1 .. Len(d.n) |-> <<d.n[i][1] + v[1], d.n[i][2] + v[2]>>]], [op |-> "shift", v |-> v])
Move(i, v) == Become([d EXCEPT !.n[i] = <<@[1] + v[1], @[2] + v[2]>>], [op |-> "move", i |-> i, v |-> v])
SetT(i, v) == Become([d EXCEPT !.t[i] = v], [op |-> "wall", i |-> i, v |-> v])
PolyNext == /\ Mode = "poly"
            /\ \/ UNCHANGED <<d, steps>> /\ act' = Props(d)
               \/ /\ steps < Depth
                  /\ \/ \E i \in 1 .. N(d) : \E k \in {1, 2} : Split(i, k)
                     \/ \E v \in Shifts : Shift(v)
                     \/ \E i \in 1 .. Len(d.n) : \E v \in Shifts : Move(i, v)
                     \/ \E i \in {1, N(d)} : \E v \in Thick : SetT(i, v)
(* ------------------------------- sections ------------------------------- *)
\* plate slenderness in thousandths; k: square root of the buckling factor, thousandths
Slender(p, b, k) == (((b * 1000) \div p.t) * 100) \div ((p.e * k) \div 1000)
Away(l, x) == Abs(l - x) > 3
RhoIn(l) == IF l <= 673 THEN 10000 ELSE ((((l - 220) * 10000) \div l) * 1000) \div l
RhoOut(l) == IF l <= 748 THEN 10000 ELSE ((((l - 188) * 10000) \div l) * 1000) \div l
\* buckling factor of an edge stiffener in thousandths (5.13b, c)
RECURSIVE Cbrt(_, _, _)
Cbrt(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m * m <= n THEN Cbrt(n, m, hi) ELSE Cbrt(n, lo, m)
KEdge(b, lip) == LET r == (1000 * lip) \div b IN IF r <= 350 THEN 500 ELSE 500 + (830 * Cbrt((r - 350) * (r - 350) * 1000, 0, 1000)) \div 1000
Flange(p, b, lip) == IF lip > 0 THEN RhoIn(Slender(p, b, 2000)) ELSE RhoOut(Slender(p, b, 656))
Lip(p, b, lip) == IF lip > 0 THEN RhoOut(Slender(p, lip, Isqrt(1000 * KEdge(b, lip)))) ELSE 10000
Answer(p, load) == [op |-> "effective", load |-> load,
                    top |-> Flange(p, p.bt, p.lt), tlip |-> Lip(p, p.bt, p.lt),
                    bottom |-> IF load = "compression" THEN Flange(p, p.bb, p.lb) ELSE 10000,
                    blip |-> IF load = "compression" THEN Lip(p, p.bb, p.lb) ELSE 10000,
                    web |-> IF load = "compression" THEN RhoIn(Slender(p, p.bw, 2000)) ELSE 0]
\* effective length of the section before distortional buckling, hundredths
Lost(p, r) == (p.bt * (10000 - r.top)) \div 10000 + (p.bb * (10000 - r.bottom)) \div 10000 + (p.bw * (10000 - r.web)) \div 10000
              + (p.lt * (10000 - r.tlip)) \div 10000 + (p.lb * (10000 - r.blip)) \div 10000
SectionNext == /\ Mode = "section" /\ steps < Depth
               /\ \E load \in Loads : /\ d' = [d EXCEPT !.last = load] /\ steps' = steps + 1
                                      /\ act' = LET a == Answer(Profiles[d.p], load) IN
                                           a @@ [lost |-> IF load = "compression" THEN Lost(Profiles[d.p], a) ELSE 0]
(* --------------------------------- rules -------------------------------- *)
\* Table 8.2: bearing of screws; 3.2 sqrt(t / d) <= 2.1
Cap(s) == 1024 * s[1] >= 441 * s[3]
ScrewW(s) == IF s[2] = s[1] THEN <<0, 1>> ELSE IF 2 * s[2] >= 5 * s[1] THEN <<1, 1>> ELSE <<2 * (s[2] - s[1]), 3 * s[1]>>
ScrewA(s) == [op |-> "screw", s |-> s, low |-> IF Cap(s) THEN "cap" ELSE "root",
              high |-> IF s[1] >= 100 \/ Cap(s) THEN "cap" ELSE "root", w |-> ScrewW(s)]
\* validity of Table 8.2, distances in tenths of d
Valid(e) == e.e1 >= 30 /\ e.e2 >= 15 /\ e.p1 >= 30 /\ e.p2 >= 30 /\ e.d >= 30 /\ e.d <= 80
ChiD(l) == IF l <= 65 THEN <<1, 1>> ELSE IF l <= 138 THEN <<147000 - 723 * l, 100000>> ELSE <<66, l>>
\* 3.1: average yield strength
Fya(a) == LET n == a.fyb * a.A + (a.fu - a.fyb) * 7 * a.n * a.t * a.t IN
          IF 2 * n <= (a.fyb + a.fu) * a.A THEN <<n, a.A>> ELSE <<a.fyb + a.fu, 2>>
\* 6.1.7.2: factors of t^2 fyb / gamma; ratios r / t, hw / t, ss / t
K1(w) == <<1330 * 228 - 330 * w.fy, 228000>>
K2(w) == <<Max(Min(115 - 15 * w.rt, 100), 50), 100>>
K3(w) == <<7 * 8100 + 3 * w.phi * w.phi, 81000>>
K4(w) == <<1220 * 228 - 220 * w.fy, 228000>>
K5(w) == <<Min(106 - 6 * w.rt, 100), 100>>
K5s(w) == IF (1490 - 600) * 228 >= 530 * w.fy THEN <<1490 * 228 - 530 * w.fy, 228000>> ELSE <<6, 10>>
K6(w) == <<880 * 19 - 120 * w.t, 19000>>                   \* t in tenths
K7(w) == IF w.hwt < 150 THEN <<750 + w.hwt, 750>> ELSE <<12, 10>>
K8(w) == IF 2 * w.hwt < 133 THEN <<228, w.fy>> ELSE <<(7315 - 10 * w.hwt) * 228, 6650 * w.fy>>
K9(w) == <<820 * 19 + 150 * w.t, 19000>>
K10(w) == <<(8477 - 10 * w.hwt) * 228, 8650 * w.fy>>
K11(w) == <<640 * 19 + 310 * w.t, 19000>>
Lin(a, b, x, den) == <<a * den + b * x, 100 * den>>        \* (a + b x / den) / 100
Factors(w) ==
    IF w.still THEN                      \* rotation of the web is prevented
        CASE ~w.two /\ w.near -> [f |-> <<K7(w)>>, root |-> <<88, 11>>]
          [] ~w.two /\ ~w.near -> [f |-> <<K5s(w), K6(w)>>, root |-> <<132, 0>>]
          [] w.two /\ w.near -> [f |-> <<K10(w), K11(w)>>, root |-> <<88, 11>>]
          [] OTHER -> [f |-> <<K8(w), K9(w)>>, root |-> <<132, 0>>]
    ELSE [root |-> <<0, 0>>, f |->
        CASE ~w.two /\ w.near /\ w.lip -> <<K1(w), K2(w), K3(w), Lin(904, -100, w.hwt, 60), Lin(100, 1, w.sst, 1)>>
          [] ~w.two /\ w.near /\ ~w.lip -> <<K1(w), K2(w), K3(w), Lin(592, -100, w.hwt, 132),
                                             IF w.sst <= 60 THEN Lin(100, 1, w.sst, 1) ELSE Lin(71, 3, w.sst, 2)>>
          [] ~w.two /\ ~w.near -> <<K3(w), K4(w), K5(w), Lin(1470, -1000, w.hwt, 495),
                                    IF w.sst <= 60 THEN Lin(100, 7, w.sst, 10) ELSE Lin(75, 11, w.sst, 10)>>
          [] w.two /\ w.near -> <<K1(w), K2(w), K3(w), Lin(666, -100, w.hwt, 64), Lin(100, 1, w.sst, 1)>>
          [] OTHER -> <<K3(w), K4(w), K5(w), Lin(2100, -1000, w.hwt, 163), Lin(100, 13, w.sst, 100)>>]
\* 6.1.7.3: category and effective bearing length of sheeting; distances in tenths of hw, shear in percent
Category(p) == IF p.kind = "support" \/ p.dist > 15 THEN 2 ELSE 1
Beta(p) == <<p.v1 - p.v2, p.v1 + p.v2>>
Bearing(p) == IF Category(p) = 1 THEN <<10, 1>>
              ELSE IF 5 * Beta(p)[1] <= Beta(p)[2] THEN <<Min(p.ss, 200), 1>>
              ELSE IF 10 * Beta(p)[1] >= 3 * Beta(p)[2] THEN <<10, 1>>
              ELSE <<p.ss * Beta(p)[2] - (10 * Beta(p)[1] - 2 * Beta(p)[2]) * (p.ss - 10), Beta(p)[2]>>
\* 10.17: rotational stiffness of sheeting
Sheet(s) == LET pos == s.pos IN
    [op |-> "sheet", s |-> s,
     kba |-> IF s.ba < 125 THEN <<s.ba * s.ba, 10000>> ELSE <<125 * s.ba, 10000>>,
     p10 |-> IF s.t > 75 /\ pos THEN 11 ELSE 15,
     kbR |-> IF s.bR <= 185 THEN <<1, 1>> ELSE <<185, s.bR>>,
     \* (A - 1) times this many hundred-thousandths
     kA |-> IF ~s.down THEN 0 ELSE IF pos THEN (IF s.t <= 75 THEN 8000 ELSE IF s.t >= 100 THEN 9500 ELSE 8000 + 60 * (s.t - 75))
                                    ELSE (IF s.t <= 75 THEN 16000 ELSE IF s.t >= 100 THEN 9500 ELSE 16000 - 260 * (s.t - 75)),
     C100 |-> IF ~s.down THEN 26 ELSE IF pos THEN 52 ELSE 31,
     kbT |-> LET m == IF s.down /\ ~pos THEN 120 ELSE 40 IN IF s.bT > m THEN <<m, s.bT>> ELSE <<1, 1>>]
Say(a) == UNCHANGED <<d, steps>> /\ act' = a
RuleNext == /\ Mode = "rules"
            /\ \/ \E s \in Screws : Say(ScrewA(s))
               \/ \E l \in Lambdas : Say([op |-> "chid", l |-> l, v |-> ChiD(l)])
               \/ \E r \in Ratios : Say([op |-> "edge", r |-> r, x |-> Max(r - 35, 0)])
               \/ \E a \in Averages : Say([op |-> "fya", a |-> a, v |-> Fya(a)])
               \/ \E w \in Webs : Say([op |-> "web", w |-> w, v |-> Factors(w)])
               \/ \E p \in Pairs : Say([op |-> "pair", p |-> p, cat |-> Category(p), la |-> Bearing(p)])
               \/ \E s \in Sheets : Say(Sheet(s))
               \/ \E e \in Edges : Say([op |-> "valid", e |-> e, v |-> Valid(e)])
Init == /\ d \in (CASE Mode = "poly" -> {s \in Shapes : Whole(s)}
                    [] Mode = "section" -> [p : DOMAIN Profiles, last : {"none"}]
                    [] OTHER -> {0})
        /\ steps = 0 /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Next == PolyNext \/ SectionNext \/ RuleNext
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> [d |-> d', steps |-> steps']]))
(* ------------------------------ properties ------------------------------ *)
Central(s) == LET p == Props(s) IN <<4 * p.A * p.Iy3 - 3 * p.Sy2 * p.Sy2, 4 * p.A * p.Iz3 - 3 * p.Sz2 * p.Sz2,
                                     2 * p.A * p.Iyz6 - 3 * p.Sy2 * p.Sz2, p.It3, p.A>>
\* dividing a wall changes no property, moving the section none about its centroid
Divided == [][act'.op = "split" => \A k \in DOMAIN Props(d) \ {"w"} : Props(d)[k] = Props(d')[k]]_vars
Moved == [][act'.op = "shift" => Central(d) = Central(d')]_vars
Definite == Mode = "poly" => Central(d)[1] >= 0 /\ Central(d)[2] >= 0
\* the parts that are lost never exceed the section; longer or thinner parts are not more effective
Shrink == Mode = "section" => \A load \in Loads : LET p == Profiles[d.p] a == Answer(p, load) IN
    /\ Lost(p, a) < p.total
    /\ a.top <= 10000 /\ a.top > 0 /\ a.web <= 10000
    /\ Answer([p EXCEPT !.t = @ + 20], load).top >= a.top /\ Answer([p EXCEPT !.bt = @ + 200], load).top <= a.top
Le(x, y) == x[1] * y[2] <= y[1] * x[2]
ASSUME RulesHold == Mode = "rules" =>
    /\ \A l, k \in Lambdas : l <= k => (1000 * ChiD(k)[1]) \div ChiD(k)[2] <= (1000 * ChiD(l)[1]) \div ChiD(l)[2] + 6
    /\ \A a \in Averages : Le(<<a.fyb, 1>>, Fya(a)) /\ Le(Fya(a), <<a.fu, 1>>)
    /\ \A p \in Pairs : LET b == Bearing(p) IN Le(<<Min(10, p.ss), 1>>, b) /\ Le(b, <<Max(10, p.ss), 1>>)
    /\ \A s \in Screws : ScrewW(s)[1] >= 0 /\ ScrewW(s)[1] <= ScrewW(s)[2]
    /\ \A w \in Webs : \A i \in 1 .. Len(Factors(w).f) : Factors(w).f[i][1] > 0
=============================================================================
