------------------------------- MODULE Bolts -------------------------------
(* Bolted end-plate beam-to-column joints, EN 1993-1-8: Table 3.4, T-stubs   *)
(* (6.2.4, Tables 6.4 to 6.6), components (6.2.6), tension rows from the top *)
(* down (6.2.7.2), stiffness (6.3.2, 6.3.3).  The joint is a state machine:  *)
(* its dimensions, bolts, transformation parameter, axial stress of the      *)
(* column and stiffeners change one at a time, and every answer belongs to   *)
(* the present ones.                                                         *)
(* Units: section dimensions and coordinates 1/10 mm, T-stub lengths         *)
(* 1/100 mm, forces 10 N, stiffness coefficients 1/10000 mm, factors 1/10000 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Joints,    \* sequence of joints (column, beam, rows, welds)
          Tps, Bps, Es, Ds, Betas, Sigmas, Stiffs,
          AlphaP, AlphaF,    \* alpha/1000 of the row next to the beam flange (end plate) or stiffener (column flange)
          BoltData,  \* diameter -> [as |-> stress area 1/10 mm2, lb |-> heads, nuts and washers 1/10 mm]
          Modes, Classes, E1s, E2s, P1s, P2s, Fus
VARIABLES j, tp, bp, e, d, beta, sig, mv, st, act
vars == <<j, tp, bp, e, d, beta, sig, mv, st, act>>
St == [j |-> j, tp |-> tp, bp |-> bp, e |-> e, d |-> d, beta |-> beta, sig |-> sig, mv |-> mv, st |-> st]
View == St
(* ------------------------------- numbers -------------------------------- *)
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
Abs(x) == IF x < 0 THEN -x ELSE x
Inf == 100000000
RECURSIVE Bis(_, _, _)
Bis(x, a, b) == IF b - a <= 1 THEN a
                ELSE LET m == (a + b) \div 2 IN IF m * m <= x THEN Bis(x, m, b) ELSE Bis(x, a, m)
Sqrt(x) == Bis(x, 0, 46340)
RECURSIVE Sum(_, _, _)
Sum(f, a, b) == IF a > b THEN 0 ELSE f[a] + Sum(f, a + 1, b)
RECURSIVE MinOf(_)
MinOf(S) == LET x == CHOOSE y \in S : TRUE IN IF S = {x} THEN x ELSE Min(x, MinOf(S \ {x}))
Pi(x) == (x * 3550) \div 1130
(* ------------------------------ geometry -------------------------------- *)
J == Joints[j]
N == Len(J.z)                              \* tension rows
Ext == J.ext                               \* the first row is outside the beam
Z(r) == IF r = N /\ mv = 1 THEN J.z[r] - 150 ELSE J.z[r]
First == IF Ext THEN 2 ELSE 1              \* row next to the tension flange, inside
W == 10 * bp - 20 * e                      \* distance of the bolts in a row
Arm(r) == Z(r) + (J.hb - J.tfb) \div 2     \* centre of compression: middle of the bottom flange
MC == 5 * (W - J.twc) - 8 * J.rc           \* column flange
EC == 100 * e + 5 * (J.bc - 10 * bp)
NC == Min(Min(100 * e, EC), (5 * MC) \div 4)
\* the plate between the flanges, and its extension (the row outside): 0.8 sqrt 2 a = 113 a/100
MP == 5 * (W - J.twb) - 113 * J.aw
MX == 10 * Z(1) - 5 * J.hb - 113 * J.af
EX == 5 * J.hb + 100 * J.etop - 10 * Z(1)
TopStiff == st \in {2, 3}
BottomStiff == st \in {1, 3}
(* -------------------- effective lengths, Tables 6.4 - 6.6 --------------- *)
Pitch(a, b) == 10 * (Z(a) - Z(b))
AF(r) == AlphaF[<<j, r, bp, e, mv>>]
AP == AlphaP[<<j, bp, e, mv>>]
NextToStiffener(r) == TopStiff /\ (r = First \/ (Ext /\ r = 1))
\* column flange, a row on its own
FlCp(r) == 2 * Pi(MC)
FlNc(r) == IF NextToStiffener(r) THEN (AF(r) * MC) \div 1000 ELSE 4 * MC + (5 * EC) \div 4
\* column flange, row r of the group a..b
FlEnd == 2 * MC + (5 * EC) \div 8
FlCpG(r, a, b) == IF r = a THEN Pi(MC) + Pitch(r, r + 1) ELSE IF r = b THEN Pi(MC) + Pitch(r - 1, r) ELSE Pitch(r - 1, r + 1)
FlNcG(r, a, b) ==
    IF r # a /\ r # b THEN Pitch(r - 1, r + 1) \div 2
    ELSE LET p == IF r = a THEN Pitch(r, r + 1) ELSE Pitch(r - 1, r)
         IN p \div 2 + (IF NextToStiffener(r) THEN (AF(r) * MC) \div 1000 - FlEnd ELSE FlEnd)
\* end plate, a row on its own
PlCp(r) == IF Ext /\ r = 1 THEN MinOf({2 * Pi(MX), Pi(MX) + 10 * W, Pi(MX) + 200 * e}) ELSE 2 * Pi(MP)
PlNc(r) == IF Ext /\ r = 1
           THEN MinOf({4 * MX + (5 * EX) \div 4, 100 * e + 2 * MX + (5 * EX) \div 8, 50 * bp, 5 * W + 2 * MX + (5 * EX) \div 8})
           ELSE IF r = First THEN (AP * MP) \div 1000 ELSE 4 * MP + 125 * e
PlEnd == 2 * MP + (125 * e) \div 2
PlCpG(r, a, b) == IF r = a THEN Pi(MP) + Pitch(r, r + 1) ELSE IF r = b THEN Pi(MP) + Pitch(r - 1, r) ELSE Pitch(r - 1, r + 1)
PlNcG(r, a, b) ==
    IF r # a /\ r # b THEN Pitch(r - 1, r + 1) \div 2
    ELSE LET p == IF r = a THEN Pitch(r, r + 1) ELSE Pitch(r - 1, r)
         IN p \div 2 + (IF r = First THEN (AP * MP) \div 1000 - PlEnd ELSE PlEnd)
(* ------------------------- T-stubs, 6.2.4 ------------------------------- *)
BoltT(k) == k * ((72 * J.fub * BoltData[d].as) \div 10000)     \* k bolts in tension
\* flange t (1/10 mm), yield strength fy: resistances of the three modes
Stub(cp, nc, t, fy, m, n, bolts) ==
    LET l1 == Min(cp, nc)
        f1 == ((((l1 \div 10) * t * t) \div m) * fy) \div 100
        f2 == ((((nc \div 10) * t * t) \div (m + n)) * fy) \div 200 + (n * BoltT(bolts)) \div (m + n)
        f3 == BoltT(bolts)
    IN [f |-> Min(f1, Min(f2, f3)), l |-> IF f1 <= f2 /\ f1 <= f3 THEN l1 ELSE nc,
        tie |-> l1 # nc /\ Abs(f1 - Min(f2, f3)) * 250 < f1]
(* --------------------------- components --------------------------------- *)
\* Table 6.3, reduction for shear in the column web; beta in 1/100
Omega(b) ==
    LET x == (b * J.twc * 10) \div J.avc
        w1 == 100000000 \div Sqrt(100000000 + ((x * x) \div 10) * 13)
        w2 == 100000000 \div Sqrt(100000000 + ((x * x) \div 10) * 52)
    IN IF beta <= 50 THEN 10000
       ELSE IF beta <= 100 THEN w1 + ((100 - beta) * (10000 - w1)) \div 50
       ELSE w1 + ((beta - 100) * (w2 - w1)) \div 100
WebTension(b) == ((((((b * J.twc) \div 100) * J.fyc) \div 100)) * (Omega(b) \div 10)) \div 1000
BeamWeb(b) == (((b * J.twb) \div 100) * J.fyb) \div 100
BeffC == 10 * J.tfb + 283 * J.af + 50 * (J.tfc + J.rc)
         + Min(200 * tp, 100 * tp + 100 * J.ebot - 141 * J.af)
\* welded stiffener at the compression flange: thickness ts, width of each side bs (1/10 mm), no buckling
FcWc ==
    IF BottomStiff
    THEN LET eps == Sqrt((235 * 1000000) \div J.fyc)
             as == (((30 * eps * J.twc) \div 1000 + J.ts) * J.twc) \div 100 + (2 * J.bs * J.ts) \div 100
         IN (as * J.fyc) \div 10
    ELSE LET dd == J.hc - 2 * J.tfc - 2 * J.rc
             q == (((BeffC \div 10) * dd) \div (J.twc * J.twc)) * 100
                  + ((((BeffC \div 10) * dd) % (J.twc * J.twc)) * 100) \div (J.twc * J.twc)
             lam2 == (((q * J.fyc) \div 21) * 869) \div 1000
             lam == Sqrt(100 * lam2)
             rho == IF lam <= 7200 THEN 10000 ELSE ((lam - 2000) * 100000) \div (lam2 \div 10)
             k == IF sig <= 70 THEN 100 ELSE 170 - sig
         IN (((WebTension(BeffC) * (rho \div 2)) \div 5000) * k) \div 100
MplFc == (((J.bc * J.tfc) \div 100) * J.tfc * J.fyc) \div 40      \* N mm
MplSt == (((J.bc * J.ts) \div 100) * J.ts * J.fyc) \div 40
Vwp == (J.avc * J.fyc * 90) \div 1732
       + (IF st = 3 THEN Min(4 * MplFc, 2 * MplFc + 2 * MplSt) \div (J.hb - J.tfb) ELSE 0)
FcFb == (J.wpl * J.fyb * 1000) \div (J.hb - J.tfb)
Compression == MinOf({(Vwp * 100) \div beta, FcWc, FcFb})
RowStubs(r) ==
    [flange |-> Stub(FlCp(r), FlNc(r), J.tfc, J.fyc, MC, NC, 2),
     plate |-> IF Ext /\ r = 1 THEN Stub(PlCp(r), PlNc(r), 10 * tp, J.fyp, MX, Min(EX, (5 * MX) \div 4), 2)
               ELSE Stub(PlCp(r), PlNc(r), 10 * tp, J.fyp, MP, Min(Min(100 * e, EC), (5 * MP) \div 4), 2)]
Own(r) == LET s == RowStubs(r)
          IN [f |-> MinOf({s.flange.f, s.plate.f, WebTension(s.flange.l), IF Ext /\ r = 1 THEN Inf ELSE BeamWeb(s.plate.l)}),
              tie |-> s.flange.tie \/ s.plate.tie]
\* a group reaching across the beam flange has no common yield lines in the plate, one across a stiffener none in the column flange
Group(a, b) ==
    LET fl == Stub(Sum([r \in a..b |-> FlCpG(r, a, b)], a, b), Sum([r \in a..b |-> FlNcG(r, a, b)], a, b),
                   J.tfc, J.fyc, MC, NC, 2 * (b - a + 1))
        pl == Stub(Sum([r \in a..b |-> PlCpG(r, a, b)], a, b), Sum([r \in a..b |-> PlNcG(r, a, b)], a, b),
                   10 * tp, J.fyp, MP, Min(Min(100 * e, EC), (5 * MP) \div 4), 2 * (b - a + 1))
        flange == ~(TopStiff /\ Ext /\ a = 1)
        plate == ~(Ext /\ a = 1)
    IN [f |-> Min(IF flange THEN Min(fl.f, WebTension(fl.l)) ELSE Inf, IF plate THEN Min(pl.f, BeamWeb(pl.l)) ELSE Inf),
        tie |-> (flange /\ fl.tie) \/ (plate /\ pl.tie)]
Groups == {<<a, b>> \in (1..N) \X (1..N) : a < b}
(* ----------------- forces in the rows, from the top, 6.2.7.2 ------------ *)
RECURSIVE Fill(_, _, _, _)
Fill(r, f, own, g) ==
    IF r > N THEN f
    ELSE Fill(r + 1, Append(f, Max(0, MinOf({own[r]} \cup {g[p] - Sum(f, p[1], r - 1) : p \in {q \in Groups : q[1] <= r /\ r <= q[2]}}))), own, g)
RECURSIVE Limit(_, _, _)
Limit(r, f, rest) == IF r > N THEN f ELSE LET x == Min(f[r], rest) IN Limit(r + 1, [f EXCEPT ![r] = x], rest - x)
Rows ==
    LET own == [r \in 1..N |-> Own(r)]
        grp == [p \in Groups |-> Group(p[1], p[2])]
        f == Fill(1, <<>>, [r \in 1..N |-> own[r].f], [p \in Groups |-> grp[p].f])
        lim == Limit(1, f, Compression)
    IN [own |-> [r \in 1..N |-> own[r].f], force |-> lim, comp |-> Compression,
        groups |-> [a \in 1..N |-> [b \in 1..N |-> IF a < b THEN grp[<<a, b>>].f ELSE 0]],
        moment |-> Sum([r \in 1..N |-> lim[r] * Arm(r)], 1, N),
        tie |-> (\E r \in 1..N : own[r].tie) \/ (\E p \in Groups : grp[p].tie)]
(* ------------------------ stiffness, 6.3 -------------------------------- *)
Cube(t, m) == LET x == (t * 100000) \div m IN ((x * x) \div 1000) * x         \* (t/m)^3, t 1/10, m 1/100 mm, in 1e-9
LFlange(r) == MinOf({FlCp(r), FlNc(r)} \cup UNION {{FlCpG(r, p[1], p[2]), FlNcG(r, p[1], p[2])} : p \in {q \in Groups : q[1] <= r /\ r <= q[2]}})
LPlate(r) == MinOf({PlCp(r), PlNc(r)} \cup
                   (IF Ext /\ r = 1 THEN {}
                    ELSE UNION {{PlCpG(r, p[1], p[2]), PlNcG(r, p[1], p[2])} :
                                p \in {q \in Groups : q[1] <= r /\ r <= q[2] /\ ~(Ext /\ q[1] = 1)}}))
Dwc == J.hc - 2 * J.tfc - 2 * J.rc
K3(r) == (((7 * LFlange(r)) \div 10) * J.twc * 100) \div Dwc
Plate9(l, t, m) == LET c == Cube(t, m)
                   IN IF c < 30000000 THEN ((((c \div 100) * (l \div 10)) \div 10000) * 9) \div 10
                      ELSE (((c \div 10000) * (l \div 10)) \div 1000) * 9 \* 0.9 l (t/m)^3 in 1/10000 mm
K4(r) == Plate9(LFlange(r), J.tfc, MC)
K5(r) == Plate9(LPlate(r), 10 * tp, IF Ext /\ r = 1 THEN MX ELSE MP)
K10 == (BoltData[d].as * 16000) \div (10 * tp + J.tfc + BoltData[d].lb)
Inverse(k) == 1000000000 \div k
Keff(r) == 1000000000 \div (Inverse(K3(r)) + Inverse(K4(r)) + Inverse(K5(r)) + Inverse(K10))
Stiffness ==
    LET k == [r \in 1..N |-> Keff(r)]
        kh == [r \in 1..N |-> ((k[r] \div 10) * Arm(r)) \div 100]                   \* 1/100 mm * mm
        all == Sum(kh, 1, N)
        w == [r \in 1..N |-> (kh[r] * 1000) \div (all \div 10)]
        z == Sum([r \in 1..N |-> w[r] * Arm(r)], 1, N) \div Sum(w, 1, N)
        keq == (all * 500) \div (z \div 2)
        k1 == (J.avc * 38000) \div ((beta * z) \div 100)
        k2 == (((7 * BeffC) \div 10) * J.twc * 100) \div Dwc
        inv == Inverse(k1) + (IF BottomStiff THEN 0 ELSE Inverse(k2)) + Inverse(keq)
    IN [z |-> z, keq |-> keq, k |-> 1000000000 \div inv, rows |-> k]
(* ------------------------- Table 3.4: one bolt -------------------------- *)
Fub(c) == CASE c \in {46, 48} -> 400 [] c \in {56, 58} -> 500 [] c = 68 -> 600 [] c = 88 -> 800 [] OTHER -> 1000
\* resistance factor/100 of a bolt in shear through the thread
AlphaV(c) == IF c \in {46, 56, 88} THEN 60 ELSE 50
Hole(s) == IF s < 16 THEN s + 1 ELSE IF s < 27 THEN s + 2 ELSE s + 3
FrMin(x, y) == IF x[1] * y[2] <= y[1] * x[2] THEN x ELSE y
\* k1 and alpha_b as fractions; the loads act along direction 1
K1(s, e2, p2, edge) == LET h == Hole(s)
                           a == <<28 * e2 - 17 * h, 10 * h>>
                           b == <<14 * p2 - 17 * h, 10 * h>>
                       IN FrMin(<<25, 10>>, IF edge THEN FrMin(a, b) ELSE b)
AlphaB(s, c, fu, e1, p1, edge) == LET h == Hole(s)
                                      a == IF edge THEN <<e1, 3 * h>> ELSE <<4 * p1 - 3 * h, 12 * h>>
                                  IN FrMin(<<1, 1>>, FrMin(<<Fub(c) \div 10, fu \div 10>>, a))
(* ------------------------------- actions -------------------------------- *)
Init == /\ j \in 1..Len(Joints) /\ tp \in {MinOf(Tps)} /\ bp \in {MinOf(Bps)} /\ e \in {MinOf(Es)} /\ d \in {MinOf(Ds)}
        /\ beta = 100 /\ sig = 0 /\ mv = 0 /\ st = 0
        /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Dims == "joint" \in Modes
SetTp == Dims /\ \E v \in Tps \ {tp} : tp' = v /\ act' = [op |-> "tp", v |-> v] /\ UNCHANGED <<j, bp, e, d, beta, sig, mv, st>>
SetBp == Dims /\ \E v \in Bps \ {bp} : bp' = v /\ act' = [op |-> "bp", v |-> v] /\ UNCHANGED <<j, tp, e, d, beta, sig, mv, st>>
SetE == Dims /\ \E v \in Es \ {e} : e' = v /\ act' = [op |-> "ebolts", v |-> v] /\ UNCHANGED <<j, tp, bp, d, beta, sig, mv, st>>
SetD == Dims /\ \E v \in Ds \ {d} : d' = v /\ act' = [op |-> "bolt", v |-> v] /\ UNCHANGED <<j, tp, bp, e, beta, sig, mv, st>>
SetBeta == Dims /\ \E v \in Betas \ {beta} : beta' = v /\ act' = [op |-> "beta", v |-> v] /\ UNCHANGED <<j, tp, bp, e, d, sig, mv, st>>
SetSig == Dims /\ \E v \in Sigmas \ {sig} : sig' = v /\ act' = [op |-> "sigma", v |-> v] /\ UNCHANGED <<j, tp, bp, e, d, beta, mv, st>>
Move == Dims /\ mv' = 1 - mv /\ act' = [op |-> "move", v |-> mv'] /\ UNCHANGED <<j, tp, bp, e, d, beta, sig, st>>
Stiffen == Dims /\ \E k \in Stiffs : /\ st' = (CASE st = 0 -> k [] st = 1 /\ k = 2 -> 3 [] st = 2 /\ k = 1 -> 3 [] OTHER -> st)
                                     /\ st' # st /\ act' = [op |-> "stiffen", v |-> k]
                                     /\ UNCHANGED <<j, tp, bp, e, d, beta, sig, mv>>
Same == UNCHANGED <<j, tp, bp, e, d, beta, sig, mv, st>>
Bend == Dims /\ Same /\ act' = [op |-> "bend", res |-> Rows]
Stiff == Dims /\ ~TopStiff /\ Same /\ act' = [op |-> "stiff", res |-> Stiffness]
Bolt == /\ "bolt" \in Modes /\ Same
        /\ \E s \in Ds, c \in Classes, fu \in Fus, e1 \in E1s, e2 \in E2s, p1 \in P1s, p2 \in P2s, x \in BOOLEAN, y \in BOOLEAN :
             act' = [op |-> "one", s |-> s, c |-> c, fu |-> fu, e |-> <<e1, e2>>, p |-> <<p1, p2>>, perp |-> x, load |-> y,
                     fub |-> Fub(c), av |-> AlphaV(c), d0 |-> Hole(s), k1 |-> K1(s, e2, p2, x), ab |-> AlphaB(s, c, fu, e1, p1, y)]
Next == SetTp \/ SetBp \/ SetE \/ SetD \/ SetBeta \/ SetSig \/ Move \/ Stiffen \/ Bend \/ Stiff \/ Bolt
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
(* ------------------------------ properties ------------------------------ *)
Bending == act'.op = "bend"
\* no row, group or the compression side is asked for more than it has
Equilibrium == [][Bending => /\ \A r \in 1..N : act'.res.force[r] >= 0 /\ act'.res.force[r] <= act'.res.own[r]
                             /\ \A p \in Groups : Sum(act'.res.force, p[1], p[2]) <= act'.res.groups[p[1]][p[2]]
                             /\ Sum(act'.res.force, 1, N) <= act'.res.comp]_vars
\* a row is held back only when something is used up
Maximal == [][Bending => \A r \in 1..N : \/ act'.res.force[r] = act'.res.own[r]
                                         \/ Sum(act'.res.force, 1, N) = act'.res.comp
                                         \/ \E p \in Groups : p[1] <= r /\ r <= p[2] /\ Sum(act'.res.force, p[1], p[2]) = act'.res.groups[p[1]][p[2]]]_vars
\* the equivalent lever arm lies between those of the rows, and no row in series is stiffer than its bolts
StiffnessSane == [][act'.op = "stiff" => /\ act'.res.z <= Arm(1) + 1 /\ act'.res.z >= Arm(N) - 1
                                         /\ act'.res.k <= act'.res.keq + 1
                                         /\ \A r \in 1..N : act'.res.rows[r] <= K10]_vars
=============================================================================
