----------------------------- MODULE CodeTables -----------------------------
(* Case analyses of EN 1993-1-1 that section and member design rests on:     *)
(* Table 5.2 (limits of c/t of the classes of a compressed part), Table B.3  *)
(* (equivalent uniform moment factor) and Table B.1 (interaction factors).   *)
(* Everything is in integers.  A limit is reported as an interval <<lo, hi>> *)
(* in 1/1000 that contains it (epsilon is irrational), a factor as a         *)
(* fraction <<num, den>>.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Grades,     \* yield strengths, N/mm2
          Alphas,     \* positions of the plastic neutral axis, 1/20
          Psis,       \* stress ratios > -1, 1/20
          PsiRoots,   \* stress ratios <= -1 are -(q/10)^2
          Moments,    \* values of end and span moments
          Slend, Util, Cms, \* slendernesses 1/10, utilisations 1/10, moment factors 1/20
          Dims,       \* <<height, width (smaller flange), flange thickness (thicker flange)>>, mm
          Modes
VARIABLES turn, act
St == [turn |-> turn]
View == turn
(* ------------------------------- numbers -------------------------------- *)
Abs(x) == IF x < 0 THEN -x ELSE x
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
\* floor of the square root by bisection
RECURSIVE Bis(_, _, _)
Bis(x, a, b) == IF b - a <= 1 THEN a
                ELSE LET m == (a + b) \div 2 IN IF m * m <= x THEN Bis(x, m, b) ELSE Bis(x, a, m)
Sqrt(x) == Bis(x, 0, 46340)
\* epsilon = sqrt(235/fy) in 1/10000: Eps(fy) <= 10^4 epsilon < Eps(fy) + 2
Eps(fy) == Sqrt((235000000 \div fy) * 100 + ((235000000 % fy) * 100) \div fy)
Fr(a, b) == IF b < 0 THEN <<-a, -b>> ELSE <<a, b>>
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
FMax(x, y) == IF Leq(x, y) THEN y ELSE x
FMin(x, y) == IF Leq(x, y) THEN x ELSE y
\* c * epsilon, c = k/d, in 1/1000
Times(k, d, fy) == <<((k * Eps(fy)) \div d) \div 10, ((k * (Eps(fy) + 2)) \div d) \div 10 + 1>>
(* --------------------- Table 5.2: limits of c/t ------------------------- *)
Comp(fy) == <<Times(33, 1, fy), Times(38, 1, fy), Times(42, 1, fy)>>
Bend(fy) == <<Times(72, 1, fy), Times(83, 1, fy), Times(124, 1, fy)>>
Outstand(fy) == <<Times(9, 1, fy), Times(10, 1, fy), Times(14, 1, fy)>>
\* tubes: 50, 70, 90 epsilon^2, rational
Tube(fy) == LET l(c) == <<(c * 235 * 1000) \div fy, (c * 235 * 1000) \div fy + 1>> IN <<l(50), l(70), l(90)>>
NoLimit == <<1000000000, 1000000000>>
\* alpha = a/20; the two branches meet at alpha = 1/2
Plastic(a, hi, lo, fy) ==
    IF a = 0 THEN NoLimit
    ELSE IF 2 * a > 20 THEN Times(20 * hi, 13 * a - 20, fy)
    ELSE Times(20 * lo, 2 * a, fy)          \* lo = 2 * 36, 2 * 41.5
Elastic(p, fy) == Times(42 * 2000, 1340 + 33 * p, fy)     \* 42 eps/(0.67 + 0.33 psi)
\* 62 eps (1 - psi) sqrt(-psi), psi = -(q/10)^2
ElasticRev(q, fy) == LET k == 62 * (100 + q * q) * q
                     IN <<((k \div 100) * (Eps(fy) \div 10)) \div 10 - 40, ((k \div 100 + 1) * (Eps(fy) \div 10 + 1)) \div 10 + 40>>
BendComp(a, el, fy) == <<Plastic(a, 396, 72, fy), Plastic(a, 456, 83, fy), el>>
(* ----------------- Table B.3: equivalent moment factor ------------------ *)
Cm(m1, m2, ms, load) ==
    LET h == IF Abs(m1) > Abs(m2) THEN m1 ELSE m2       \* larger end moment
        o == IF Abs(m1) > Abs(m2) THEN m2 ELSE m1
        psi == IF h = 0 THEN <<0, 1>> ELSE Fr(o, h)
        linear == FMax(<<6 * psi[2] + 4 * psi[1], 10 * psi[2]>>, <<4, 10>>)
    IN IF 2 * ms = m1 + m2 THEN linear
       ELSE IF Abs(ms) > Abs(h)
       THEN LET al == Fr(h, ms)
                w == IF al[1] < 0 /\ psi[1] < 0 THEN <<psi[2] + 2 * psi[1], psi[2]>> ELSE <<1, 1>>
            IN IF load = "uniform" THEN <<19 * al[2] * w[2] + al[1] * w[1], 20 * al[2] * w[2]>>
               ELSE <<9 * al[2] * w[2] + al[1] * w[1], 10 * al[2] * w[2]>>
       ELSE LET al == Fr(ms, h)
                c == IF al[1] >= 0 THEN <<2 * al[2] + 8 * al[1], 10 * al[2]>>
                     ELSE LET first == IF load = "uniform"
                                       THEN IF psi[1] >= 0 THEN <<1, 10>> ELSE <<psi[2] - psi[1], 10 * psi[2]>>
                                       ELSE IF psi[1] >= 0 THEN <<0, 10>> ELSE <<-2 * psi[1], 10 * psi[2]>>
                          IN <<first[1] * al[2] - ((8 * first[2]) \div 10) * al[1], first[2] * al[2]>>
            IN FMax(c, <<4, 10>>)
(* ------------------ Table B.1: interaction factors ---------------------- *)
\* l = slenderness in 1/10, u = NEd/NbRd in 1/10, c = Cm in 1/20, cl = section class
Kyy(l, u, c, cl) == LET s == IF cl < 3 THEN <<Min(l - 2, 8) * 10, 100>> ELSE <<Min(6 * l, 60), 100>>
                    IN <<c * (1000 + s[1] * u), 20000>>
Kzz(l, u, c, cl, hollow) ==
    LET s == IF cl < 3 THEN IF hollow THEN Min(l - 2, 8) * 10 ELSE Min(2 * l - 6, 14) * 10 ELSE Min(6 * l, 60)
    IN <<c * (1000 + s * u), 20000>>
\* members susceptible to torsional deformations; CmLT = c/20, CmLT - 0.25 = (c - 5)/20
KzyT(l, u, c, cl) ==
    LET r(f, x) == <<(c - 5) * 1000 - f * 20 * x * u, (c - 5) * 1000>>      \* 1 - (f/10) (x/10)/(CmLT-0.25) u/10
        half(x) == <<(c - 5) * 2000 - 20 * x * u, (c - 5) * 2000>>          \* factor 0.05
    IN IF cl < 3 THEN IF l < 4 THEN FMin(<<6 + l, 10>>, r(1, l)) ELSE r(1, Min(l, 10))
       ELSE half(Min(l, 10))
(* ------------- Tables 6.2, 6.4, 6.5: buckling curves -------------------- *)
\* about the major axis, about the minor axis, lateral torsional general, lateral torsional of I-sections
RolledCurves(h, b, tf, fy) ==
    LET slim == 10 * h > 12 * b
        strong == fy > 420
        yz == IF slim THEN IF tf <= 40 THEN IF strong THEN <<"a0", "a0">> ELSE <<"a", "b">>
                           ELSE IF strong THEN <<"a", "a">> ELSE <<"b", "c">>
              ELSE IF tf <= 100 THEN IF strong THEN <<"a", "a">> ELSE <<"b", "c">>
                   ELSE IF strong THEN <<"c", "c">> ELSE <<"d", "d">>
    IN yz \o (IF h <= 2 * b THEN <<"a", "b">> ELSE <<"b", "c">>)
WeldedCurves(h, b, tf) == (IF tf <= 40 THEN <<"b", "c">> ELSE <<"c", "d">>) \o (IF h <= 2 * b THEN <<"c", "c">> ELSE <<"d", "d">>)
Worse(x, y) == LET rank == [a0 |-> 0, a |-> 1, b |-> 2, c |-> 3, d |-> 4] IN rank[x] >= rank[y]
(* ------------------------------- actions -------------------------------- *)
Init == turn = 0 /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Step(a) == act' = a /\ UNCHANGED turn
Parts == /\ "part" \in Modes
         /\ \E fy \in Grades :
              \/ Step([op |-> "part", kind |-> "comp", fy |-> fy, limits |-> Comp(fy)])
              \/ Step([op |-> "part", kind |-> "bend", fy |-> fy, limits |-> Bend(fy)])
              \/ Step([op |-> "part", kind |-> "outstand", fy |-> fy, limits |-> Outstand(fy)])
              \/ Step([op |-> "part", kind |-> "tube", fy |-> fy, limits |-> Tube(fy)])
              \/ \E a \in Alphas :
                   \/ \E p \in Psis : Step([op |-> "part", kind |-> "combined", fy |-> fy, a |-> a, p |-> p, q |-> 0,
                                            limits |-> BendComp(a, Elastic(p, fy), fy)])
                   \/ \E q \in PsiRoots : Step([op |-> "part", kind |-> "combined", fy |-> fy, a |-> a, p |-> 0, q |-> q,
                                                limits |-> BendComp(a, ElasticRev(q, fy), fy)])
Diagrams == /\ "cm" \in Modes
            /\ \E m1 \in Moments, m2 \in Moments, ms \in Moments, ld \in {"uniform", "point"} :
                 Step([op |-> "cm", m1 |-> m1, m2 |-> m2, ms |-> ms, load |-> ld, cm |-> Cm(m1, m2, ms, ld)])
Factors == /\ "k" \in Modes
           /\ \E l \in Slend, u \in Util, c \in Cms, cl \in 1..4 :
                Step([op |-> "k", l |-> l, u |-> u, c |-> c, cl |-> cl, kyy |-> Kyy(l, u, c, cl),
                      hollow |-> Kzz(l, u, c, cl, TRUE), open |-> Kzz(l, u, c, cl, FALSE), tors |-> KzyT(l, u, c, cl)])
Curves == /\ "curve" \in Modes
          /\ \E d \in Dims, fy \in Grades :
               \/ Step([op |-> "curve", kind |-> "rolled", d |-> d, fy |-> fy, curves |-> RolledCurves(d[1], d[2], d[3], fy)])
               \/ \E w \in {0, 40, 200}, x \in {0, 5, 20}, up \in BOOLEAN :
                    Step([op |-> "curve", kind |-> "welded", d |-> d, w |-> w, x |-> Min(x, d[3] - 4), up |-> up, fy |-> fy,
                          curves |-> WeldedCurves(d[1], d[2], d[3])])
Next == Parts \/ Diagrams \/ Factors \/ Curves
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St]))
(* ------------------------------ properties ------------------------------ *)
vars == <<turn, act>>
\* the classes of plastic design are nested, and less room is left the higher the grade
Nested == [][act'.op = "part" => (act'.limits[1][1] <= act'.limits[2][1])]_vars
\* the factor lies between 0.4 and 1
CmRange == [][act'.op = "cm" => /\ Leq(act'.cm, <<1, 1>>) /\ act'.cm[2] > 0
                                /\ Leq(<<4, 10>>, act'.cm)]_vars
\* turning the member or the sign of the whole diagram changes nothing
CmSymmetric == [][act'.op = "cm" => LET x == Cm(act'.m2, act'.m1, act'.ms, act'.load)
                                        y == Cm(-act'.m1, -act'.m2, -act'.ms, act'.load)
                                    IN Leq(x, act'.cm) /\ Leq(act'.cm, x) /\ Leq(y, act'.cm) /\ Leq(act'.cm, y)]_vars
\* buckling about the minor axis is never on a better curve, nor is the other flange thickness or depth limit
CurvesOrdered == [][act'.op = "curve" => /\ Worse(act'.curves[2], act'.curves[1])
                                         /\ \A e \in Dims : (act'.kind = "welded" /\ e[3] <= act'.d[3] /\ e[1] * act'.d[2] <= act'.d[1] * e[2])
                                               => \A k \in 1..4 : Worse(act'.curves[k], WeldedCurves(e[1], e[2], e[3])[k])]_vars
=============================================================================
