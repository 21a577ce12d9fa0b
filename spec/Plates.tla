------------------------------- MODULE Plates -------------------------------
(* Plate buckling of welded I sections (EN 1993-1-5): which plates of the    *)
(* section are only partly effective, what a web carries in shear and under  *)
(* a concentrated force, and Tables 4.1, 4.2 and 5.1 as exact fractions.     *)
(* Lengths are integers; `w` is the leg of the welds along web and flanges.  *)
(* Dimensions, grade, forces and stiffeners change; answers depend on their  *)
(* present values only.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Heights, Widths, Flanges, Webs, Grades,
          Spacings,                \* of stiffeners, as <<num, den>> times the web height; <<0, 1>>: none
          Axial, Moment,           \* force over resistance of the flanges, percent
          Bases,                   \* initial sections
          Loads,                   \* concentrated forces <<type, bearing length, end distance>>
          Psi, Slender,            \* stress ratios in tenths, plate slendernesses in hundredths
          Depth
VARIABLES d, steps, act
vars == <<d, steps, act>>
St == [d |-> d, steps |-> steps]
View == <<d, steps>>
Abs(x) == IF x < 0 THEN -x ELSE x
Min(x, y) == IF x < y THEN x ELSE y
hw(s) == s.h - s.tt - s.tb
cw(s) == hw(s) - 2 * s.w
\* twice the outstand of a flange
ct2(s) == s.bt - s.tw - 2 * s.w
cb2(s) == s.bb - s.tw - 2 * s.w
(* ------------------------- plates of the section ------------------------ *)
\* slenderness limits as  c^2 fy > K t^2,  K = (limit * 28.4)^2 * 235 * ksigma
OutstandK == 45602            \* 0.748, 0.43
CompK == 343604               \* 0.5 + sqrt(0.085 - 0.055), 4
BendK == 3461700              \* 0.5 + sqrt(0.085 + 0.055), 23.9
Far(x, y) == Abs(x - y) > y \div 500        \* not on the border
FlangeIn(c2, t, fy) == (c2 * c2 * fy) \div 4 > OutstandK * t * t
FlangeClear(c2, t, fy) == Far((c2 * c2 * fy) \div 4, OutstandK * t * t)
WebIn(s, k) == cw(s) * cw(s) * s.fy > k * s.tw * s.tw
Reduced(s, how) ==
    [top |-> FlangeIn(ct2(s), s.tt, s.fy),
     bottom |-> how = "comp" /\ FlangeIn(cb2(s), s.tb, s.fy),
     web |-> WebIn(s, IF how = "comp" THEN CompK ELSE BendK)]
\* class 4 of Table 5.2 (a coarser rule) implies a reduction
Class4Flange(c2, t, fy) == (c2 * c2 * fy) \div 4 > 14 * 14 * 235 * t * t
Class4Comp(s) == cw(s) * cw(s) * s.fy > 42 * 42 * 235 * s.tw * s.tw
(* -------------------------------- shear --------------------------------- *)
Eta10(s) == IF s.fy <= 460 THEN 12 ELSE 10
Stocky(s) == hw(s) * hw(s) * s.fy < (IF Eta10(s) = 12 THEN 846000 ELSE 1218240) * s.tw * s.tw
\* buckling coefficient in hundredths, rounded
Ktau(s) == LET n == s.a[1] m == s.a[2] IN
    IF n = 0 THEN 534 ELSE IF n >= m THEN 534 + (400 * m * m) \div (n * n) ELSE 400 + (534 * m * m) \div (n * n)
\* square of the web slenderness against a limit (L = limit^2 * 190000 / 0.5776 / 100)
ShearL(s, L) == L * s.tw * s.tw * Ktau(s)
ShearX(s) == hw(s) * hw(s) * s.fy
Low(s) == IF Eta10(s) = 12 THEN 1574 ELSE 2266       \* 0.83 / eta
High == 3837                                         \* 1.08
ShearRow(s) == IF Stocky(s) THEN "plain" ELSE IF ShearX(s) < ShearL(s, Low(s)) THEN "full"
               ELSE IF ShearX(s) < ShearL(s, High) THEN "elastic" ELSE "slender"
\* axial force and moment over what the flanges carry: nothing is left for shear at 1
FlangesLeft(s) == s.n < 100 /\ s.m < 100 - s.n
Weaker(s) == IF s.bt * s.tt <= s.bb * s.tb THEN "top" ELSE "bottom"
Clear(s) == /\ FlangeClear(ct2(s), s.tt, s.fy) /\ FlangeClear(cb2(s), s.tb, s.fy)
            /\ Far(ShearX(s), CompK * s.tw * s.tw) /\ Far(cw(s) * cw(s) * s.fy, CompK * s.tw * s.tw)
            /\ Far(cw(s) * cw(s) * s.fy, BendK * s.tw * s.tw)
            /\ Far(ShearX(s), (IF Eta10(s) = 12 THEN 846000 ELSE 1218240) * s.tw * s.tw)
            /\ Far(ShearX(s), ShearL(s, Low(s))) /\ Far(ShearX(s), ShearL(s, High))
            /\ s.n # 100 /\ s.m # 100 - s.n
(* ------------------------ tables, exact fractions ----------------------- *)
\* p: stress ratio in tenths; buckling factors as <<numerator, denominator>>
KInternal(p) == IF p = 10 THEN <<4, 1>> ELSE IF p > 0 THEN <<8200, 1050 + 100 * p>> ELSE IF p = 0 THEN <<781, 100>>
                ELSE IF p > -10 THEN <<78100 - 6290 * p + 978 * p * p, 10000>>
                ELSE IF p = -10 THEN <<239, 10>> ELSE <<598 * (10 - p) * (10 - p), 10000>>
KTip(p) == IF p = 10 THEN <<43, 100>> ELSE IF p = 0 THEN <<57, 100>> ELSE IF p = -10 THEN <<85, 100>>
           ELSE <<5700 - 210 * p + 7 * p * p, 10000>>
KSupport(p) == IF p = 10 THEN <<43, 100>> ELSE IF p > 0 THEN <<5780, 1000 * p + 3400>> ELSE IF p = 0 THEN <<17, 10>>
               ELSE IF p > -10 THEN <<17000 - 5000 * p + 1710 * p * p, 10000>> ELSE <<238, 10>>
\* l: slenderness in hundredths;  l/100 > 0.5 + sqrt(0.085 - 0.055 p/10)
PastInternal(l, p) == l > 50 /\ (l - 50) * (l - 50) * 10 > 8500 - 550 * p
RhoInternal(l, p) == IF PastInternal(l, p) THEN LET n == (1000 * l - 55 * (300 + 10 * p)) IN
                        IF n >= 10 * l * l THEN <<1, 1>> ELSE <<n, 10 * l * l>>
                     ELSE <<1, 1>>
RhoOutstand(l) == IF l * 10 > 748 THEN <<100 * l - 1880, l * l>> ELSE <<1, 1>>
\* effective widths as shares of the plate: <<whole, next to the larger compression>>
WidthInternal(p) == IF p = 10 THEN [all |-> <<1, 1>>, first |-> <<1, 2>>]
                    ELSE IF p > 0 THEN [all |-> <<1, 1>>, first |-> <<20, 50 - p>>]
                    ELSE [all |-> <<10, 10 - p>>, first |-> <<2, 5>>]
WidthOutstand(p) == IF p >= 0 THEN <<1, 1>> ELSE <<10, 10 - p>>
(* ------------------------------- actions -------------------------------- *)
Fits(s) == cw(s) > 0 /\ ct2(s) > 0 /\ cb2(s) > 0 /\ Clear(s)
Init == /\ d \in Bases /\ Fits(d) /\ steps = 0 /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Become(s, a) == s # d /\ Fits(s) /\ d' = s /\ steps' = steps + 1 /\ act' = a
Values(k) == CASE k = "h" -> Heights [] k \in {"bt", "bb"} -> Widths [] k \in {"tt", "tb"} -> Flanges [] k = "tw" -> Webs
               [] k = "n" -> Axial [] k = "m" -> Moment [] k = "a" -> Spacings [] OTHER -> {}
Change == /\ steps < Depth
          /\ \/ \E k \in {"h", "bt", "bb", "tt", "tb", "tw", "n", "m", "a"} : \E v \in Values(k) :
                    Become([d EXCEPT ![k] = v], [op |-> "set", k |-> k, v |-> v])
             \/ \E fy \in Grades : Become([d EXCEPT !.fy = fy], [op |-> "set", k |-> "fy", v |-> fy])
Same(a) == UNCHANGED <<d, steps>> /\ act' = a
Parts == \E how \in {"comp", "bend"} : Same([op |-> "parts", how |-> how, red |-> Reduced(d, how),
                   four |-> [flange |-> Class4Flange(ct2(d), d.tt, d.fy), web |-> Class4Comp(d)]])
Shear == \E post \in {"rigid", "non-rigid"} : Same([op |-> "shear", post |-> post, row |-> ShearRow(d), eta |-> Eta10(d),
                   left |-> FlangesLeft(d), weaker |-> Weaker(d)])
Force == \E f \in Loads : Same([op |-> "force", kind |-> f[1], ss |-> f[2], c |-> f[3]])
Table == \E p \in Psi : \E l \in Slender : /\ steps = 0 /\ d = CHOOSE b \in Bases : TRUE
              /\ (l - 50) * (l - 50) * 10 # 8500 - 550 * p
              /\ Same([op |-> "table", p |-> p, l |-> l, internal |-> KInternal(p), tip |-> KTip(p), support |-> KSupport(p),
                       rho |-> RhoInternal(l, p), outst |-> RhoOutstand(l), wide |-> WidthInternal(p), share |-> WidthOutstand(p)])
Next == Change \/ Parts \/ Shear \/ Force \/ Table
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> [d |-> d', steps |-> steps']]))
(* ------------------------------ properties ------------------------------ *)
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
\* a plate that buckles in bending buckles in compression; class 4 means reduced
Nested == /\ \A k \in {"top", "bottom", "web"} : Reduced(d, "bend")[k] => Reduced(d, "comp")[k]
          /\ Class4Flange(ct2(d), d.tt, d.fy) => Reduced(d, "bend").top
          /\ Class4Comp(d) => Reduced(d, "comp").web
\* thicker is not worse
Rank(r) == CASE r = "plain" -> 0 [] r = "full" -> 1 [] r = "elastic" -> 2 [] OTHER -> 3
Thicker == \A v \in Webs : v >= d.tw => LET s == [d EXCEPT !.tw = v] IN
              /\ Rank(ShearRow(s)) <= Rank(ShearRow(d))
              /\ (cw(s) > 0 => (Reduced(s, "comp").web => Reduced(d, "comp").web))
\* stiffeners help
Stiffened == \A a \in Spacings : (d.a[1] = 0 \/ (a[1] > 0 /\ a[1] * d.a[2] <= d.a[1] * a[2])) =>
              Rank(ShearRow([d EXCEPT !.a = a])) <= Rank(ShearRow(d))
\* tables: less compression never lowers the buckling factor (by more than the rounding of the tables),
\* reductions are at most one and fall with the slenderness
V(x) == (1000 * x[1]) \div x[2]
Loose(x, y) == V(x) <= V(y) + V(y) \div 250 + 1
Small(p) == p >= -10
Tables == /\ \A p, q \in Psi : p < q => /\ Loose(KInternal(q), KInternal(p))
                                        /\ ((Small(p) /\ Small(q)) => Loose(KTip(q), KTip(p)) /\ Loose(KSupport(q), KSupport(p)))
          /\ \A p \in Psi : \A l, k \in Slender : /\ RhoInternal(l, p)[1] <= RhoInternal(l, p)[2]
                                                  /\ (l < k => Loose(RhoInternal(k, p), RhoInternal(l, p)) /\ Loose(RhoOutstand(k), RhoOutstand(l)))
ASSUME TablesHold == Tables
=============================================================================
