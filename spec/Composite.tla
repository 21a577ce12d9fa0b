------------------------------ MODULE Composite ------------------------------
(* Composite members, EN 1994-1-1: a concrete or composite slab on a welded  *)
(* I-section (full shear connection, sagging), and a rectangular tube filled *)
(* with concrete and four bars.  Lengths in millimetres, spans in metres,    *)
(* stresses in N/mm2.  Forces of the beam are counted in N/30, so that       *)
(* 0.85 fck / 1.5 = 17 fck / 30 is a whole number.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,                    \* "beam" or "tube"
          Bases, Pool, Depth       \* first members; values of every field
VARIABLES s, steps, act
vars == <<s, steps, act>>
St == [s |-> s, steps |-> steps]
View == <<s, steps>>
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* --------------------------------- beam --------------------------------- *)
Beff(x) == 250 * x.L
Area(x) == x.bt * x.tt + x.hw * x.tw + x.bb * x.tb
Ra(x) == 30 * x.fy * Area(x)
Rf(x) == 30 * x.fy * x.bt * x.tt
Rw(x) == 30 * x.fy * x.hw * x.tw
Rc(x) == 17 * x.fck * x.hc * Beff(x)
\* the part with the plastic neutral axis
Part(x) == IF Ra(x) <= Rc(x) THEN "slab"
           ELSE IF Ra(x) - 2 * Rf(x) <= Rc(x) THEN "flange"
           ELSE IF Ra(x) - 2 * Rf(x) - 2 * Rw(x) <= Rc(x) THEN "web"
           ELSE "bottom"
\* its depth below the upper edge of that part as <<numerator, denominator>>; in the slab a share of the thickness
Depth_(x) == CASE Part(x) = "slab" -> <<Ra(x), Rc(x)>>
              [] Part(x) = "flange" -> <<Ra(x) - Rc(x), 60 * x.bt * x.fy>>
              [] OTHER -> <<Ra(x) - Rc(x) - 2 * Rf(x), 60 * x.tw * x.fy>>
\* compression above the axis and tension below it
Compressed(x) == CASE Part(x) = "slab" -> Ra(x)
                   [] Part(x) = "flange" -> Rc(x) + Depth_(x)[1] \div 2
                   [] OTHER -> Rc(x) + Rf(x) + Depth_(x)[1] \div 2
Pulled(x) == CASE Part(x) = "slab" -> Ra(x)
               [] Part(x) = "flange" -> Ra(x) - Depth_(x)[1] \div 2
               [] OTHER -> Ra(x) - Rf(x) - Depth_(x)[1] \div 2
\* (with equal resultants the axis may be anywhere between slab and beam)
FitsBeam(x) == Part(x) # "bottom" /\ Ra(x) # Rc(x)

(* --------------------------------- tube --------------------------------- *)
\* twice the inner corner radius of a cold-formed tube of wall t
Inner2(t) == IF t <= 6 THEN 2 * t ELSE IF t <= 10 THEN 3 * t ELSE 4 * t
\* areas of the bars and of the concrete, 452 times, with 355/113 for pi
Bars452(x) == 1420 * x.d * x.d
Concrete452(x) == 452 * (x.h - 2 * x.t) * (x.b - 2 * x.t) - 97 * Inner2(x.t) * Inner2(x.t) - Bars452(x)
FewBars(x) == 100 * Bars452(x) <= 3 * Concrete452(x)
Clear(x) == Abs(100 * Bars452(x) - 3 * Concrete452(x)) > Concrete452(x) \div 100
As(x) == Bars452(x) \div 452
Ac(x) == Concrete452(x) \div 452
\* neutral axis in pure bending: hn from the centre, as hn2 / Den half-millimetres; bars of 500 N/mm2
Den(x) == 2 * x.b * x.fck + 4 * x.t * (3 * x.fy - x.fck)
Without(x) == 2 * Ac(x) * x.fck
With(x) == 2 * (Ac(x) * x.fck - As(x) * (1304 - x.fck))
Near(x) == x.h - 2 * x.t - 2 * x.u - 2 * x.d       \* twice the distance to the inner edge of the bars
Far(x) == x.h - 2 * x.t - 2 * x.u                  \* ... to the outer edge
Between(x) == IF Without(x) \div Den(x) + 3 < Near(x) THEN "outside"
              ELSE IF With(x) \div Den(x) - 2 > Far(x) THEN "inside"
              ELSE "partly"
FitsTube(x) == x.b >= 2 * x.t + 4 * x.d + 2 * x.u /\ Near(x) > 0 /\ Clear(x) /\ x.h <= 2 * x.b /\ x.b <= 2 * x.h /\ 10 * x.t <= x.b

Fits(x) == IF Mode = "beam" THEN FitsBeam(x) ELSE FitsTube(x)
Init == /\ s \in Bases /\ Fits(s) /\ steps = 0 /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Same(a) == act' = a /\ UNCHANGED <<s, steps>>
Change == \E f \in DOMAIN s : \E v \in Pool[f] :
    /\ steps < Depth /\ v # s[f] /\ Fits([s EXCEPT ![f] = v])
    /\ s' = [s EXCEPT ![f] = v] /\ steps' = steps + 1 /\ act' = [op |-> "change", field |-> f, to |-> v]
Plastic == /\ Mode = "beam"
           /\ Same([op |-> "plastic", part |-> Part(s), at |-> Depth_(s)])
Elastic == \E creep \in BOOLEAN : Mode = "beam" /\ Same([op |-> "elastic", creep |-> creep])
Section == Mode = "tube" /\ Same([op |-> "section"])
Squash == Mode = "tube" /\ Same([op |-> "squash", few |-> FewBars(s)])
Bend == Mode = "tube" /\ Same([op |-> "bend", where |-> Between(s)])
Buckle == \E axis \in {"y", "z"} : \E dead \in {0, 40, 100} :
    Mode = "tube" /\ Same([op |-> "buckle", axis |-> axis, dead |-> dead, few |-> FewBars(s)])
Next == Change \/ Plastic \/ Elastic \/ Section \/ Squash \/ Bend \/ Buckle
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> [s |-> s', steps |-> steps']]))
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Rank(p) == CASE p = "slab" -> 0 [] p = "flange" -> 1 [] p = "web" -> 2 [] OTHER -> 3
Balanced == Mode = "beam" =>
    /\ Abs(Compressed(s) - Pulled(s)) <= 1
    /\ Depth_(s)[1] >= 0
    /\ CASE Part(s) = "slab" -> Depth_(s)[1] <= Depth_(s)[2]
         [] Part(s) = "flange" -> Depth_(s)[1] \div Depth_(s)[2] <= s.tt
         [] OTHER -> Depth_(s)[1] \div Depth_(s)[2] <= s.hw
\* stronger concrete or a wider slab raises the neutral axis, stronger steel lowers it
Shift == Mode = "beam" => /\ \A v \in Pool["fck"] : v >= s.fck => Rank(Part([s EXCEPT !.fck = v])) <= Rank(Part(s))
                          /\ \A v \in Pool["fy"] : v >= s.fy => Rank(Part([s EXCEPT !.fy = v])) >= Rank(Part(s))
Inside == Mode = "tube" =>
    /\ Ac(s) > 0 /\ As(s) < Ac(s) /\ With(s) <= Without(s) /\ Den(s) > 0
    /\ (Between(s) = "inside" => With(s) \div Den(s) > Far(s))
=============================================================================
