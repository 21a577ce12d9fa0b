-------------------------------- MODULE Wind --------------------------------
(* Wind on a rectangular building, EN 1991-1-4.  Dimensions of the building *)
(* in units of half a metre; zone sizes in fortieths of a metre (twenty of  *)
(* them to the unit), pressure coefficients as <<numerator, denominator>>   *)
(* where the numerator is in hundredths.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lengths, Widths, Heights,  \* of the building
          Angles,                    \* of a monopitch roof, degrees
          Reach,                     \* heights above ground in tenths of the least height of the terrain
          Depth
VARIABLES bld, steps, act
vars == <<bld, steps, act>>
St == [bld |-> bld, steps |-> steps]
View == <<bld, steps>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Buildings == {[l |-> l, w |-> w, h |-> h] : l \in Lengths, w \in Widths, h \in Heights}
Dirs == {"long", "short"}
\* b: size across the wind, d: along the wind
B(x, dir) == IF dir = "long" THEN x.l ELSE x.w
D(x, dir) == IF dir = "long" THEN x.w ELSE x.l
Edge(x, dir) == Min(B(x, dir), 2 * x.h)

\* walls, Fig. 7.5
WallA(x, dir) == Min(4 * Edge(x, dir), 20 * D(x, dir))
WallB(x, dir) == Min(20 * Edge(x, dir), 20 * D(x, dir)) - WallA(x, dir)
WallC(x, dir) == 20 * D(x, dir) - WallA(x, dir) - WallB(x, dir)
\* Table 7.1: linear between h/d = 0.25, 1 and 5; hundredths
WindwardTen(h, d) == IF h >= d THEN <<80, 1>>
                     ELSE IF 4 * h <= d THEN <<70, 1>>
                     ELSE <<70 * 3 * d + 10 * (4 * h - d), 3 * d>>
WindwardOne(h, d) == <<100, 1>>
Leeward(h, d) == IF h >= 5 * d THEN <<-70, 1>>
                 ELSE IF h >= d THEN <<-(50 * 4 * d + 20 * (h - d)), 4 * d>>
                 ELSE IF 4 * h <= d THEN <<-30, 1>>
                 ELSE <<-(30 * 3 * d + 20 * (4 * h - d)), 3 * d>>
\* flat roof, Fig. 7.6: sizes <<across, along>>; zone F occurs twice
FlatF(x, dir) == <<5 * Edge(x, dir), 2 * Edge(x, dir)>>
FlatG(x, dir) == <<20 * B(x, dir) - 10 * Edge(x, dir), 2 * Edge(x, dir)>>
FlatH(x, dir) == <<20 * B(x, dir), Min(10 * Edge(x, dir), 20 * D(x, dir)) - 2 * Edge(x, dir)>>
FlatI(x, dir) == <<20 * B(x, dir), Max(20 * D(x, dir) - 10 * Edge(x, dir), 0)>>
\* the strip F-G must fit on the roof
Roofed(x, dir) == Edge(x, dir) <= 8 * D(x, dir)

\* monopitch roof, Table 7.3a.  Rows: angle, then for F, G, H: suction cpe10, suction cpe1, pressure
Low == << <<5,  -170, -250, 0,  -120, -200, 0,  -60, -120, 0>>,
          <<15, -90, -200, 20,  -80, -150, 20,  -30, -30, 20>>,
          <<30, -50, -150, 70,  -50, -150, 70,  -20, -20, 40>>,
          <<45, 0, 0, 70,  0, 0, 70,  0, 0, 60>>,
          <<60, 0, 0, 70,  0, 0, 70,  0, 0, 70>>,
          <<75, 0, 0, 80,  0, 0, 80,  0, 0, 80>> >>
High == << <<5,  -230, -250, 0,  -130, -200, 0,  -80, -120, 0>>,
           <<15, -250, -280, 0,  -130, -200, 0,  -90, -120, 0>>,
           <<30, -110, -230, 0,  -80, -150, 0,  -80, -80, 0>>,
           <<45, -60, -130, 0,  -50, -50, 0,  -70, -70, 0>>,
           <<60, -50, -100, 0,  -50, -50, 0,  -50, -50, 0>>,
           <<75, -50, -100, 0,  -50, -50, 0,  -50, -50, 0>> >>
Row(T, a) == CHOOSE i \in 1..5 : T[i][1] <= a /\ (a < T[i + 1][1] \/ i = 5)
Interp(T, a, c) ==
    IF a >= 75 THEN <<T[6][c], 1>>
    ELSE LET i == Row(T, a)  x0 == T[i][1]  x1 == T[i + 1][1]
         IN <<T[i][c] * (x1 - a) + T[i + 1][c] * (a - x0), x1 - x0>>
\* zone z (0, 1, 2 = F, G, H) of a roof of angle a: <<cpe10 suction, cpe1 suction, pressure>>
Zone(low, a, z) == LET T == IF low THEN Low ELSE High
                   IN <<Interp(T, a, 2 + 3 * z), Interp(T, a, 3 + 3 * z), Interp(T, a, 4 + 3 * z)>>
\* between 60 degrees and the vertical, and on the lee side, there is one case only
Single(low, a) == ~low \/ a >= 60

Init == bld \in Buildings /\ steps = 0 /\ act = [op |-> "init"] /\ PrintT(ToJson([init |-> St]))
Same(a) == act' = a /\ UNCHANGED <<bld, steps>>
Change == \E y \in Buildings : /\ steps < Depth
                               /\ Cardinality({f \in {"l", "w", "h"} : y[f] # bld[f]}) = 1
                               /\ bld' = y /\ steps' = steps + 1 /\ act' = [op |-> "change", to |-> y]
Walls == \E dir \in Dirs :
    LET d == D(bld, dir) IN
    Same([op |-> "walls", dir |-> dir, a |-> WallA(bld, dir), b |-> WallB(bld, dir), c |-> WallC(bld, dir), face |-> 20 * B(bld, dir),
          ten |-> WindwardTen(bld.h, d), one |-> WindwardOne(bld.h, d), lee |-> Leeward(bld.h, d)])
Flat == \E dir \in Dirs :
    /\ Roofed(bld, dir)
    /\ Same([op |-> "flat", b |-> B(bld, dir), d |-> D(bld, dir),
             f |-> FlatF(bld, dir), g |-> FlatG(bld, dir), h |-> FlatH(bld, dir), i |-> FlatI(bld, dir)])
Mono == \E low \in BOOLEAN : \E a \in Angles :
    /\ 2 * Edge(bld, "long") <= 20 * D(bld, "long")
    /\ Same([op |-> "mono", low |-> low, angle |-> a, single |-> Single(low, a),
             f |-> FlatF(bld, "long"), g |-> FlatG(bld, "long"),
             h |-> <<20 * B(bld, "long"), 20 * D(bld, "long") - 2 * Edge(bld, "long")>>,
             F |-> Zone(low, a, 0), G |-> Zone(low, a, 1), H |-> Zone(low, a, 2)])
\* the wind near the ground is that at the least height of the terrain
Site == \E r \in Reach : \E cat \in 0..4 : Same([op |-> "site", cat |-> cat, r |-> r, at |-> Max(r, 10)])
Next == Change \/ Walls \/ Flat \/ Mono \/ Site
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> [bld |-> bld', steps |-> steps']]))
Spec == Init /\ [][Next]_vars

\* q1 <= q2 for <<numerator, positive denominator>>
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
Area(s) == s[1] * s[2]
\* the zones tile the walls and the roof
Tiled == \A dir \in Dirs :
    /\ WallA(bld, dir) > 0 /\ WallB(bld, dir) >= 0 /\ WallC(bld, dir) >= 0
    /\ WallA(bld, dir) + WallB(bld, dir) + WallC(bld, dir) = 20 * D(bld, dir)
    /\ Roofed(bld, dir) => (2 * Area(FlatF(bld, dir)) + Area(FlatG(bld, dir)) + Area(FlatH(bld, dir)) + Area(FlatI(bld, dir))
                            = 400 * bld.l * bld.w)
    /\ FlatG(bld, dir)[1] >= 0
\* a higher building has no less pressure on the windward and no less suction on the leeward wall
Higher == \A dir \in Dirs :
    LET d == D(bld, dir) IN
    /\ Le(WindwardTen(bld.h, d), WindwardTen(bld.h + 1, d)) /\ Le(WindwardTen(bld.h, d), WindwardOne(bld.h, d))
    /\ Le(Leeward(bld.h + 1, d), Leeward(bld.h, d))
    /\ Le(<<70, 1>>, WindwardTen(bld.h, d)) /\ Le(WindwardTen(bld.h, d), <<80, 1>>)
    /\ Le(<<-70, 1>>, Leeward(bld.h, d)) /\ Le(Leeward(bld.h, d), <<-30, 1>>)
\* small areas have no less suction, edges no less than the interior
ASSUME \A a \in Angles : \A low \in BOOLEAN : \A z \in 0..2 : Le(Zone(low, a, z)[2], Zone(low, a, z)[1])
ASSUME \A a \in Angles : Le(Zone(TRUE, a, 0)[1], Zone(TRUE, a, 1)[1]) /\ Le(Zone(TRUE, a, 1)[1], Zone(TRUE, a, 2)[1])
=============================================================================
