---- MODULE FinPlate ----
(* Bolted steel joints and the work of making them.

   A fin plate joint (bolts in one or two columns, eccentric shear), an
   end plate joint and the plates themselves are edited dimension by
   dimension; at any time their resistances and their costs are asked for.
   The specification gives what both depend on: the positions of the bolts,
   edge distances, net sections, and the quantities of work (lengths to cut and
   weld, areas to paint, numbers of bolts, nuts and washers).  Cost centres of
   the workshop are shared by all jobs, and the cost of a job does not depend on
   the jobs before it.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind,      \* "fin", "end" or "shop"
          Choices,   \* function: name -> sequence of values
          MaxOff,    \* how many dimensions may differ from the first choice
          Jobs       \* jobs of the workshop: seq of records
VARIABLES x, act
vars == <<x, act>>
View == x
St == x
V(k) == Choices[k][x[k]]
Off(y) == Cardinality({k \in DOMAIN Choices : y[k] # 1})
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
----
(* --------------------------- fin plate joint ---------------------------- *)
\* all lengths in mm; a trailing 2 means twice the length
N1 == V("n1")  N2 == V("n2")
P2 == IF N2 = 1 THEN 0 ELSE V("p2")
N == N1 * N2
D0 == V("bolt").d0
E1x2 == V("hp") - (N1 - 1) * V("p1")                 \* centred in the plate
E2 == V("bp") - V("x0") - (N2 - 1) * P2
E2b == V("x0") - V("gh")
E1bx2 == V("beam").h - 2 * V("pos") - V("hp") + E1x2 \* from the edge of the beam
Zx2 == 2 * V("x0") + (N2 - 1) * P2                   \* support to bolt group
\* bolt positions from the centre of the group, doubled
Pos(i) == LET c == (i - 1) \div N1  r == (i - 1) % N1
          IN <<(2 * c - (N2 - 1)) * P2, (2 * r - (N1 - 1)) * V("p1")>>
J4 == SumTo([i \in 1..N |-> Pos(i)[1] * Pos(i)[1] + Pos(i)[2] * Pos(i)[2]], N)
Netto == V("tp") * (V("hp") - N1 * D0)
\* block tearing: tension face to the plate edge, shear face to the lower (upper) edge, doubled
Ant2(t, e2) == t * (2 * e2 + 2 * (N2 - 1) * P2 - (2 * N2 - 1) * D0)
Anv2(t, e1x2) == t * (e1x2 + 2 * (N1 - 1) * V("p1") - (2 * N1 - 1) * D0)
Allowed == /\ 5 * E1x2 >= 12 * D0 /\ 5 * E2 >= 6 * D0 /\ 5 * E2b >= 6 * D0
           /\ 5 * V("p1") >= 11 * D0 /\ (N2 > 1 => 5 * P2 >= 12 * D0)
Fin == [n |-> N, z2 |-> Zx2, j4 |-> J4, pos |-> [i \in 1..N |-> Pos(i)], e1x2 |-> E1x2, e2 |-> E2, e2b |-> E2b, e1bx2 |-> E1bx2,
        net |-> Netto, webnet |-> N1 * D0, antp |-> Ant2(V("tp"), E2), anvp |-> Anv2(V("tp"), E1x2),
        ant |-> Ant2(1, E2b), anv |-> Anv2(1, E1bx2), ltb |-> 3 * Zx2 >= 40 * V("tp"), ok |-> Allowed]
(* ------------------------------ plates ---------------------------------- *)
\* thickness add-on, e/tonne
AddOn(t) == CASE t >= 5 /\ t < 6 -> 140 [] t >= 6 /\ t < 7 -> 82 [] t >= 7 /\ t < 8 -> 35 [] t >= 8 /\ t < 10 -> 23
              [] t >= 10 /\ t < 12 -> 12 [] t >= 12 /\ t < 20 -> 0 [] t >= 20 /\ t < 50 -> 12 [] t >= 50 /\ t < 60 -> 47
              [] t >= 60 /\ t < 80 -> 58 [] OTHER -> 140
GradeAdd(g) == IF g = 235 THEN 0 ELSE 35
Plate(b, h, t, g, holes) == [vol |-> b * h * t, eurt |-> AddOn(t) + GradeAdd(g), t |-> t, rim |-> 2 * (b + h),
                             paint |-> 2 * b * h + 2 * t * (b + h), long |-> (IF b > h THEN b ELSE h), holes |-> holes]
(* ------------------------------- costs ---------------------------------- *)
FinCost == [plate |-> Plate(V("bp"), V("hp"), V("tp"), V("grade"), N * D0), rimweld |-> V("rim"), bolts |-> N, nuts |-> N, washers |-> N,
            holes |-> N * D0, weld |-> 2 * V("hp"), size |-> V("weld")]
Bm == V("beam")
EndH == V("etop") + V("ebot") + Bm.h
EndCost == [plate |-> Plate(V("bp"), EndH, V("tp"), V("grade"), 0), rimweld |-> 0, bolts |-> 2 * V("rows"), nuts |-> 2 * V("rows"),
            washers |-> 4 * V("rows"), holes |-> 2 * V("rows") * D0,
            flange10 |-> 2 * (2 * (10 * Bm.b + Bm.tf10) - Bm.tw10 - 20 * Bm.r), arcs |-> 4 * Bm.r, web10 |-> 2 * (10 * Bm.h - 2 * Bm.tf10 - 20 * Bm.r),
            wf |-> V("wf"), ww |-> V("ww"), stiff |-> V("stiff")]
(* ------------------------------ workshop -------------------------------- *)
Speed(t) == CASE t <= 5 -> 120 [] t <= 10 -> 100 [] t <= 15 -> 90 [] t <= 20 -> 80 [] t <= 25 -> 70 [] t <= 30 -> 60 [] t <= 35 -> 50 [] OTHER -> 40
Wear(t) == CASE t <= 5 -> 40 [] t <= 10 -> 45 [] t <= 15 -> 50 [] t <= 20 -> 55 [] t <= 25 -> 60 [] t <= 30 -> 65 [] t <= 35 -> 70 [] OTHER -> 80
\* setting up 2 min, two cuts of 1.25 min, bevels 1 min each, conveying 20 m/min; in 1/100 min
Work(w) == CASE w.k = "saw" -> [idle |-> 450 + 100 * w.bevels + (w.len \div 200), speed |-> Speed(w.t), wear |-> Wear(w.t)]
             [] w.k = "cut" -> [idle |-> 300, plasma |-> w.t <= 30]
             [] OTHER -> [idle |-> 0]
----
Init == x = [k \in DOMAIN Choices |-> 1] /\ act = <<>> /\ PrintT(ToJson([init |-> St]))
Set == \E k \in DOMAIN Choices : \E i \in DOMAIN Choices[k] :
         /\ i # x[k] /\ x' = [x EXCEPT ![k] = i] /\ Off(x') <= MaxOff
         /\ act' = [op |-> "set", k |-> k, v |-> Choices[k][i]]
Same == UNCHANGED x
Resist == Kind = "fin" /\ E1x2 > 0 /\ E2 > 0 /\ E2b > 0 /\ Same /\ act' = [op |-> "resist", r |-> Fin]
Cost == /\ Kind \in {"fin", "end"} /\ Same
        /\ act' = [op |-> "cost", r |-> IF Kind = "fin" THEN FinCost ELSE EndCost]
\* a job in the workshop (the last job is kept in the state, so that every job follows every other)
Job == /\ Kind = "shop"
       /\ \E i \in DOMAIN Jobs : /\ x' = [x EXCEPT !["last"] = i]
                                 /\ act' = [op |-> "job", w |-> Jobs[i], r |-> Work(Jobs[i])]
Next == IF Kind = "shop" THEN Job ELSE Set \/ Resist \/ Cost
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> x']))
----
FinState == Kind = "fin" /\ E1x2 > 0 /\ E2 > 0 /\ E2b > 0
\* the polar moment of a regular group, as tabulated in design guides
Closed == FinState => 3 * J4 = (IF N2 = 2 THEN 6 * N1 * P2 * P2 ELSE 0) + N2 * N1 * (N1 * N1 - 1) * V("p1") * V("p1")
\* bolts lie inside the plate and balance about the centre of the group
Balance == FinState => /\ SumTo([i \in 1..N |-> Pos(i)[1]], N) = 0 /\ SumTo([i \in 1..N |-> Pos(i)[2]], N) = 0
                       /\ \A i \in 1..N : Pos(i)[2] <= V("hp") /\ Zx2 + Pos(i)[1] <= 2 * V("bp") /\ Zx2 + Pos(i)[1] >= 2 * V("gh")
\* a cut through all bolt holes leaves no more than the plate
Sections == FinState => /\ Netto <= V("tp") * V("hp")
                        /\ Anv2(V("tp"), E1x2) <= 2 * V("tp") * V("hp") /\ Ant2(V("tp"), E2) <= 2 * V("tp") * V("bp")
\* painting covers both faces and the rim
Painted == Kind = "fin" => LET p == FinCost.plate IN p.paint * V("tp") = 2 * p.vol + V("tp") * V("tp") * p.rim
\* holes of the plate and of the beam are the same holes
Matching == Kind = "fin" => FinCost.plate.holes = FinCost.holes /\ FinCost.bolts = N
=============================================================================
