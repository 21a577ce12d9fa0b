------------------------------- MODULE Joints -------------------------------
(* Welded joints of rectangular hollow sections, EN 1993-1-8 Tables 7.10 to  *)
(* 7.13.  A K gap, Y or X joint is changed in steps - another chord or       *)
(* brace, angle, gap, steel, other forces, a face plate, a prescribed        *)
(* strength factor - and designed after each of them.  The specification     *)
(* decides which brace is in compression, the chord stress factor kn, the    *)
(* strength reduction, and which failure modes are to be considered; all     *)
(* comparisons are exact.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chords,    \* <<h, b, 10 t>>
          Braces,    \* <<h, b, 10 t>>
          Angles,    \* degrees
          Gaps, Grades,
          Axial,     \* axial force of the chord, 1/1000 of its yield load, tension positive
          Bending,   \* moment of the chord, 1/1000 of its yield moment
          Forces,    \* force of brace 1 in kN, tension positive; brace 2 of a K joint has the opposite sign
          Factors,   \* prescribed strength factor in tenths, 0: none
          Bases,     \* initial configurations
          Depth
VARIABLES j, steps, act
vars == <<j, steps, act>>
St == [j |-> j, steps |-> steps]
View == <<j, steps>>
Kinds == {"K", "Y", "X"}
C == Chords[j.chord]
B1 == Braces[j.b1]
B2 == Braces[j.b2]
(* beta as a fraction (sizes are multiples of 10 mm); gamma = b0 / 2 t0 *)
Beta(x) == LET c == Chords[x.chord] p == Braces[x.b1] q == Braces[x.b2] IN
           IF x.kind = "K" THEN <<(p[1] + p[2] + q[1] + q[2]) \div 10, (4 * c[2]) \div 10>> ELSE <<p[2] \div 10, c[2] \div 10>>
\* beta <= 1 - 1/gamma, i.e. beta b0 <= b0 - 2 t0 (in tenths of a millimetre)
Narrow(x) == LET c == Chords[x.chord] b == Beta(x) IN 10 * b[1] * c[2] <= b[2] * (10 * c[2] - 2 * c[3])
Cos == [a \in {30, 45, 60, 90} |-> CASE a = 30 -> 8660 [] a = 45 -> 7071 [] a = 60 -> 5000 [] OTHER -> 0]
Border(x) == LET c == Chords[x.chord] b == Beta(x) IN
             10 * b[1] * c[2] = b[2] * (10 * c[2] - 2 * c[3]) \/ (x.kind # "K" /\ 20 * b[1] = 17 * b[2])
             \/ (x.kind = "X" /\ Cos[x.a1] * c[1] = 10000 * Braces[x.b1][1])
Wide(x) == 20 * Beta(x)[1] >= 17 * Beta(x)[2]
(* stress of the chord face at the joint, 1/1000 of the yield strength, compression positive *)
Stress(x) == -x.n0 + x.m0
Kn(x) == LET b == Beta(x) n == Stress(x) \div 100
             num == 130 * b[1] - 4 * n * b[2] den == 100 * b[1]
         IN IF n <= 0 \/ num >= den THEN <<1, 1>> ELSE <<num, den>>
Red(x) == IF x.r # 0 THEN x.r ELSE IF x.fy0 <= 355 THEN 10 ELSE IF x.fy0 <= 460 THEN 9 ELSE 8
(* failure modes whose resistances limit the force of a brace *)
Mode(x) ==
    IF x.kind = "K" THEN {"face", "shear", "brace"} \union (IF Narrow(x) THEN {"punching"} ELSE {})
    ELSE IF ~Wide(x) THEN {"face"}
    ELSE {"between", "brace"} \union (IF Narrow(x) THEN {"punching"} ELSE {})
\* weight of side wall buckling between chord face failure (0.85) and side wall failure (1.0)
Weight(x) == LET b == Beta(x) IN <<20 * b[1] - 17 * b[2], 3 * b[2]>>
\* the shear resistance of the chord limits an X joint if cos(angle) > h1/h0
Sheared(x) == x.kind = "X" /\ Cos[x.a1] * Chords[x.chord][1] > 10000 * Braces[x.b1][1]
(* the brace in compression *)
Comp(x) == IF x.f < 0 THEN 1 ELSE IF x.f > 0 THEN 2 ELSE 0
(* axial force of the chord in the gap of a K joint: which brace's force is  *)
(* deducted from the larger chord force                                      *)
Deduct(x) == IF x.n0 < 0 THEN "tension" ELSE "compression"
Design(x) == [op |-> "design", kind |-> x.kind, beta |-> Beta(x), kn |-> Kn(x), red |-> Red(x), modes |-> Mode(x),
              weight |-> Weight(x), sheared |-> Sheared(x), buckles |-> x.kind # "K" /\ x.f < 0,
              comp |-> Comp(x), deduct |-> Deduct(x)]
(* ------------------------------- actions -------------------------------- *)
Fits(x) == /\ Braces[x.b1][2] <= Chords[x.chord][2] /\ Braces[x.b2][2] <= Chords[x.chord][2] /\ ~Border(x)
           /\ Kn(x)[1] > 0
           /\ (x.kind # "K" => x.b2 = x.b1 /\ x.a2 = x.a1)
           /\ (x.kind = "K" => x.a1 < 90 /\ x.a2 < 90)
Init == /\ \E b \in Bases : j = b /\ Fits(b)
        /\ steps = 0 /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Become(x, a) == /\ x # j /\ Fits(x) /\ j' = x /\ steps' = steps + 1 /\ act' = a
Both(x, p, v) == IF x.kind = "K" THEN [x EXCEPT ![p] = v]
                 ELSE IF p \in {"b1", "b2"} THEN [x EXCEPT !.b1 = v, !.b2 = v] ELSE [x EXCEPT !.a1 = v, !.a2 = v]
Change == /\ steps < Depth
          /\ \/ \E c \in 1..Len(Chords) : Become([j EXCEPT !.chord = c], [op |-> "chord", v |-> c])
             \/ \E b \in 1..Len(Braces), p \in {"b1", "b2"} : Become(Both(j, p, b), [op |-> "brace", p |-> p, v |-> b])
             \/ \E a \in Angles, p \in {"a1", "a2"} : Become(Both(j, p, a), [op |-> "angle", p |-> p, v |-> a])
             \/ \E g \in Gaps : j.kind = "K" /\ Become([j EXCEPT !.gap = g], [op |-> "gap", v |-> g])
             \/ \E y \in Grades : Become([j EXCEPT !.fy0 = y], [op |-> "steel", v |-> y])
             \/ \E n \in Axial : Become([j EXCEPT !.n0 = n], [op |-> "axial", v |-> n])
             \/ \E m \in Bending : Become([j EXCEPT !.m0 = m], [op |-> "bending", v |-> m])
             \/ \E f \in Forces : Become([j EXCEPT !.f = f], [op |-> "force", v |-> f])
             \/ \E r \in Factors : Become([j EXCEPT !.r = r], [op |-> "factor", v |-> r])
             \/ /\ j.kind = "K" /\ ~j.plate /\ Become([j EXCEPT !.plate = TRUE], [op |-> "plate"])
Check == /\ UNCHANGED <<j, steps>> /\ act' = Design(j)
Next == Change \/ Check
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> [j |-> j', steps |-> steps']]))
(* ------------------------------ properties ------------------------------ *)
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
Limited == LET m == Mode(j) IN m # {} /\ (j.kind = "K" => {"face", "shear", "brace"} \subseteq m)
StressFactor == Leq(Kn(j), <<1, 1>>) /\ Kn(j)[1] > 0 /\ (Stress(j) <= 0 => Kn(j) = <<1, 1>>)
\* a wider brace or less compression never lowers kn
WiderBetter == \A b \in 1..Len(Braces) : LET x == Both(j, "b1", b) IN
                  (Fits(x) /\ Leq(Beta(j), Beta(x))) => Leq(Kn(j), Kn(x))
LessBetter == \A n \in Axial : LET x == [j EXCEPT !.n0 = n] IN (Fits(x) /\ n >= j.n0) => Leq(Kn(j), Kn(x))
Interpolated == "between" \in Mode(j) => Weight(j)[1] >= 0 /\ Leq(Weight(j), <<1, 1>>)
NoPlateForgotten == [][j.plate => j'.plate]_vars
\* the higher the strength of the chord, the more it is reduced
Reduced == \A y \in Grades : (y >= j.fy0) => Red([j EXCEPT !.fy0 = y]) <= Red(j)
=============================================================================
