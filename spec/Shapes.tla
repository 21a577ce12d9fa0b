------------------------------- MODULE Shapes -------------------------------
(* Cross-section properties of plated I shapes, exactly.  A section is three *)
(* rectangles (bottom flange, web, top flange); its dimensions are changed   *)
(* one after another, turned upside down or scaled, and all properties are   *)
(* reported as fractions of integers.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Heights, Widths, Flanges, Webs,      \* values of h; bt, bb; tt, tb; tw
          Bases,                               \* initial shapes <<h, bt, tt, bb, tb, tw>>
          Depth
VARIABLES d, steps, act
vars == <<d, steps, act>>
St == [d |-> d, steps |-> steps]
View == <<d, steps>>
Abs(x) == IF x < 0 THEN -x ELSE x
Max(x, y) == IF x > y THEN x ELSE y
hw(s) == s.h - s.tt - s.tb
At(s) == s.bt * s.tt
Ab(s) == s.bb * s.tb
Aw(s) == hw(s) * s.tw
A(s) == At(s) + Ab(s) + Aw(s)
\* the rectangles from bottom to top: <<z1, z2, width>>
Parts(s) == <<<<0, s.tb, s.bb>>, <<s.tb, s.tb + hw(s), s.tw>>, <<s.tb + hw(s), s.h, s.bt>>>>
Sum3(f) == f[1] + f[2] + f[3]
Over(s, F(_)) == LET p == Parts(s) IN F(p[1]) + F(p[2]) + F(p[3])
\* twice the first and three times the second moment of area about the bottom edge
First(s) == LET F(p) == p[3] * (p[2] * p[2] - p[1] * p[1]) IN Over(s, F)
Second(s) == LET F(p) == p[3] * (p[2] * p[2] * p[2] - p[1] * p[1] * p[1]) IN Over(s, F)
\* elastic neutral axis above the bottom, second moment about it
Zel(s) == <<First(s), 2 * A(s)>>
Iy(s) == <<4 * Second(s) * A(s) - 3 * First(s) * First(s), 12 * A(s)>>
Iz12(s) == s.tt * s.bt * s.bt * s.bt + s.tb * s.bb * s.bb * s.bb + hw(s) * s.tw * s.tw * s.tw
\* larger distance from the neutral axis to a face, as a fraction with the denominator of Zel
Far(s) == Max(First(s), 2 * A(s) * s.h - First(s))
\* plastic neutral axis: half of the area on either side
Zpl(s) == IF 2 * At(s) >= A(s) THEN <<2 * s.bt * s.h - A(s), 2 * s.bt>>
          ELSE IF 2 * Ab(s) >= A(s) THEN <<A(s), 2 * s.bb>>
          ELSE <<2 * s.tb * s.tw + A(s) - 2 * Ab(s), 2 * s.tw>>
\* sum of |z - zpl| dA: each part contributes b ((z2 - z)|z2 - z| - (z1 - z)|z1 - z|) / 2
Wply(s) == LET z == Zpl(s) n == z[1] m == z[2]
               Sq(x) == x * Abs(x)
               F(p) == p[3] * (Sq(m * p[2] - n) - Sq(m * p[1] - n))
           IN <<Over(s, F), 2 * m * m>>
Wplz4(s) == s.tt * s.bt * s.bt + s.tb * s.bb * s.bb + hw(s) * s.tw * s.tw
Round(s) == 2 * (s.bt + s.bb) + 2 * s.h - 2 * s.tw        \* circumference
It3(s) == s.bt * s.tt * s.tt * s.tt + s.bb * s.tb * s.tb * s.tb + hw(s) * s.tw * s.tw * s.tw
Props(s) == [op |-> "ask", A |-> A(s), zel |-> Zel(s), Iy |-> Iy(s), Iz12 |-> Iz12(s), far |-> <<Far(s), 2 * A(s)>>,
             zpl |-> Zpl(s), Wply |-> Wply(s), Wplz4 |-> Wplz4(s), around |-> Round(s), It3 |-> It3(s)]
(* ------------------------------- actions -------------------------------- *)
Fits(s) == /\ hw(s) > s.tw /\ s.tw < s.bt /\ s.tw < s.bb
Init == /\ d \in Bases /\ Fits(d) /\ steps = 0 /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Become(s, a) == s # d /\ Fits(s) /\ d' = s /\ steps' = steps + 1 /\ act' = a
Values(k) == CASE k = "h" -> Heights [] k \in {"bt", "bb"} -> Widths [] k \in {"tt", "tb"} -> Flanges [] OTHER -> Webs
Flip(s) == [s EXCEPT !.bt = s.bb, !.bb = s.bt, !.tt = s.tb, !.tb = s.tt]
Change == /\ steps < Depth
          /\ \/ \E k \in {"h", "bt", "bb", "tt", "tb", "tw"} : \E v \in Values(k) : Become([d EXCEPT ![k] = v], [op |-> "set", k |-> k, v |-> v])
             \/ \E v \in Widths : Become([d EXCEPT !.bt = v, !.bb = v], [op |-> "set", k |-> "b", v |-> v])
             \/ \E v \in Flanges : Become([d EXCEPT !.tt = v, !.tb = v], [op |-> "set", k |-> "tf", v |-> v])
             \/ \E v \in Heights : v > 12 /\ Become([d EXCEPT !.h = v - 8 + d.tt + d.tb], [op |-> "set", k |-> "hw", v |-> v - 8])
             \/ Become(Flip(d), [op |-> "flip"])
Ask == UNCHANGED <<d, steps>> /\ act' = Props(d)
Next == Change \/ Ask
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> [d |-> d', steps |-> steps']]))
(* ------------------------------ properties ------------------------------ *)
\* area on either side of the plastic neutral axis is the same
Below(s, n, m) == LET F(p) == p[3] * (IF n >= m * p[2] THEN m * (p[2] - p[1]) ELSE IF n <= m * p[1] THEN 0 ELSE n - m * p[1]) IN Over(s, F)
Halves == LET z == Zpl(d) IN 2 * Below(d, z[1], z[2]) = z[2] * A(d)
Inside == LET z == Zpl(d) e == Zel(d) IN z[1] > 0 /\ z[1] < z[2] * d.h /\ e[1] > 0 /\ e[1] < e[2] * d.h
\* what is turned upside down keeps its size
Upside == LET f == Flip(d) IN /\ A(f) = A(d) /\ Iy(f) = Iy(d) /\ Iz12(f) = Iz12(d) /\ Far(f) = Far(d) /\ Round(f) = Round(d)
                              /\ Wply(f) = Wply(d)
                              /\ First(f) + First(d) = 2 * d.h * A(d)
Symmetric == (d.bt = d.bb /\ d.tt = d.tb) => 2 * Zel(d)[1] = d.h * Zel(d)[2] /\ 2 * Zpl(d)[1] = d.h * Zpl(d)[2]
\* Wpl >= Wel: sum |z| dA >= sum z^2 dA / zmax  (compared with one digit to spare)
Shape == LET w == Wply(d) i == Iy(d) IN ((w[1] * 10) \div w[2]) + 1 >= (10 * (i[1] \div 6)) \div Far(d)
Positive == A(d) > 0 /\ Iy(d)[1] > 0
=============================================================================
