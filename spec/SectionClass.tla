---------------------------- MODULE SectionClass ----------------------------
(* A steel section under axial force and major-axis bending: which parts are *)
(* compressed, how each is classified, and which resistances follow.         *)
(* Axial force: n/20 of A fy (tension positive), bending moment: m/20 of     *)
(* Wel fy (positive: top compressed).  Lengths ratios in 1/100, areas mm2.   *)
(* Limits of c/t are intervals (Times of CodeTables); a part whose c/t lies  *)
(* in one may be of either class, so an answer is a set of classes.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Secs,     \* records, see below
          Grades,   \* yield strengths
          Ns, Ms
VARIABLES s, g, n, m, act
\* Secs[s] = [kind |-> "I" | "RHS" | "CHS" | "WI",
\*   top, bot : c/t of the flanges * 100 (tube: d/t), web : c/t of the web * 100,
\*   A : area, Aw : area of the straight part of web(s),
\*   At, Ab : areas of the flanges, Aweld : area of the web between flange and straight part (WI)
\*   zt, zb, ft, fb : distances of the web's edges and of the extreme fibres from the centroid, 1/1000 of the larger ft, fb,
\*   straight : straight part of the web / height * 100]
vars == <<s, g, n, m, act>>
St == [s |-> s, g |-> g, n |-> n, m |-> m]
View == <<s, g, n, m>>
Abs(x) == IF x < 0 THEN -x ELSE x
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
C == INSTANCE CodeTables WITH Alphas <- {}, Psis <- {}, PsiRoots <- {}, Moments <- {}, Slend <- {}, Util <- {},
                              Cms <- {}, Dims <- {}, Modes <- {}, turn <- 0
Sec == Secs[s]
Fy == Grades[g]
(* --------------------------- classes of parts --------------------------- *)
\* r: c/t * 100, widened by a quarter of a percent for the rounding of the section's data
Below(r, l) == (r * 10 * 399) \div 400 <= l[2]     \* may satisfy the limit
Above(r, l) == (r * 10 * 401) \div 400 >= l[1]     \* may exceed the limit
Classes(r, ls) ==
    {k \in 1..4 : /\ k < 4 => Below(r, ls[k])
                  /\ \A j \in 1..(k - 1) : Above(r, ls[j])}
(* alpha = a/1000 *)
Plastic(a, hi, lo) == IF a <= 0 THEN C!NoLimit
                      ELSE IF a > 500 THEN C!Times(400 * hi, ((13 * a - 1000) * 2) \div 5, Fy)
                      ELSE C!Times(500 * lo, a, Fy)
\* psi = p/q with q > 0
Elastic(p, q) ==
    IF p > -q THEN C!Times(168000, 2680 + (1320 * p) \div q, Fy)
    ELSE \* 62 eps (1 - psi) sqrt(-psi)
         LET r == C!Sqrt(((-p * 10000) \div q) * 100)          \* 1000 sqrt(-psi)
             k == (62 * (q - p) * 10) \div q                   \* 620 (1 - psi)
         IN <<(((k * r) \div 1000) * (C!Eps(Fy) \div 10)) \div 10 - 50,
              ((((k + 1) * (r + 1)) \div 1000 + 1) * (C!Eps(Fy) \div 10 + 1)) \div 10 + 50>>
(* ------------------------- stresses, plastic zones ---------------------- *)
Clip(x, a, b) == Max(a, Min(x, b))
\* most compressed and least compressed extreme fibre, tension positive, in 1/20 fy
FarCompressed == n - Abs(m)
FarOther == n + Abs(m)
AnyCompression == n < 0 \/ (Abs(m) > n /\ m # 0)
\* doubly symmetric section, webs of area Aw: the axial force shifts the plastic neutral axis
AlphaSym == Clip(500 - (500 * ((n * Sec.A) \div 20)) \div Sec.Aw, 0, 1000)
\* welded section: compressed area (A - N/fy)/2, less the compressed flange and weld
AlphaWI == LET fl == IF m > 0 THEN Sec.At ELSE Sec.Ab
               ac == (Sec.A - (n * Sec.A) \div 20) \div 2
           IN Clip(((ac - fl - Sec.Aweld) * 1000) \div Sec.Aw, 0, 1000)
\* stresses at the web's edges of a welded section in 1/20000 fy: compressed side, other side
WebEdge == IF m > 0 THEN n * 1000 - m * Sec.zt ELSE n * 1000 + m * Sec.zb
WebOther == IF m > 0 THEN n * 1000 + m * Sec.zb ELSE n * 1000 - m * Sec.zt
(* ------------------------ classes of the section ------------------------ *)
Top == Classes(Sec.top, C!Outstand(Fy))
Bottom == Classes(Sec.bot, C!Outstand(Fy))
Worst(U, V) == {Max(x, y) : x \in U, y \in V}
WebComp == Classes(Sec.web, C!Comp(Fy))
WebMixed ==
    IF Sec.kind = "WI"
    THEN IF WebEdge >= 0 THEN {1}
         ELSE Classes(Sec.web, <<Plastic(AlphaWI, 396, 72), Plastic(AlphaWI, 456, 83),
                                 Elastic((-WebOther) \div 10, Max((-WebEdge) \div 10, 1))>>)
    ELSE IF n = 0 THEN Classes(Sec.web, C!Bend(Fy))
    ELSE IF n * 100 >= Sec.straight * Abs(m) THEN {1}        \* whole web in tension
    ELSE Classes(Sec.web, <<Plastic(AlphaSym, 396, 72), Plastic(AlphaSym, 456, 83),
                            Elastic(-FarOther * 10, -FarCompressed * 10)>>)
Flanges ==
    CASE Sec.kind = "I" -> Top
      [] Sec.kind = "RHS" -> Classes(Sec.top, C!Comp(Fy))
      [] Sec.kind = "WI" ->
           LET t == IF n * 1000 - m * Sec.ft < 0 THEN Top ELSE {1}
               b == IF n * 1000 + m * Sec.fb < 0 THEN Bottom ELSE {1}
           IN Worst(t, b)
SectionClass ==
    IF ~AnyCompression THEN {1}
    ELSE IF Sec.kind = "CHS" THEN Classes(Sec.top, C!Tube(Fy))
    ELSE IF m = 0 THEN Worst(Flanges, WebComp)
    ELSE Worst(Flanges, WebMixed)
\* what follows from a class
Modulus(c) == IF c < 3 THEN "plastic" ELSE IF c = 3 \/ Sec.kind # "WI" THEN "elastic" ELSE "effective"
Together(c) == IF c < 3 /\ Abs(n) < 20 THEN "reduced moment" ELSE "sum"
(* ------------------------------- actions -------------------------------- *)
Init == s \in 1..Len(Secs) /\ g = 1 /\ n = 0 /\ m = 0 /\ act = [op |-> "make"] /\ PrintT(ToJson([init |-> St]))
Force == \E x \in Ns, y \in Ms : (x = n) # (y = m) /\ n' = x /\ m' = y
            /\ act' = [op |-> "force", n |-> x, m |-> y] /\ UNCHANGED <<s, g>>
Grade == \E x \in 1..Len(Grades) : x # g /\ g' = x /\ act' = [op |-> "grade", g |-> x] /\ UNCHANGED <<s, n, m>>
Ask == /\ act' = [op |-> "ask", cls |-> SectionClass, modulus |-> [c \in 1..4 |-> Modulus(c)],
                  together |-> [c \in 1..4 |-> Together(c)]]
       /\ UNCHANGED <<s, g, n, m>>
Next == Force \/ Grade \/ Ask
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
(* ------------------------------ properties ------------------------------ *)
Answered == [][act'.op = "ask" => act'.cls # {}]_vars
TensionIsClassOne == [][(act'.op = "ask" /\ n >= Abs(m)) => act'.cls = {1}]_vars
=============================================================================
