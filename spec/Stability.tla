---- MODULE Stability ----
(* Stability of columns in frame analysis: linear buckling and second-order
   analysis of a column that is edited between the analyses.

   The column has length L and bending stiffness EI, is divided into elements,
   and is loaded by a compressive force P4/4, a transverse force h and a uniform
   transverse load q.  Its base is pinned, fixed, hinged by a release or held
   by a joint of a given rotational stiffness; its top is free, pinned, fixed,
   guided, held by a joint, held by a spring or tied to a leaning column.

   By similarity the response depends on the end conditions in the form of two
   dimensionless numbers (base stiffness r = kL/EI, top stiffness t) and, in
   second-order theory, on lambda^2 = P L^2 / EI.  The tables give
   the dimensionless solution of the differential equation
   EI v'''' + P v'' = q; the rest is stated here: the load factors
   scale with EI / (P L^2), deflections with h L^3 / EI and q L^4 / EI, moments with
   h L and q L^2, and h and q superpose.  Analyses depend on the current
   column only.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Bases,     \* seq of [n (name), r ("pin", "fix", "joint"), k]
          Tops,      \* seq of [n, c (kind), s (spring stiffness in quarters)]
          EIs, Ls, P4s, P2s, Hs, Qs,       \* sequences of choices
          Buck,      \* function: key -> seq of [b (beta^2, 1/1000), tol (1/1000), v (mode at the nodes, 1/1000)]
          Resp,      \* function: <<key, lambda^2 * 64>> -> [uh, mh, uq, mq] (at the nodes, 1/10000)
          Buckles,   \* TRUE when the elements are short enough for buckling analysis
          Second     \* TRUE when second-order analysis covers the elements used
VARIABLES base, top, ei, l, p, p2, h, q, act
vars == <<base, top, ei, l, p, p2, h, q, act>>
View == <<base, top, ei, l, p, p2, h, q>>
St == [base |-> base, top |-> top, ei |-> ei, l |-> l, p |-> p, p2 |-> p2, h |-> h, q |-> q]
EI == EIs[ei]  L == Ls[l]  P4 == P4s[p]
\* dimensionless base stiffness, times 2; -1 is rigid
R == CASE Bases[base].r = "fix" -> -1
       [] Bases[base].r = "pin" -> 0
       [] OTHER -> (2 * Bases[base].k * L) \div EI
\* dimensionless top condition: joint (guided or pinned) kL / EI times 2, spring c L^3 / EI times 2, leaning load ratio P2 / P times 4
T == CASE Tops[top].c = "spring" -> (Tops[top].s * L * L * L) \div (2 * EI)
       [] Tops[top].c \in {"gjoint", "pjoint"} -> (2 * Tops[top].s * L) \div EI
       [] Tops[top].c = "lean" -> (4 * P2s[p2]) \div P4
       [] OTHER -> 0
Key == <<R, Tops[top].c, T>>
Lam == (P4 * L * L * 16) \div EI
Mechanism == R = 0 /\ Tops[top].c \in {"free", "lean", "spring"}
Max(a, b) == IF a > b THEN a ELSE b
----
Init == /\ base = 1 /\ top = 1 /\ ei = 1 /\ l = 1 /\ p = 1 /\ p2 = 1 /\ h = 1 /\ q = 1
        /\ act = <<>> /\ PrintT(ToJson([init |-> St]))
SetBase == \E z \in DOMAIN Bases : base' = z /\ z # base /\ act' = [op |-> "set", k |-> "base", i |-> z, v |-> Bases[z]]
           /\ UNCHANGED <<top, ei, l, p, p2, h, q>>
SetTop == \E z \in DOMAIN Tops : top' = z /\ z # top /\ act' = [op |-> "set", k |-> "top", i |-> z, v |-> Tops[z]]
          /\ UNCHANGED <<base, ei, l, p, p2, h, q>>
SetEI == \E z \in DOMAIN EIs : ei' = z /\ z # ei /\ act' = [op |-> "set", k |-> "ei", i |-> z, v |-> EIs[z]]
         /\ UNCHANGED <<base, top, l, p, p2, h, q>>
SetL == \E z \in DOMAIN Ls : l' = z /\ z # l /\ act' = [op |-> "set", k |-> "l", i |-> z, v |-> Ls[z]]
        /\ UNCHANGED <<base, top, ei, p, p2, h, q>>
SetP == \E z \in DOMAIN P4s : p' = z /\ z # p /\ act' = [op |-> "set", k |-> "p", i |-> z, v |-> P4s[z]]
        /\ UNCHANGED <<base, top, ei, l, p2, h, q>>
SetP2 == \E z \in DOMAIN P2s : p2' = z /\ z # p2 /\ act' = [op |-> "set", k |-> "p2", i |-> z, v |-> P2s[z]]
         /\ UNCHANGED <<base, top, ei, l, p, h, q>>
SetH == \E z \in DOMAIN Hs : h' = z /\ z # h /\ act' = [op |-> "set", k |-> "h", i |-> z, v |-> Hs[z]]
        /\ UNCHANGED <<base, top, ei, l, p, p2, q>>
SetQ == \E z \in DOMAIN Qs : q' = z /\ z # q /\ act' = [op |-> "set", k |-> "q", i |-> z, v |-> Qs[z]]
        /\ UNCHANGED <<base, top, ei, l, p, p2, h>>
\* load factors of the compressive load, in 1/1000, lowest first; none in tension
Factors == IF P4 <= 0 THEN <<>>
           ELSE [j \in DOMAIN Buck[Key] |->
                  [al |-> (400 * Buck[Key][j].b * EI) \div (P4 * L * L), tol |-> Buck[Key][j].tol, b |-> Buck[Key][j].b,
                   v |-> Buck[Key][j].v]]
Buckle(k) == /\ Buckles /\ ~Mechanism
             /\ P4 > 0 => Key \in DOMAIN Buck
             /\ act' = [op |-> "buckle", k |-> k, f |-> Factors]
             /\ UNCHANGED <<base, top, ei, l, p, p2, h, q>>
LamKey == IF Lam < 0 THEN 0 ELSE Lam          \* members in tension: first-order theory
Analyse(m) == /\ Second /\ ~Mechanism /\ <<Key, LamKey>> \in DOMAIN Resp
              /\ LET t == Resp[<<Key, LamKey>>]  H == Hs[h]  Q == Qs[q]
                 IN act' = [op |-> "second", m |-> m,
                      u |-> [j \in DOMAIN t.uh |-> ((H * L * L * L * t.uh[j]) + (Q * L * L * L * (L * t.uq[j]))) \div EI],
                      mo |-> [j \in DOMAIN t.mh |-> (H * L * t.mh[j]) + (Q * L * L * t.mq[j])]]
              /\ UNCHANGED <<base, top, ei, l, p, p2, h, q>>
Next == SetBase \/ SetTop \/ SetEI \/ SetL \/ SetP \/ SetP2 \/ SetH \/ SetQ
        \/ (\E k \in {1, 2} : Buckle(k)) \/ (\E m \in {"REM", "ZERO"} : Analyse(m))
Spec == Init /\ [][Next]_vars
----
(* Laws of the model *)
\* load factors are ordered
Ordered == (P4 > 0 /\ ~Mechanism /\ Key \in DOMAIN Buck) =>
  \A j \in 2..Len(Factors) : Factors[j].al >= Factors[j - 1].al
\* compression increases deflections of the second-order solution over the first-order one, and a column
\* below its critical load has a solution
Larger == (Second /\ ~Mechanism /\ Lam > 0 /\ <<Key, Lam>> \in DOMAIN Resp) =>
  LET t == Resp[<<Key, Lam>>]  t0 == Resp[<<Key, 0>>]
  IN \A j \in DOMAIN t.uh : t.uh[j] >= t0.uh[j] /\ t.uq[j] >= t0.uq[j]
\* a stiffer base never lowers the first load factor
Stiffer == \A a, b \in {x \in DOMAIN Buck : x[1] >= 0} :
  (a[2] = b[2] /\ a[3] = b[3] /\ a[1] < b[1]) => Buck[a][1].b <= Buck[b][1].b
Emit == PrintT(ToJson([s |-> St, a |-> act',
          t |-> [base |-> base', top |-> top', ei |-> ei', l |-> l', p |-> p', p2 |-> p2', h |-> h', q |-> q']]))
====
