---- MODULE Penalty ----
(* Penalty functions and Lagrange multiplier updates.  Constraint i has value
   a_i.x + k_i and a sense; every variable may have a finite lower and/or upper
   bound.  Multipliers are integers (penalty factors are integers, values are
   integers).  A constraint only depends on variables that are offered inside
   their bounds, so its value does not depend on how a value outside the bounds
   is treated.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Con,      \* [sense, a, k]
          Bnd,      \* Bnd[v] = [lo, hi, haslo, hashi]
          Pts,      \* designs offered (sequence of sequences)
          ObjC,     \* objective coefficients
          Rs,       \* penalty factors
          MaxMult   \* exploration limit of the multipliers
VARIABLES mult, lbm, ubm, act
vars == <<mult, lbm, ubm, act>>
View == <<mult, lbm, ubm>>
C == DOMAIN Con
V == DOMAIN Bnd
Pos(x) == IF x > 0 THEN x ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Dot(a, x) == Sum([i \in 1..Len(x) |-> a[i] * x[i]])

G(i, x) == Dot(Con[i].a, x) + Con[i].k
Obj(x) == Dot(ObjC, x)
Viol(i, x) == CASE Con[i].sense = "<" -> Pos(G(i, x))
                [] Con[i].sense = ">" -> Pos(-G(i, x))
                [] OTHER -> Abs(G(i, x))
Low(v, x) == IF Bnd[v].haslo THEN Pos(Bnd[v].lo - x[v]) ELSE 0
Upp(v, x) == IF Bnd[v].hashi THEN Pos(x[v] - Bnd[v].hi) ELSE 0

Exact(x) == Sum([i \in 1..Len(Con) |-> Viol(i, x)]) + Sum([v \in 1..Len(Bnd) |-> Low(v, x) + Upp(v, x)])
Quad(x) == Sum([i \in 1..Len(Con) |-> Viol(i, x) * Viol(i, x)])
           + Sum([v \in 1..Len(Bnd) |-> Low(v, x) * Low(v, x) + Upp(v, x) * Upp(v, x)])

\* augmented Lagrangian: Rineq*max(m/(2 Rineq)+g,0)^2 = max(m+2 Rineq g,0)^2/(4 Rineq)
Sq(y) == y * y
AugIneq(m, g, R) == Sq(Pos(m + 2 * R * g))                 \* times 1/(4R)
AugTimes4R(x, R, Re) ==
   4 * R * Obj(x)
   + Sum([i \in 1..Len(Con) |->
        CASE Con[i].sense = "<" -> AugIneq(mult[i], G(i, x), R)
          [] Con[i].sense = ">" -> AugIneq(mult[i], -G(i, x), R)
          [] OTHER -> 4 * R * (Re * Sq(G(i, x)) - mult[i] * G(i, x))])
   + Sum([v \in 1..Len(Bnd) |->
        (IF Bnd[v].haslo THEN AugIneq(lbm[v], Bnd[v].lo - x[v], R) ELSE 0)
        + (IF Bnd[v].hashi THEN AugIneq(ubm[v], x[v] - Bnd[v].hi, R) ELSE 0)])

Init == /\ mult = [i \in C |-> 1] /\ lbm = [v \in V |-> 1] /\ ubm = [v \in V |-> 1]
        /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [mult |-> mult, lbm |-> lbm, ubm |-> ubm]]))

Same == UNCHANGED <<mult, lbm, ubm>>
AskExact(x, R) == Same /\ act' = [op |-> "exact", x |-> x, R |-> R, out |-> R * Exact(x)]
AskQuad(x, R) == Same /\ act' = [op |-> "exterior", x |-> x, R |-> R, out |-> Obj(x) + R * Quad(x)]
AskAug(x, R, Re) == Same /\ act' = [op |-> "auglag", x |-> x, R |-> R, Re |-> Re, out |-> AugTimes4R(x, R, Re)]
Update(x, R, Re) ==
   /\ mult' = [i \in C |-> CASE Con[i].sense = "<" -> Pos(mult[i] + 2 * R * G(i, x))
                              [] Con[i].sense = ">" -> Pos(mult[i] - 2 * R * G(i, x))
                              [] OTHER -> mult[i] - 2 * Re * G(i, x)]
   /\ lbm' = [v \in V |-> IF Bnd[v].haslo THEN Pos(lbm[v] + 2 * R * (Bnd[v].lo - x[v])) ELSE lbm[v]]
   /\ ubm' = [v \in V |-> IF Bnd[v].hashi THEN Pos(ubm[v] + 2 * R * (x[v] - Bnd[v].hi)) ELSE ubm[v]]
   /\ act' = [op |-> "update", x |-> x, R |-> R, Re |-> Re]

Next == \E n \in DOMAIN Pts : \E R \in Rs :
          \/ AskExact(Pts[n], R) \/ AskQuad(Pts[n], R)
          \/ \E Re \in Rs : AskAug(Pts[n], R, Re) \/ Update(Pts[n], R, Re)

Small(f) == \A i \in DOMAIN f : Abs(f[i]) <= MaxMult
Bounded == Small(mult) /\ Small(lbm) /\ Small(ubm)

St == [mult |-> mult, lbm |-> lbm, ubm |-> ubm]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

Ok(x) == (\A i \in C : Viol(i, x) = 0) /\ (\A v \in V : Low(v, x) = 0 /\ Upp(v, x) = 0)
ZeroIffSatisfied == \A n \in DOMAIN Pts : (Exact(Pts[n]) = 0) = Ok(Pts[n]) /\ (Quad(Pts[n]) = 0) = Ok(Pts[n])
                       /\ Exact(Pts[n]) >= 0 /\ Quad(Pts[n]) >= 0
NonNegative == /\ \A i \in C : Con[i].sense # "=" => mult[i] >= 0
               /\ \A v \in V : lbm[v] >= 0 /\ ubm[v] >= 0
====
