---------------------------- MODULE Approximation ----------------------------
(* Explicit approximations of a problem: the convex-linear (CONLIN) and the
   moving-asymptote (MMA) subproblem, as separate objects next to the problem
   they approximate.  Variables can be locked, designs substituted and either
   problem evaluated in any order between forming and using an approximation.

   All values are multiplied by the common denominator K, so that the
   approximations of integer polynomials at the offered points are exact:
     CONLIN   f + sum_{d>=0} d (x - xk) + sum_{d<0} d xk (x - xk) / x
     MMA      f + sum_{d>=0} p (1/(U-x) - 1/(U-xk)),  p =  (U-xk)^2 d
                + sum_{d<0}  q (1/(x-L) - 1/(xk-L)),  q = -(xk-L)^2 d        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* number of variables
          Dom,      \* Dom[v]: values offered to variable v (positive)
          Lb, Ub,   \* bounds
          Start,    \* initial design
          Con,      \* sequence of constraints [type, lin, fea, bvar, f]
          Objf,     \* objective [f, max]
          Asym,     \* asymptotes offered to MMA: set of <<L, U>> (one value for all variables)
          Kinds,    \* subset of {"conlin", "mma", "mmaproblem"}
          Mu,       \* move limits offered to "mma", in percent
          Lockable,
          K         \* common denominator

VARIABLES val, locked, app, aval, act
vars == <<val, locked, app, aval, act>>
View == <<val, locked, app, aval>>

V == 1..N
None == [kind |-> "none"]

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Poly(F, D) == F.k + Sum([v \in V |-> F.l[v] * D[v] + F.q[v] * D[v] * D[v]], V)
              + F.m * D[1] * D[IF N > 1 THEN 2 ELSE 1]
Slope(F, D, v) == F.l[v] + 2 * F.q[v] * D[v]
       + (IF N > 1 /\ v = 1 THEN F.m * D[2] ELSE 0) + (IF N > 1 /\ v = 2 THEN F.m * D[1] ELSE 0)

Sign == IF Objf.max THEN -1 ELSE 1
ConVal(c, D) == Poly(Con[c].f, D) - (IF Con[c].bvar = 0 THEN 0 ELSE D[Con[c].bvar])

Free == SelectSeq([i \in 1..N |-> i], LAMBDA v : ~ locked[v])
FreeOf(D) == [i \in 1..Len(Free) |-> D[Free[i]]]
Designs == {D \in [V -> UNION {Dom[v] : v \in V}] :
              \A v \in V : IF locked[v] THEN D[v] = val[v] ELSE D[v] \in Dom[v]}

\* ---- the approximation of function F (sign s) at q.at, evaluated at D -------
Term(q, d, xk, x) ==
  IF q.kind = "conlin"
  THEN IF d >= 0 THEN K * d * (x - xk) ELSE ((K * d * xk) \div x) * (x - xk)
  ELSE IF d >= 0 THEN (K \div (q.U - x)) * ((q.U - xk) * (q.U - xk) * d) - K * d * (q.U - xk)
       ELSE -((K \div (x - q.L)) * ((xk - q.L) * (xk - q.L) * d)) + K * d * (xk - q.L)
AppVal(q, F, s, D) ==
  s * K * Poly(F, q.at) +
  Sum([v \in V |-> IF v \in q.free THEN Term(q, s * Slope(F, q.at, v), q.at[v], D[v]) ELSE 0], V)
AppCon(q, c, D) == IF Con[c].lin THEN K * ConVal(c, D) ELSE AppVal(q, Con[c].f, 1, D)

\* bounds of the approximation, in percent of the unit
BLo(kind, v, x, L, mu) ==
  CASE kind = "conlin" -> 100 * Lb[v]
    [] kind = "mma" -> Max(100 * Lb[v], 100 * L + mu * (x - L))
    [] kind = "mmaproblem" -> Max(Max(100 * Lb[v], 100 * L + 10 * (x - L)), 100 * x - 50 * (Ub[v] - Lb[v]))
BHi(kind, v, x, U, mu) ==
  CASE kind = "conlin" -> 100 * Ub[v]
    [] kind = "mma" -> Min(100 * Ub[v], 100 * U - mu * (U - x))
    [] kind = "mmaproblem" -> Min(Min(100 * Ub[v], 100 * U - 10 * (U - x)), 100 * x + 50 * (Ub[v] - Lb[v]))

Init == /\ val = Start /\ locked = [v \in V |-> FALSE]
        /\ app = None /\ aval = <<>>
        /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [val |-> val, locked |-> locked, app |-> app, aval |-> aval]]))

\* ---- actions ------------------------------------------------------------------
Form(kind, D, L, U, mu) ==
  /\ Free # <<>>
  /\ val' = D /\ UNCHANGED locked
  /\ app' = [kind |-> kind, at |-> D, free |-> {v \in V : ~ locked[v]}, order |-> Free, L |-> L, U |-> U,
             lo |-> [i \in 1..Len(Free) |-> BLo(kind, Free[i], D[Free[i]], L, mu)],
             hi |-> [i \in 1..Len(Free) |-> BHi(kind, Free[i], D[Free[i]], U, mu)]]
  /\ aval' = FreeOf(D)
  /\ act' = [op |-> "form", kind |-> kind, x |-> FreeOf(D), L |-> L, U |-> U, mu |-> mu,
             out |-> [f |-> K * Sign * Poly(Objf.f, D)]]

Lock(v)   == /\ v \in Lockable /\ ~ locked[v] /\ locked' = [locked EXCEPT ![v] = TRUE]
             /\ UNCHANGED <<val, app, aval>> /\ act' = [op |-> "lock", v |-> v]
Unlock(v) == /\ locked[v] /\ locked' = [locked EXCEPT ![v] = FALSE]
             /\ UNCHANGED <<val, app, aval>> /\ act' = [op |-> "unlock", v |-> v]
Subst(D)  == /\ val' = D /\ UNCHANGED <<locked, app, aval>>
             /\ act' = [op |-> "subst", x |-> FreeOf(D)]
EvalCon(c, D) ==
  /\ val' = D /\ UNCHANGED <<locked, app, aval>>
  /\ act' = [op |-> "con", c |-> c, x |-> FreeOf(D), out |-> [g |-> ConVal(c, D)]]

\* a point of the approximation: its free variables at offered values inside its bounds
Points == {D \in [V -> UNION {Dom[v] : v \in V}] :
             /\ \A v \in V : IF v \in app.free THEN D[v] \in Dom[v] ELSE D[v] = app.at[v]
             /\ \A i \in 1..Len(app.order) :
                  app.lo[i] <= 100 * D[app.order[i]] /\ 100 * D[app.order[i]] <= app.hi[i]}
PointOf(D) == [i \in 1..Len(app.order) |-> D[app.order[i]]]

AppEvalCon(c, D) ==
  /\ UNCHANGED <<val, locked, app>> /\ aval' = PointOf(D)
  /\ act' = [op |-> "acon", c |-> c, x |-> PointOf(D), out |-> [g |-> AppCon(app, c, D)]]
AppEvalObj(D) ==
  /\ UNCHANGED <<val, locked, app, aval>>
  /\ act' = [op |-> "aobj", x |-> PointOf(D), out |-> [f |-> AppVal(app, Objf.f, Sign, D)]]
Next ==
  \/ \E D \in Designs : Subst(D)
  \/ \E v \in V : Lock(v) \/ Unlock(v)
  \/ \E c \in DOMAIN Con, D \in Designs : EvalCon(c, D)
  \/ "conlin" \in Kinds /\ \E D \in Designs : Form("conlin", D, 0, 0, 0)
  \/ "mma" \in Kinds /\ \E D \in Designs, a \in Asym, mu \in Mu : Form("mma", D, a[1], a[2], mu)
  \/ "mmaproblem" \in Kinds /\ \E D \in Designs, a \in Asym : Form("mmaproblem", D, a[1], a[2], 10)
  \/ app # None /\ \E D \in Points : AppEvalObj(D) \/ \E c \in DOMAIN Con : AppEvalCon(c, D)

St == [val |-> val, locked |-> locked, app |-> app, aval |-> aval]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

\* ---- properties ---------------------------------------------------------------
Formed == app # None
\* value at the approximation point, and the approximation point inside the bounds
ExactAtPoint ==
  Formed => /\ AppVal(app, Objf.f, Sign, app.at) = K * Sign * Poly(Objf.f, app.at)
            /\ \A c \in DOMAIN Con : AppCon(app, c, app.at) = K * ConVal(c, app.at)
PointInBounds ==
  Formed => \A i \in 1..Len(app.order) : /\ app.lo[i] <= 100 * app.at[app.order[i]]
                                         /\ 100 * app.at[app.order[i]] <= app.hi[i]
\* the bounds stay within those of the problem and strictly between the asymptotes
BoundsInside ==
  Formed => \A i \in 1..Len(app.order) :
      /\ 100 * Lb[app.order[i]] <= app.lo[i] /\ app.hi[i] <= 100 * Ub[app.order[i]]
      /\ app.kind # "conlin" => 100 * app.L < app.lo[i] /\ app.hi[i] < 100 * app.U
\* both approximations are convex and conservative to the tangent plane
Conservative ==
  Formed => \A D \in Points : \A c \in DOMAIN Con : ~ Con[c].lin =>
      AppVal(app, Con[c].f, 1, D) >=
        K * (Poly(Con[c].f, app.at) + Sum([v \in V |-> IF v \in app.free
                THEN Slope(Con[c].f, app.at, v) * (D[v] - app.at[v]) ELSE 0], V))
\* the problem and its approximation do not move each other
Separate == [][/\ act'.op \in {"acon", "aobj"} => UNCHANGED <<val, locked>>
               /\ act'.op \in {"con", "subst", "lock", "unlock"} => UNCHANGED <<app, aval>>]_vars
=============================================================================
