------------------------------- MODULE Solve -------------------------------
(* What the solvers of linear, sequentially linearised and convex problems
   have to return.  Designs live on the grid of 1/U; the instances are such
   that the optimal vertices lie on the grid (for the convex problems the
   grid only bounds the optimum from above).

   Function values are integers in the scale U*U:
      F(x) = k + sum l x + sum q x^2     ->   k U^2 + U l X + q X^2          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind,     \* "lp", "slp", "mislp", "nlp"
          N,        \* variables (2 or 3)
          U,
          Lb, Ub,   \* bounds, in units 1
          Dom,      \* Dom[v] = {} for a continuous variable, else its allowed values
          Con,      \* sequence of [type, k, l, q]
          Obj,      \* [k, l, q, max]
          Starts,   \* set of designs (in units 1)
          Lockable, \* variables that may be fixed at their start value
          Lim,      \* move limits <<below, above>> in thousandths
          LimType,  \* "range" or "relative"
          Halve,    \* move limits halve after every step
          Beta,     \* bound of the feasibility variable (units 1); 0: not used
          Pot,      \* only constraints potentially active (within Pot halves) are linearised; -1: all
          MaxIt

VARIABLES x, locked, lim, beta, it, open, act
vars == <<x, locked, lim, beta, it, open, act>>
View == <<x, locked, lim, beta, it, open>>

V == 1..N
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + Sum(f, S \ {e})
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE m \in S : \A s \in S : s <= m
SetMin(S) == CHOOSE m \in S : \A s \in S : m <= s

Val(F, X) == F.k * U * U + Sum([v \in V |-> U * F.l[v] * X[v] + F.q[v] * X[v] * X[v]], V)
\* linearisation at X, evaluated at Y
LinF(F, X, Y) == Val(F, X) + Sum([v \in V |-> (U * F.l[v] + 2 * F.q[v] * X[v]) * (Y[v] - X[v])], V)
Sign == IF Obj.max THEN -1 ELSE 1

\* violation of a constraint with value g
Viol(type, g) == CASE type = "<" -> Max(g, 0)
                   [] type = ">" -> Max(-g, 0)
                   [] type = "=" -> IF g < 0 THEN -g ELSE g

\* ---- designs the next iterate is selected from -----------------------------
Hull(v) == U * Lb[v]..U * Ub[v]
Half(i, v, X) == (lim[i] * (IF LimType = "range" THEN U * (Ub[v] - Lb[v]) ELSE X[v])) \div 1000
Exact(i, v, X) == (lim[i] * (IF LimType = "range" THEN U * (Ub[v] - Lb[v]) ELSE X[v])) % 1000 = 0
Below(v, X) == {d \in Dom[v] : U * d < X[v]}
Above(v, X) == {d \in Dom[v] : U * d > X[v]}
\* the neighbouring allowed values can always be reached
WidthLo(v, X) == IF Dom[v] = {} \/ Below(v, X) = {} THEN Half(1, v, X) ELSE Max(Half(1, v, X), X[v] - U * SetMax(Below(v, X)))
WidthHi(v, X) == IF Dom[v] = {} \/ Above(v, X) = {} THEN Half(2, v, X) ELSE Max(Half(2, v, X), U * SetMin(Above(v, X)) - X[v])
Range(v, X) ==
  IF v \in locked THEN {X[v]}
  ELSE LET I == Max(U * Lb[v], X[v] - WidthLo(v, X))..Min(U * Ub[v], X[v] + WidthHi(v, X))
       IN IF Dom[v] = {} THEN I ELSE {i \in I : \E d \in Dom[v] : i = U * d}
Full(v) == IF v \in locked THEN {x[v]} ELSE IF Dom[v] = {} THEN Hull(v) ELSE {U * d : d \in Dom[v]}
Product(R) == IF N = 2 THEN {<<a, b>> : a \in R[1], b \in R[2]}
              ELSE {<<a, b, c>> : a \in R[1], b \in R[2], c \in R[3]}

\* ---- sequential linear programming ---------------------------------------------
\* a constraint is linearised when it is potentially active at the current design
Active(j) == Pot < 0 \/ (CASE Con[j].type = "<" -> 2 * Val(Con[j], x) >= -Pot * U * U
                          [] Con[j].type = ">" -> 2 * Val(Con[j], x) <= Pot * U * U
                          [] OTHER -> TRUE)
\* equalities of the mixed-integer problem and everything without the feasibility variable are strict
Strict(j) == Beta = 0 \/ (Kind = "mislp" /\ Con[j].type = "=")
Rows == {j \in DOMAIN Con : Active(j)}
StepSet ==
  LET S == {Y \in Product([v \in V |-> Range(v, x)]) :
              \A j \in Rows : Strict(j) => Viol(Con[j].type, LinF(Con[j], x, Y)) = 0}
      W == [Y \in S |-> SetMax({0} \cup {Viol(Con[j].type, LinF(Con[j], x, Y)) : j \in {j \in Rows : ~ Strict(j)}})]
      T == {Y \in S : W[Y] <= beta}
  IN IF T = {} THEN [best |-> {}, v |-> 0]
     ELSE LET m == SetMin({W[Y] : Y \in T})
              Q == {Y \in T : W[Y] = m}
              c == [Y \in Q |-> Sign * LinF(Obj, x, Y)]
              f == SetMin({c[Y] : Y \in Q})
          IN [best |-> {Y \in Q : c[Y] = f}, v |-> m]

\* ---- the whole problem ---------------------------------------------------------
FeasibleSet == {Y \in Product([v \in V |-> Full(v)]) : \A j \in DOMAIN Con : Viol(Con[j].type, Val(Con[j], Y)) = 0}
Optimum ==
  LET S == FeasibleSet
  IN IF S = {} THEN [feas |-> FALSE, f |-> 0, best |-> {}]
     ELSE LET c == [Y \in S |-> Sign * Val(Obj, Y)]
              f == SetMin({c[Y] : Y \in S})
          IN [feas |-> TRUE, f |-> f, best |-> {Y \in S : c[Y] = f}]

Init == /\ \E s \in Starts : x = [v \in V |-> U * s[v]]
        /\ locked \in (SUBSET Lockable) \ {V}
        /\ lim = Lim /\ beta = Beta * U * U /\ it = 0 /\ open = FALSE
        /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [x |-> x, locked |-> locked, lim |-> lim, beta |-> beta, it |-> it, open |-> open]]))

Solve ==
  /\ Kind \in {"lp", "nlp"} /\ it = 0 /\ it' = 1
  /\ UNCHANGED <<x, locked, lim, beta, open>>
  /\ LET o == Optimum IN act' = [op |-> "solve", feas |-> o.feas, f |-> o.f, best |-> o.best]

Step ==
  /\ Kind \in {"slp", "mislp"} /\ it < MaxIt /\ ~ open /\ it' = it + 1
  /\ \A v \in V, i \in 1..2 : (Kind = "slp" /\ LimType = "relative") => Exact(i, v, x)
  /\ LET o == StepSet IN
       /\ act' = [op |-> "step", best |-> IF o.best = {} THEN {x} ELSE o.best, v |-> o.v]
       /\ x' = IF Cardinality(o.best) = 1 THEN CHOOSE y \in o.best : TRUE ELSE x
       /\ open' = (Cardinality(o.best) > 1)
       /\ beta' = CASE Kind = "slp" -> IF o.best # {} /\ Beta > 0 /\ o.v < U * U THEN o.v ELSE beta
                    [] OTHER -> IF Halve THEN beta \div 2 ELSE beta
       /\ lim' = IF Halve THEN <<lim[1] \div 2, lim[2] \div 2>> ELSE lim
  /\ UNCHANGED locked

Next == Solve \/ Step
St == [x |-> x, locked |-> locked, lim |-> lim, beta |-> beta, it |-> it, open |-> open]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

\* ---- properties --------------------------------------------------------------
InBounds == \A v \in V : U * Lb[v] <= x[v] /\ x[v] <= U * Ub[v]
OnValues == \A v \in V : (Dom[v] # {} /\ it > 0) => \E d \in Dom[v] : x[v] = U * d
LinearProblem == \A j \in DOMAIN Con : \A v \in V : Con[j].q[v] = 0
Total(X) == SetMax({0} \cup {Viol(Con[j].type, Val(Con[j], X)) : j \in DOMAIN Con})
LocksKept == [][\A v \in locked : x'[v] = x[v]]_vars
\* on a linear problem no step increases the violation, and a step between feasible designs improves
Improves ==
  [][(LinearProblem /\ Kind = "slp" /\ Pot < 0) =>
       /\ Total(x') <= Total(x)
       /\ Total(x) = 0 => Sign * Val(Obj, x') <= Sign * Val(Obj, x)]_vars
\* a design that no step changes, inside its move limits, is an optimum
Settled ==
  [][(LinearProblem /\ Kind = "slp" /\ Pot < 0 /\ act'.op = "step" /\ x' = x /\ ~ open' /\ Total(x) = 0
      /\ \A v \in V \ locked : Half(1, v, x) > 0 /\ Half(2, v, x) > 0)
       => Sign * Val(Obj, x) = Optimum.f]_vars
=============================================================================
