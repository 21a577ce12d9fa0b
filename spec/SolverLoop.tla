----------------------------- MODULE SolverLoop -----------------------------
(* The iteration every step-based solver runs: take an action, clip it to the
   bounds, evaluate, keep the best feasible design, log, test for convergence.
   The action is the environment: any move of Moves may be taken next.
   Designs are points of an integer grid; Fval gives the (signed) objective,
   Gval the constraint values in tenths of the feasibility tolerance.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Lb, Ub, Moves, Starts, MaxIter,
          ObjL, ObjQ, ObjK, ObjMax,   \* objective  k + l.x + q.x^2, maximised?
          Con,                        \* constraints [type, l, k]: l.x + k
          FineN                       \* 0, or: designs closer than FineN grid steps count as unchanged

VARIABLES x,      \* current design
          best,   \* <<f, design>> or <<>>
          log,    \* iterates [x, f, g, best]
          it, done, act
vars == <<x, best, log, it, done, act>>
View == <<x, best, it, done, log>>
V == 1..N

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN f[e] + Sum(f, S \ {e})
Dot(l, p) == Sum([v \in V |-> l[v] * p[v]], V)
Abs(a) == IF a < 0 THEN -a ELSE a
F(p) == (IF ObjMax THEN -1 ELSE 1) * (ObjK + Dot(ObjL, p) + Sum([v \in V |-> ObjQ[v] * p[v] * p[v]], V))
G(p) == [c \in DOMAIN Con |-> Con[c].k + Dot(Con[c].l, p)]
Sat(c, g) == CASE Con[c].type = "<" -> g <= 10
               [] Con[c].type = ">" -> g >= -10
               [] Con[c].type = "=" -> Abs(g) <= 10
Feas(p) == \A c \in DOMAIN Con : Sat(c, G(p)[c])
Clip(v, a) == IF a < Lb[v] THEN Lb[v] ELSE IF a > Ub[v] THEN Ub[v] ELSE a
Move(p, d) == [v \in V |-> Clip(v, p[v] + d[v])]

\* relative change of the design below tolerance: only an unchanged non-zero design
SameX(p, q) == IF FineN = 0 THEN p = q /\ \E v \in V : p[v] # 0
               ELSE Abs(q[1] - p[1]) < FineN
\* |f1 - f0| <= 1e-8 + 1e-4 |f0|
SameF(p, q) == 10000 * Abs(F(q) - F(p)) <= Abs(F(p))
Converged(p, q) == Feas(q) /\ (SameX(p, q) \/ SameF(p, q))

Init == /\ x \in Starts /\ best = <<>> /\ log = <<>> /\ it = 0 /\ done = FALSE
        /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [x |-> x, log |-> log, it |-> it, done |-> done, best |-> best]]))

Iterate(d) ==
  /\ ~ done /\ it < MaxIter
  /\ LET q == Move(x, d)
         b == IF Feas(q) /\ (best = <<>> \/ F(q) < best[1]) THEN <<F(q), q>> ELSE best IN
     /\ x' = q /\ best' = b /\ it' = it + 1
     /\ log' = Append(log, [x |-> q, f |-> F(q), g |-> G(q)])
     \* bounds are those of the code: a start outside them is first clipped
     /\ done' = (Converged([v \in V |-> Clip(v, x[v])], q) \/ it + 1 = MaxIter)
  /\ act' = [op |-> "iterate", d |-> d]

Next == \E d \in Moves : Iterate(d)

St == [x |-> x, log |-> log, it |-> it, done |-> done, best |-> best]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

\* ---- properties --------------------------------------------------------------
FeasLog == {i \in DOMAIN log : Feas(log[i].x)}
BestIsBestFeasible ==
  /\ (best = <<>>) = (FeasLog = {})
  /\ best # <<>> => /\ Feas(best[2]) /\ best[1] = F(best[2])
                    /\ \A i \in FeasLog : best[1] <= log[i].f
                    /\ \E i \in FeasLog : log[i].x = best[2]
InBounds == it > 0 => \A v \in V : Lb[v] <= x[v] /\ x[v] <= Ub[v]
BestNeverWorsens == [][best # <<>> => best' # <<>> /\ best'[1] <= best[1]]_vars
StopsOnTime == it <= MaxIter /\ (it = MaxIter => done)
=============================================================================
