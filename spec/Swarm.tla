---- MODULE Swarm ----
(* Personal and global bests of a population.  A design is a number d; F(d)
   orders objectives, G(d) is 0 for a feasible design and orders violations
   otherwise.  Each round every particle visits a design.

   Mode "design": all visits are explored with the update rule of the bests
   and the rounds are emitted to be scripted into the real swarm.
   Mode "trace": rounds recorded from real runs (swarm or genetic) must keep
   the bests truthful; fitness of a genetic run is its penalised objective
   (all designs then count as feasible).                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode, NP, FT, GT,      \* design mode: particles, objective and violation tables
          MaxRounds, Traces
VARIABLES tr, k, seen,          \* seen[p] = designs particle p has visited
          pbest, gbest, act
vars == <<tr, k, seen, pbest, gbest, act>>
View == IF Mode = "design" THEN <<tr, k, seen, pbest, gbest, act>> ELSE <<tr, k, seen, pbest, gbest>>
P == 1..NP
D == DOMAIN FT
T == Traces[tr]
F(d) == IF Mode = "design" THEN FT[d] ELSE T.f[d]
G(d) == IF Mode = "design" THEN GT[d] ELSE T.g[d]

\* d is at least as good as e
NoWorse(d, e) == IF G(e) = 0 THEN G(d) = 0 /\ F(d) <= F(e)
                 ELSE G(d) <= G(e)
BestOf(d, S) == d \in S /\ \A e \in S : NoWorse(d, e)

(* ---------------------------------------------------------------- design *)
Upd(old, d) == IF old = 0 THEN d
               ELSE IF G(old) > 0 THEN (IF G(d) <= G(old) THEN d ELSE old)
               ELSE (IF G(d) = 0 /\ F(d) <= F(old) THEN d ELSE old)
RECURSIVE Fold(_, _)
Fold(old, s) == IF s = <<>> THEN old ELSE
   Fold(IF old = 0 THEN Head(s)
        ELSE IF G(old) > 0 THEN (IF G(Head(s)) < G(old) THEN Head(s) ELSE old)
        ELSE (IF G(Head(s)) = 0 /\ F(Head(s)) < F(old) THEN Head(s) ELSE old), Tail(s))
Round(m) == /\ k' = k + 1 /\ tr' = tr
            /\ seen' = [p \in P |-> seen[p] \cup {m[p]}]
            /\ pbest' = [p \in P |-> Upd(pbest[p], m[p])]
            /\ gbest' = Fold(gbest, m)
            /\ act' = Append(act, m)
DesignNext == k < MaxRounds /\ \E m \in [P -> D] : Round(m)

(* ----------------------------------------------------------------- trace *)
E == T.rounds[k + 1]
Step == /\ k < Len(T.rounds)
        /\ k' = k + 1 /\ tr' = tr /\ act' = act
        /\ seen' = [p \in DOMAIN E.pos |->
                      (IF p \in DOMAIN seen THEN seen[p] ELSE {}) \cup {E.pos[p][i] : i \in DOMAIN E.pos[p]}]
        /\ pbest' = E.pb
        /\ gbest' = E.gb
        /\ E.truthful                                   \* recorded values are those of the recorded designs
        /\ \A p \in DOMAIN E.pb : BestOf(E.pb[p], seen'[p])
        /\ LET all == UNION {seen'[p] : p \in DOMAIN seen'} IN
             /\ BestOf(E.gb, all)
             /\ \A d \in all : \A v \in DOMAIN T.x[d] :
                  /\ T.lo[v] <= T.x[d][v] /\ T.x[d][v] <= T.hi[v]
                  /\ T.kind[v] = "disc" => \E i \in DOMAIN T.vals[v] : T.vals[v][i] = T.x[d][v]
        /\ gbest # 0 => NoWorse(E.gb, gbest)

Init == /\ k = 0 /\ gbest = 0 /\ act = <<>>
        /\ tr \in (IF Mode = "design" THEN {1} ELSE DOMAIN Traces)
        /\ seen = IF Mode = "design" THEN [p \in P |-> {}] ELSE <<>>
        /\ pbest = IF Mode = "design" THEN [p \in P |-> 0] ELSE <<>>
Next == IF Mode = "design" THEN DesignNext ELSE Step

Emit == IF Mode = "design" THEN (k' = MaxRounds => PrintT(ToJson([moves |-> act'])))
        ELSE PrintT(ToJson([tr |-> tr, k |-> k', n |-> Len(T.rounds)]))

Truth == Mode = "design" /\ k > 0 =>
           /\ \A p \in P : BestOf(pbest[p], seen[p])
           /\ BestOf(gbest, UNION {seen[p] : p \in P})
Monotone == [][Mode = "design" /\ k > 0 => NoWorse(gbest', gbest) /\ \A p \in P : NoWorse(pbest'[p], pbest[p])]_vars
====
