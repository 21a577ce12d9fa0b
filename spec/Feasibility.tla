----------------------------- MODULE Feasibility -----------------------------
(* Verdicts on a design from its constraint values.  A value is a token
   <<n, u>>: n tenths of the feasibility tolerance (u = "c") or n hundredths
   of the activity tolerance (u = "p"), so the tolerance edges are exact.
   pot[i] is what constraint i remembers of its last evaluation.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cases,    \* set of sequences of senses
          Tokens    \* values offered
VARIABLES sense, pot, act
vars == <<sense, pot, act>>
View == <<sense, pot>>

\* the activity tolerance is far larger than the feasibility tolerance
AtMostTol(t)  == IF t[2] = "c" THEN t[1] <= 10 ELSE t[1] <= 0
AtLeastTol(t) == IF t[2] = "c" THEN t[1] >= -10 ELSE t[1] >= 0
Sat(s, t) == CASE s = "<" -> AtMostTol(t)
               [] s = ">" -> AtLeastTol(t)
               [] s = "=" -> AtMostTol(t) /\ AtLeastTol(t)
Pot(s, t) == CASE s = "<" -> ~(t[2] = "p" /\ t[1] < -100)
               [] s = ">" -> ~(t[2] = "p" /\ t[1] > 100)
               [] s = "=" -> TRUE

Init == /\ sense \in Cases
        /\ pot = [i \in DOMAIN sense |-> TRUE]
        /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [sense |-> sense, pot |-> pot]]))

\* every verdict the code offers on one vector of constraint values
Evaluate(g) ==
  LET ok == \A i \in DOMAIN sense : Sat(sense[i], g[i]) IN
  /\ UNCHANGED sense
  /\ pot' = [i \in DOMAIN sense |-> Pot(sense[i], g[i])]
  /\ act' = [op |-> "evaluate", g |-> g,
             out |-> [at_x |-> ok, at_current |-> ok, solver_at_x |-> ok, solver_stored |-> ok]]

\* one constraint alone
EvaluateOne(i, t) ==
  /\ UNCHANGED sense /\ pot' = [pot EXCEPT ![i] = Pot(sense[i], t)]
  /\ act' = [op |-> "one", i |-> i, t |-> t, out |-> t]

Next == \/ \E g \in [DOMAIN sense -> Tokens] : Evaluate(g)
        \/ \E i \in DOMAIN sense, t \in Tokens : EvaluateOne(i, t)

St == [sense |-> sense, pot |-> pot]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

\* safe side: an inactive inequality is satisfied
InactiveIsSatisfied == [][act'.op = "evaluate" => \A i \in DOMAIN sense : ~ pot'[i] => Sat(sense[i], act'.g[i])]_vars
\* widening the tolerance never makes a design infeasible is implied by the order of tokens
=============================================================================
