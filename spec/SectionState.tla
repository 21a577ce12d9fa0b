---------------------------- MODULE SectionState ----------------------------
(* What a steel section answers.  A section is its dimensions, its material  *)
(* and the forces it carries; every query is a function of the parts it      *)
(* depends on (Uses) and of nothing else: not of what was asked or set       *)
(* before.  asked[q] is what query q has last been answered for.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dims,      \* Dims[k]: number of values of dimension k
          NMat, NForce,
          Queries,   \* number of queries
          Uses,      \* Uses[q]: subset of {"dim", "mat", "force"}
          Linked,    \* Linked[k]: dimensions that get the same value when k is set
          Track      \* queries whose last answers are part of the state
VARIABLES d, g, f, asked, last, act
vars == <<d, g, f, asked, last, act>>
View == <<d, g, f, asked, last>>
St == [d |-> d, g |-> g, f |-> f, hid |-> <<asked, last>>]
None == [d |-> <<>>, g |-> 0, f |-> 0]
Init ==
    /\ d = [k \in 1..Len(Dims) |-> 1] /\ g = 1 /\ f = 1
    /\ asked = [q \in Track |-> None] /\ last = 0
    /\ act = [op |-> "make"]
    /\ PrintT(ToJson([init |-> St]))
SetDim == \E k \in 1..Len(Dims) : \E v \in 1..Dims[k] :
    /\ d' = [j \in 1..Len(Dims) |-> IF j \in Linked[k] THEN v ELSE d[j]]
    /\ d' # d
    /\ act' = [op |-> "dim", k |-> k, v |-> v]
    /\ last' = 0
    /\ UNCHANGED <<g, f, asked>>
SetMat == \E x \in 1..NMat :
    /\ x # g /\ g' = x
    /\ act' = [op |-> "mat", x |-> x]
    /\ last' = 0
    /\ UNCHANGED <<d, f, asked>>
SetForce == \E x \in 1..NForce :
    /\ x # f /\ f' = x
    /\ act' = [op |-> "force", x |-> x]
    /\ last' = 0
    /\ UNCHANGED <<d, g, asked>>
\* the part of the section an answer is about
Part(q) == [d |-> IF "dim" \in Uses[q] THEN d ELSE <<>>,
            g |-> IF "mat" \in Uses[q] THEN g ELSE 0,
            f |-> IF "force" \in Uses[q] THEN f ELSE 0]
Query == \E q \in 1..Queries :
    /\ asked' = [p \in Track |-> IF p = q THEN Part(q) ELSE asked[p]]
    /\ last' = IF last = 0 THEN q ELSE last
    /\ act' = [op |-> "query", q |-> q, of |-> Part(q),
               \* asked before about the same part: the answer must be the same one
               again |-> q \in Track /\ asked[q] = Part(q)]
    /\ UNCHANGED <<d, g, f>>
Next == SetDim \/ SetMat \/ SetForce \/ Query
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
(* ------------------------------ properties ------------------------------ *)
QueriesChangeNothing == [][act'.op = "query" => UNCHANGED <<d, g, f>>]_vars
SettingKeepsOthers ==
    [][/\ act'.op = "dim" => (UNCHANGED <<g, f>> /\ \A j \in 1..Len(Dims) : j \notin Linked[act'.k] => d'[j] = d[j])
       /\ act'.op = "mat" => UNCHANGED <<d, f>>]_vars
\* an answer given again is for the same part of the section
SameAgain == [][(act'.op = "query" /\ act'.again) => act'.of = Part(act'.q)]_vars
=============================================================================
