---- MODULE Discrete ----
(* Discrete design variables: which values are accepted, how far a value is
   from the allowed ones, the values used for rounding and for branching and
   the random designs.  Numbers are integers in units of 1e-5; the two
   tolerances are 10 and 100 units and queries stay off their exact edge.
   A variable is [kind, vals, tol, vtol, bnds, toks]: values (all integers
   between the bounds for integer variables), tolerance of acceptance and of
   violation, bound pairs it may be given and values it is asked about.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Var,      \* sequence of variables
          Hoods,    \* queries [x |-> <<..>>, k |-> n]
          Draws     \* number of random designs drawn at a time
VARIABLES b, act    \* b[v] = <<lower, upper>>
vars == <<b, act>>
View == b
V == DOMAIN Var
Range(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
Min(S) == CHOOSE m \in S : \A s \in S : m <= s
Max(S) == CHOOSE m \in S : \A s \in S : m >= s

Listed(v) == Range(Var[v].vals)
Inside(v, x) == b[v][1] <= x /\ x <= b[v][2]
AllowedSet(v) == {y \in Listed(v) : Inside(v, y)}
Dist(v, x) == Min({Abs(x - y) : y \in Listed(v)})
DistIn(v, x) == Min({Abs(x - y) : y \in AllowedSet(v)})

Accepts(v, x) == Inside(v, x) /\ Dist(v, x) <= Var[v].tol
Violation(v, x) == IF Dist(v, x) <= Var[v].vtol THEN 0 ELSE Dist(v, x)
Smaller(v, x) == {y \in Listed(v) : y < x}
Larger(v, x) == {y \in Listed(v) : y > x}

\* distances of the k allowed values nearest to x, in order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Sorted(S \ {Min(S)})
Nearest(v, x, k) ==
   LET ds == Sorted({Abs(y - x) * 4 + (IF y < x THEN 1 ELSE 0) : y \in AllowedSet(v)})
       n == IF Len(ds) < k THEN Len(ds) ELSE k
   IN [i \in 1..n |-> ds[i] \div 4]

Init == /\ b = [v \in V |-> Var[v].bnds[1]]
        /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [b |-> b]]))

SetBounds(v, n) == /\ b[v] # Var[v].bnds[n]
                   /\ b' = [b EXCEPT ![v] = Var[v].bnds[n]]
                   /\ act' = [op |-> "bounds", v |-> v, b |-> Var[v].bnds[n]]
Ask(v, x) == /\ UNCHANGED b
             /\ act' = [op |-> "allowed", v |-> v, x |-> x, out |-> Accepts(v, x)]
\* the nearest value is the nearest one within the bounds as well
Far(v, x) == /\ UNCHANGED b
             /\ Var[v].kind = "disc" \/ (Min(Listed(v)) <= x /\ x <= Max(Listed(v)))
             /\ AllowedSet(v) # {} /\ DistIn(v, x) = Dist(v, x)
             /\ act' = [op |-> "violation", v |-> v, x |-> x, out |-> Violation(v, x)]
Below(v, x) == /\ UNCHANGED b
               /\ Smaller(v, x) # {} /\ Inside(v, Max(Smaller(v, x)))
               /\ act' = [op |-> "smaller", v |-> v, x |-> x, out |-> Max(Smaller(v, x))]
Above(v, x) == /\ UNCHANGED b
               /\ Larger(v, x) # {} /\ Inside(v, Min(Larger(v, x)))
               /\ act' = [op |-> "larger", v |-> v, x |-> x, out |-> Min(Larger(v, x))]
Hood(n) == /\ UNCHANGED b
           /\ act' = [op |-> "hood", x |-> Hoods[n].x, k |-> Hoods[n].k,
                      out |-> [v \in V |-> Nearest(v, Hoods[n].x[v], Hoods[n].k)]]
Random == /\ UNCHANGED b
          /\ \A v \in V : AllowedSet(v) # {}
          /\ act' = [op |-> "random", n |-> Draws, out |-> "allowed"]

Next == \/ \E v \in V : \/ \E n \in DOMAIN Var[v].bnds : SetBounds(v, n)
                        \/ \E x \in Range(Var[v].toks) : Ask(v, x) \/ Far(v, x) \/ Below(v, x) \/ Above(v, x)
        \/ \E n \in DOMAIN Hoods : Hood(n)
        \/ Random

St == [b |-> b]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* an accepted value has no violation; the branching values exclude nothing;
   the nearest of the neighbours is at the distance of the violation *)
AcceptedIsExact == \A v \in V : \A x \in Range(Var[v].toks) : Accepts(v, x) => Violation(v, x) = 0
SplitLosesNothing == \A v \in V : \A x \in Range(Var[v].toks) :
    \A y \in AllowedSet(v) : \/ y = x \/ (Smaller(v, x) # {} /\ y <= Max(Smaller(v, x)))
                               \/ (Larger(v, x) # {} /\ y >= Min(Larger(v, x)))
RoundedIsNearest == \A v \in V : \A x \in Range(Var[v].toks) :
    AllowedSet(v) # {} => Nearest(v, x, 1)[1] = DistIn(v, x)
====
