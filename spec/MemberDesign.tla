---- MODULE MemberDesign ----
(* Forces and utilisation of one member.  The analysis leaves end forces on
   every element of the member; the member collects them per load case, finds
   extremes, and designs itself for a load case: the utilisation is the largest
   over named checks, whose arguments this specification determines and whose
   formulas the replaying harness evaluates on its own.

   A force pattern is [N |-> .., V |-> .., M |-> ..], each a sequence over the
   points 1..NE+1 of the member (element e runs from point e to e+1).         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS NE, NLC,
          Ns, Vs, Ms,   \* sets of sequences over the points
          Once          \* patterns are analysed once and designed once (wide, shallow)
VARIABLES fem, col, des, act
vars == <<fem, col, des, act>>
View == <<fem, col, des>>
None == [N |-> <<>>, V |-> <<>>, M |-> <<>>]
LC == 1..NLC
Pts == 1..(NE + 1)
Pool == {[N |-> n, V |-> v, M |-> m] : n \in Ns, v \in Vs, m \in Ms}
St == [col |-> col, des |-> des, hid |-> fem]
Init == /\ fem = [l \in LC |-> None] /\ col = [l \in LC |-> None] /\ des = [l \in LC |-> None]
        /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(s) == Max(Range(s))
MinOf(s) == Min(Range(s))
\* the values of largest magnitude (both signs may attain it)
Extreme(s) == {x \in Range(s) : \A y \in Range(s) : Abs(y) <= Abs(x)}

Analyse == \E l \in LC : \E p \in Pool :
   /\ Once => fem[l] = None
   /\ fem' = [fem EXCEPT ![l] = p] /\ act' = [op |-> "analyse", l |-> l, p |-> p] /\ UNCHANGED <<col, des>>
Collect == \E l \in LC :
   /\ fem[l] # None /\ (Once => col[l] = None)
   /\ col' = [col EXCEPT ![l] = fem[l]]
   /\ act' = [op |-> "collect", l |-> l,
              exp |-> [N |-> fem[l].N, V |-> fem[l].V, M |-> fem[l].M,
                       xN |-> Extreme(fem[l].N), xV |-> Extreme(fem[l].V), xM |-> Extreme(fem[l].M)]]
   /\ UNCHANGED <<fem, des>>
\* arguments of the checks of the member under forces c
Checks(c) == LET nc == Min({0, MinOf(c.N)}) mm == Max({Abs(x) : x \in Range(c.M)}) IN
   [sections |-> [i \in Pts |-> <<c.N[i], c.V[i], c.M[i]>>],
    stability |-> nc < 0,          \* some section is in compression
    nc |-> nc, mm |-> mm,
    ends |-> <<c.M[1], c.M[NE + 1]>>,
    mid |-> IF NE % 2 = 0 THEN <<c.M[(NE \div 2) + 1]>> ELSE <<>>]
Design == \E l \in LC :
   /\ col[l] # None /\ (Once => des[l] = None)
   /\ des' = [des EXCEPT ![l] = col[l]]
   /\ act' = [op |-> "design", l |-> l, exp |-> Checks(col[l])] /\ UNCHANGED <<fem, col>>
\* greatest and least forces over load cases L
Attain(L, k, f(_)) == LET best == f({f(Range(col[l][k])) : l \in L})
                      IN [v |-> best, at |-> {<<l, i>> \in L \X Pts : col[l][k][i] = best}]
MaxForces == \E L \in SUBSET LC :
   LET D == {l \in L : col[l] # None} IN
   /\ D # {} /\ ~Once
   /\ act' = [op |-> "extremes", L |-> L,
              exp |-> [k \in {"N", "V", "M"} |-> [max |-> Attain(D, k, Max), min |-> Attain(D, k, Min)]]]
   /\ UNCHANGED <<fem, col, des>>
Next == Analyse \/ Collect \/ Design \/ MaxForces
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
\* the forces designed for are ones that were collected, and those came from an analysis
Causal == \A l \in LC : (des[l] # None => des[l] \in Pool) /\ (col[l] # None => col[l] \in Pool)
\* reversing a member changes neither its extremes nor which checks apply
Mirror == \A l \in LC : col[l] # None =>
   LET c == col[l] r == [N |-> Reverse(c.N), V |-> Reverse(c.V), M |-> Reverse(c.M)] IN
   /\ Checks(c).nc = Checks(r).nc /\ Checks(c).mm = Checks(r).mm
   /\ Range(Checks(c).sections) = Range(Checks(r).sections) /\ Checks(c).mid = Checks(r).mid
====
