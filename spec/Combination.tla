---- MODULE Combination ----
(* Combining the load cases of a frame.  Every case has one category; a
   combination takes its cases in order, the first one that has variable loads
   is leading.  Combining gives for each load of each case one combined load
   whose scaling factor is the load's own times the design factor (in
   thousandths here).  Loads may be added and rescaled between combinations;
   combining again replaces the loads of that combination.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS Cats,     \* per case: set of categories it may have
          LoadP,    \* seq of [k, c, f (possible scaling factors)]; c = index of the case
          CombP,    \* seq of [t ("ULS"/"SLS"), cs (seq of case indices), id]
          Start,    \* number of loads present at the start
          Again     \* combinations may be made again
VARIABLES cat, on, fac, comb, gen, act
vars == <<cat, on, fac, comb, gen, act>>
View == <<cat, on, fac, comb, gen>>

Psi0(g) == IF g = "WIND" THEN 600 ELSE 700
\* EN 1990 with the Finnish national annex values the library documents
Factor(t, g, lead) ==
  IF g = "DEAD" THEN (IF t = "ULS" THEN 1150 ELSE 1000)
  ELSE LET full == IF t = "ULS" THEN 1500 ELSE 1000
       IN IF lead THEN full ELSE (full * Psi0(g)) \div 1000
LoadsOf(c) == {l \in on : LoadP[l].c = c}
Variable(c) == LoadsOf(c) # {} /\ cat[c] # "DEAD"
Lead(k) == LET cs == CombP[k].cs
               v == {i \in DOMAIN cs : Variable(cs[i])}
           IN IF v = {} THEN 0 ELSE cs[Min(v)]
Combined(k) == {<<l, LoadP[l].f[fac[l]] * Factor(CombP[k].t, cat[LoadP[l].c], LoadP[l].c = Lead(k))>> :
                  l \in {l \in on : \E i \in DOMAIN CombP[k].cs : CombP[k].cs[i] = LoadP[l].c}}
Sort(S) == SetToSortSeq(S, LAMBDA x, y : x[1] < y[1])
St == [cat |-> cat, on |-> SetToSortSeq(on, LAMBDA x, y : x < y), fac |-> fac, gen |-> gen,
       comb |-> [k \in DOMAIN CombP |-> Sort(comb[k])],
       fem |-> IF gen THEN [k \in DOMAIN CombP |-> Sort(comb[k])] ELSE <<>>,
       orig |-> [l \in DOMAIN LoadP |-> LoadP[l].f[fac[l]]]]
Init == /\ \E g \in [DOMAIN Cats -> UNION {Cats[c] : c \in DOMAIN Cats}] :
             (\A c \in DOMAIN Cats : g[c] \in Cats[c]) /\ cat = g
        /\ on = 1..Start /\ fac = [l \in DOMAIN LoadP |-> 1]
        /\ comb = [k \in DOMAIN CombP |-> {}] /\ gen = FALSE
        /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Add == \E l \in DOMAIN LoadP : /\ l \notin on /\ on' = on \cup {l} /\ gen' = FALSE
                               /\ act' = [op |-> "add", l |-> l] /\ UNCHANGED <<cat, fac, comb>>
Scale == \E l \in on : \E j \in DOMAIN LoadP[l].f :
           /\ j # fac[l] /\ fac' = [fac EXCEPT ![l] = j] /\ gen' = FALSE
           /\ act' = [op |-> "scale", l |-> l, f |-> LoadP[l].f[j]] /\ UNCHANGED <<cat, on, comb>>
\* new: a new combination object is added instead of combining the old one
Combine == \E k \in DOMAIN CombP : \E new \in BOOLEAN :
             /\ (Again \/ comb[k] = {})
             /\ (comb[k] = {} => new)
             /\ comb' = [comb EXCEPT ![k] = Combined(k)] /\ gen' = FALSE
             /\ act' = [op |-> "comb", k |-> k, new |-> new] /\ UNCHANGED <<cat, on, fac>>
Generate == /\ gen' = TRUE /\ act' = [op |-> "gen"] /\ UNCHANGED <<cat, on, fac, comb>>
Next == Add \/ Scale \/ Combine \/ Generate
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

\* one leading case at most, and nothing but the loads of the cases is combined
OneLead == \A k \in DOMAIN CombP : Lead(k) = 0 \/ cat[Lead(k)] # "DEAD"
OnceEach == \A k \in DOMAIN CombP : \A p, q \in comb[k] : p[1] = q[1] => p = q
====
