---- MODULE FrameRuns ----
(* What the stored results of a frame belong to.  Loads 1..Len(Case) are added
   in order, load k belonging to load case Case[k]; the analysis model is
   generated from the loads there are; an analysis of a load case stores forces
   and displacements of the loads of that case in the model, with the sections
   members have at that time, and a design stores the utilisation of the stored
   forces with the sections at the time of the design.  Results of other load
   cases stay as they were.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Case,      \* load case of every load
          Secs,      \* section alternatives of the frame
          MaxAnalyses
VARIABLES k, g, sec, res, ut, n, act
vars == <<k, g, sec, res, ut, n, act>>
View == <<k, g, sec, res, ut, n>>
LC == {Case[i] : i \in DOMAIN Case}
Of(l, m) == {i \in 1..m : Case[i] = l}
St == [res |-> res, ut |-> ut, hid |-> <<k, g, sec, n>>]
Init == /\ k = 1 /\ g = 0 /\ sec = 1 /\ n = 0
        /\ res = [l \in LC |-> [of |-> {}, sec |-> 0]] /\ ut = [l \in LC |-> [of |-> {}, sec |-> 0, by |-> 0]]
        /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
AddLoad == /\ k < Len(Case) /\ k' = k + 1 /\ act' = [op |-> "load", i |-> k + 1] /\ UNCHANGED <<g, sec, res, ut, n>>
Generate == /\ g' = k /\ act' = [op |-> "generate"] /\ UNCHANGED <<k, sec, res, ut, n>>
Section(s) == /\ s # sec /\ sec' = s /\ act' = [op |-> "section", s |-> s] /\ UNCHANGED <<k, g, res, ut, n>>
Run(L, d, how) ==
   /\ n < MaxAnalyses /\ n' = n + 1
   /\ \A l \in L : Of(l, g) # {}
   /\ res' = [l \in LC |-> IF l \in L THEN [of |-> Of(l, g), sec |-> sec] ELSE res[l]]
   /\ ut' = [l \in LC |-> IF l \in L /\ d THEN [of |-> Of(l, g), sec |-> sec, by |-> sec] ELSE ut[l]]
   /\ act' = [op |-> "analyse", how |-> how, L |-> L, design |-> d] /\ UNCHANGED <<k, g, sec>>
Analyse == \E l \in LC : \E d \in BOOLEAN : Run({l}, d, "one")
AnalyseAll == \E d \in BOOLEAN : /\ g = k /\ Run({Case[i] : i \in 1..k}, d, "all")
Design == \E l \in LC :
   /\ res[l].sec # 0
   /\ ut' = [ut EXCEPT ![l] = [of |-> res[l].of, sec |-> res[l].sec, by |-> sec]]
   /\ act' = [op |-> "design", l |-> l] /\ UNCHANGED <<k, g, sec, res, n>>
Next == AddLoad \/ Generate \/ (\E s \in Secs : Section(s)) \/ Analyse \/ AnalyseAll \/ Design
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
OwnLoads == \A l \in LC : res[l].of \subseteq Of(l, k) /\ ut[l].of \subseteq Of(l, k)
OnlyAsked == [][\A l \in LC : (act'.op = "analyse" /\ l \notin act'.L) => res'[l] = res[l] /\ ut'[l] = ut[l]]_vars
====
