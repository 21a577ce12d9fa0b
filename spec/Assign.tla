---- MODULE Assign ----
(* Which section and material every member of a frame has after assignments to
   members and groups, and what the analysis model made of it must use.
   share[m] is the least member holding the same section object as m: a
   section assigned through a group or to a symmetric pair is one object.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS NM,      \* members 1..NM
          Pair,    \* symmetric partner of each member, 0 for none
          Groups,  \* seq of seqs of members
          Listed,  \* groups made from a list of members: the others take the section of the first
          Secs,    \* profiles
          Mats,    \* materials; new sections come with material 1
          Weigh    \* self-weight is added
VARIABLES sec, mat, share, made, gen, sw, act
vars == <<sec, mat, share, made, gen, sw, act>>
View == <<sec, mat, share, made, gen, sw>>
M == 1..NM
With(S) == S \cup {Pair[m] : m \in {m \in S : Pair[m] # 0}}
Held(m) == {n \in M : share[n] = share[m]}
St == [sec |-> sec, mat |-> mat, hid |-> <<share, made>>, gen |-> gen, sw |-> sw,
       \* elements of generated members: section and material of the member, now
       el |-> IF gen THEN [m \in M |-> <<sec[m], mat[m]>>] ELSE <<>>]
Init == /\ sec = [m \in M |-> 1] /\ mat = [m \in M |-> 1] /\ share = [m \in M |-> m]
        /\ made = {} /\ gen = FALSE /\ sw = [m \in M |-> 0] /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
\* members S get one new section object
Reclass(S) == LET keep == [m \in M \ S |-> Min(Held(m) \ S)]
              IN [m \in M |-> IF m \in S THEN Min(S) ELSE keep[m]]
Give(S, p) == /\ sec' = [m \in M |-> IF m \in S THEN p ELSE sec[m]]
              /\ mat' = [m \in M |-> IF m \in S THEN 1 ELSE mat[m]]
              /\ share' = Reclass(S)
SetSec == \E m \in M, p \in Secs :
            /\ Give(With({m}), p) /\ act' = [op |-> "sec", m |-> m, p |-> p] /\ UNCHANGED <<made, gen, sw>>
GroupSec == \E g \in made : \E p \in Secs :
            /\ Give(With(Range(Groups[g])), p)
            /\ act' = [op |-> "gsec", g |-> g, p |-> p] /\ UNCHANGED <<made, gen, sw>>
\* a material is given to the section, so it is for members that do not share it with others
SetMat == \E m \in M, q \in Mats :
            /\ Held(m) \subseteq With({m})
            /\ mat' = [n \in M |-> IF n \in Held(m) THEN q ELSE mat[n]]
            /\ act' = [op |-> "mat", m |-> m, q |-> q] /\ UNCHANGED <<sec, share, made, gen, sw>>
GroupMat == \E g \in made : \E q \in Mats :
            LET G == Range(Groups[g]) H == UNION {Held(m) : m \in G} IN
            /\ H \subseteq With(G)
            /\ mat' = [n \in M |-> IF n \in H THEN q ELSE mat[n]]
            /\ act' = [op |-> "gmat", g |-> g, q |-> q] /\ UNCHANGED <<sec, share, made, gen, sw>>
\* the section object of member f is given to all of S (f keeps it, so those sharing it remain)
Join(S, f) == LET T == Held(f) \cup S
                  keep == [m \in M |-> Min((Held(m) \ T) \cup (IF m \in T THEN T ELSE {}))]
              IN keep
MakeGroup == \E g \in DOMAIN Groups \ made :
            /\ made' = made \cup {g}
            /\ IF g \in Listed
               THEN LET f == Groups[g][1] S == With(Range(Groups[g])) IN
                    /\ share' = Join(S, f)
                    /\ sec' = [m \in M |-> IF m \in S THEN sec[f] ELSE sec[m]]
                    /\ mat' = [m \in M |-> IF m \in S THEN mat[f] ELSE mat[m]]
               ELSE UNCHANGED <<sec, mat, share>>
            /\ act' = [op |-> "group", g |-> g, listed |-> g \in Listed] /\ UNCHANGED <<gen, sw>>
Generate == /\ gen' = TRUE /\ act' = [op |-> "gen"] /\ UNCHANGED <<sec, mat, share, made, sw>>
SelfWeight == /\ Weigh /\ sw' = sec /\ act' = [op |-> "sw"] /\ gen' = FALSE /\ UNCHANGED <<sec, mat, share, made>>
Next == MakeGroup \/ SetSec \/ GroupSec \/ SetMat \/ GroupMat \/ Generate \/ SelfWeight
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
SharedAgree == \A m, n \in M : share[m] = share[n] => sec[m] = sec[n] /\ mat[m] = mat[n]
OthersKept == [][\A m \in M : (act'.op = "sec" /\ m \notin With({act'.m})) => sec'[m] = sec[m] /\ mat'[m] = mat[m]]_vars
====
