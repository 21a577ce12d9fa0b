------------------------------- MODULE Sizing -------------------------------
(* Automatic choice of profiles.  Members carry one of finitely many force   *)
(* scenarios; what a profile of a catalogue makes of a scenario (utilisation *)
(* of the worst load case, class in compression, slenderness, width) comes   *)
(* from fresh designs of the real code, recorded in the constants.           *)
(*                                                                          *)
(* Mode "size": histories of load changes, manual assignments and sizing of  *)
(* units (single members, symmetric pairs, groups, multi-span members).      *)
(* Mode "frame": recorded runs of the frame-wide sizing loop (Traces).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Mode,
          NM,        \* members (spans of multi-span members counted)
          NF,        \* force scenarios per member
          Cats,      \* catalogues: sequence of lengths
          NG,        \* materials
          Start,     \* profile (of catalogue 1, material 1) of each member at the beginning
          Units,     \* sequence of [of |-> members sized together, via |-> members checked, kind |-> ..]
          Pars,      \* sequence of sizing parameters [umax, bmin, bmax, cls, sl]
          Puts,      \* manual assignments offered: set of <<unit, catalogue, profile>>
          U,         \* U[m][f][c][g][p]: utilisation, per mille rounded up
          B,         \* B[c][p]: width, mm
          Cls,       \* Cls[c][g][p]: class in pure compression
          Sl,        \* Sl[m][c][g][p]: slenderness, per mille rounded up
          Id,        \* Id[c][p]: profiles with the same area and moment of inertia have the same number
          Family,    \* Family[c]: the catalogue of profile type "CURRENT" for a profile of catalogue c
          Traces
VARIABLES f, sec, act, tr, rd, ok
vars == <<f, sec, act, tr, rd, ok>>

Members == 1..NM

Skipped(un, P, c, g, p) ==
    \/ P.filters /\ (B[c][p] < P.bmin \/ B[c][p] > P.bmax)
    \/ Cls[c][g][p] > P.cls
    \/ P.filters /\ \E m \in un.slend : Sl[m][c][g][p] > P.sl

Adequate(un, P, ff, c, g, p) == \A m \in un.check : U[m][ff[m]][c][g][p] <= P.umax

Candidates(un, P, ff, c, g) ==
    { p \in 1..Cats[c] : ~Skipped(un, P, c, g, p) /\ Adequate(un, P, ff, c, g, p) }

Chosen(un, P, ff, c, g) ==
    LET Q == Candidates(un, P, ff, c, g) IN IF Q = {} THEN Cats[c] ELSE Min(Q)

\* what the algorithm does: walks the catalogue, leaves at the first adequate profile
RECURSIVE Walk(_, _, _, _, _, _)
Walk(un, P, ff, c, g, p) ==
    IF ~Skipped(un, P, c, g, p) /\ Adequate(un, P, ff, c, g, p) THEN p
    ELSE IF p = Cats[c] THEN p ELSE Walk(un, P, ff, c, g, p + 1)

St == [f |-> f, sec |-> sec]

Init ==
    /\ act = [op |-> "init"]
    /\ rd = 1 /\ ok = TRUE
    /\ IF Mode = "size"
       THEN /\ tr = 0
            /\ f = [m \in Members |-> 1]
            /\ sec = [m \in Members |-> [c |-> 1, g |-> 1, p |-> Start[m]]]
       ELSE /\ tr \in 1..Len(Traces)
            /\ f = <<>> /\ sec = Traces[tr].start
    /\ Mode = "size" => PrintT(ToJson([init |-> St]))

Load(m, x) ==
    /\ f[m] # x
    /\ f' = [f EXCEPT ![m] = x]
    /\ act' = [op |-> "load", m |-> m, f |-> x]
    /\ UNCHANGED sec

Put(i, c, p) ==
    /\ sec' = [m \in Members |-> IF m \in Units[i].of THEN [c |-> c, g |-> 1, p |-> p] ELSE sec[m]]
    /\ sec' # sec
    /\ act' = [op |-> "put", u |-> i, c |-> c, p |-> p]
    /\ UNCHANGED f

Size(i, c, g, k, cur) ==
    LET un == Units[i]
        P == [Pars[k] EXCEPT !.filters = @ /\ un.filters]
        fam == IF cur THEN Family[sec[un.lead].c] ELSE c
        q == Walk(un, P, f, fam, g, 1)
        new == [c |-> fam, g |-> g, p |-> q]
    IN  /\ cur => c = Family[sec[un.lead].c]
        /\ sec' = [m \in Members |-> IF m \in un.of THEN new ELSE sec[m]]
        /\ act' = [op |-> "size", u |-> i, c |-> fam, g |-> g, par |-> k, cur |-> cur,
                   \* members that report a change: the profile differs (not the material alone)
                   out |-> IF \E m \in un.flag : Id[sec[m].c][sec[m].p] # Id[fam][q] THEN 1 ELSE 0]
        /\ UNCHANGED f

SizeNext ==
    /\ Mode = "size"
    /\ \/ \E m \in Members : \E x \in 1..NF : Load(m, x)
       \/ \E x \in Puts : Put(x[1], x[2], x[3])
       \/ \E i \in 1..Len(Units) : \E c \in 1..Len(Cats) : \E g \in 1..NG : \E k \in 1..Len(Pars) :
             Size(i, c, g, k, FALSE) \/ Size(i, c, g, k, TRUE)
    /\ UNCHANGED <<tr, rd, ok>>

View == <<f, sec, tr, rd, ok>>

(* ------------------------------ properties ------------------------------ *)
\* the walk ends at the first adequate profile, or the last one; sizing again changes nothing
SizedRight ==
    [][act'.op = "size" =>
        LET un == Units[act'.u]
            P == [Pars[act'.par] EXCEPT !.filters = @ /\ un.filters]
            q == sec'[un.lead].p
        IN  /\ q = Chosen(un, P, f, act'.c, act'.g)
            /\ \A a, b \in un.of : sec'[a] = sec'[b]
            /\ \A a \in Members \ un.of : sec'[a] = sec[a]
            \* once more: the same profile, from the same catalogue
            /\ Family[sec'[un.lead].c] = act'.c
            /\ Walk(un, P, f', Family[sec'[un.lead].c], act'.g, 1) = q]_vars

(* ------------------------- the frame-wide loop --------------------------- *)
\* A trace: start |-> sections of the units, rounds |-> sequence of
\*   [an |-> sections when the frame was analysed,
\*    sized |-> sequence of [u |-> unit, first |-> the profile that is right for
\*              the forces of this analysis, got |-> profile it has afterwards,
\*              flag |-> change reported]],
\* nu |-> number of units, max |-> greatest number of rounds.
Round ==
    /\ Mode = "frame"
    /\ ok
    /\ rd <= Len(Traces[tr].rounds)
    /\ LET T == Traces[tr]
           r == T.rounds[rd]
           after == [u \in 1..T.nu |-> LET q == SelectSeq(r.sized, LAMBDA x : x.u = u) IN
                                       IF q = <<>> THEN <<"none">> ELSE q[Len(q)].got]
           good == /\ r.an = sec                                     \* analysed with the current profiles
                   /\ Len(r.sized) = T.nu /\ { r.sized[j].u : j \in 1..Len(r.sized) } = 1..T.nu
                   /\ \A j \in 1..Len(r.sized) :
                        /\ r.sized[j].got = r.sized[j].first
                        /\ r.sized[j].flag = (r.sized[j].got # sec[r.sized[j].u])
                   /\ rd < Len(T.rounds) => \E j \in 1..Len(r.sized) : r.sized[j].flag
                   /\ (rd = Len(T.rounds) /\ rd < T.max) => \A j \in 1..Len(r.sized) : ~r.sized[j].flag
       IN  /\ sec' = after
           /\ ok' = good
    /\ rd' = rd + 1
    /\ act' = [op |-> "round"]
    /\ UNCHANGED <<f, tr>>
Next == IF Mode = "size" THEN SizeNext ELSE Round
Emit == PrintT(ToJson(IF Mode = "size" THEN [s |-> St, a |-> act', t |-> St'] ELSE [tr |-> tr, rd |-> rd, ok |-> ok']))
Trail == ok
Fixpoint == (Mode = "frame" /\ ok /\ rd = Len(Traces[tr].rounds) + 1) => sec = Traces[tr].final
=============================================================================
