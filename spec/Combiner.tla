---- MODULE Combiner ----
(* EN 1990 combinations of permanent and variable loads.  Factors are integers
   in units of 1e-5, psi factors in tenths.  Loads of a pool are added in any
   order, imposed loads may be reduced for a loaded area, and the governing
   combinations are asked for at any time.  An answer names one of the
   combinations with the greatest value (any of them when several tie).     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS LoadP,    \* [k ("G" plain, "A" area, "Q" imposed, "S" snow, "W" wind), v, d ("x"/"y"), ids (seq)]
          Setups,   \* [cls, cc, kk]
          Spans     \* spans given for the reduction of imposed loads
VARIABLES su, on, val, act
vars == <<su, on, val, act>>
View == <<su, on, val>>

Psi(l) == LET k == LoadP[l].k IN
  CASE k = "W" -> <<6, 2, 0>>
    [] k = "S" -> (IF LoadP[l].v < 275 THEN <<7, 4, 2>> ELSE <<7, 5, 2>>)
    [] OTHER -> CASE su.cls = "A" -> <<7, 5, 3>> [] su.cls = "B" -> <<7, 5, 3>> [] su.cls = "C" -> <<7, 7, 3>>
                  [] su.cls = "D" -> <<7, 7, 6>> [] su.cls = "E" -> <<10, 9, 8>>
Kfi == IF su.cc = 3 THEN 11 ELSE IF su.cc = 2 THEN 10 ELSE 9      \* tenths
Perm == {l \in on : LoadP[l].k \in {"G", "A"}}
Vary == on \ Perm

(* a combination is a function from its loads to factors *)
Lead(q, fg, fq, fo(_)) == [l \in Perm \cup Vary |-> IF l \in Perm THEN fg ELSE IF l = q THEN fq ELSE fo(l)]
ULS == {[l \in Perm |-> 135 * Kfi * 100]} \cup
       {Lead(q, 115 * Kfi * 100, 150 * Kfi * 100, LAMBDA o : 15 * Kfi * Psi(o)[1] * 100) : q \in Vary}
Only == [l \in Perm |-> 100000]
Char == IF Vary = {} THEN {Only} ELSE {Lead(q, 100000, 100000, LAMBDA o : Psi(o)[1] * 10000) : q \in Vary}
Freq == IF Vary = {} THEN {Only}
        ELSE {Lead(q, 100000, Psi(q)[2] * 10000, LAMBDA o : Psi(o)[3] * 10000) : q \in Vary}
Quasi == {[l \in on |-> IF l \in Perm THEN 100000 ELSE Psi(l)[3] * 10000]}
Acc == {Only} \cup
       {Lead(q, 100000, (IF LoadP[q].k \in {"W", "S"} THEN Psi(q)[2] ELSE Psi(q)[3]) * 10000,
             LAMBDA o : Psi(o)[3] * 10000) : q \in Vary}
\* values in 1e-3 of the unit of the loads' hundredths (fits 32 bits)
Value(c) == MapThenSumSet(LAMBDA l : (c[l] \div 100) * val[l], DOMAIN c)
Best(cs) == LET m == Max({Value(c) : c \in cs}) IN {c \in cs : Value(c) = m}
Sides(c) ==
  LET top == IF DOMAIN c = {} THEN -1 ELSE Max(UNION {{LoadP[l].ids[i] : i \in DOMAIN LoadP[l].ids} : l \in DOMAIN c})
      at(i) == {l \in DOMAIN c : \E j \in DOMAIN LoadP[l].ids : LoadP[l].ids[j] = i}
      side(d) == [i \in 1..top + 1 |->
                   IF at(i - 1) = {} THEN <<>>
                   ELSE <<MapThenSumSet(LAMBDA l : IF LoadP[l].d = d THEN (c[l] \div 100) * val[l] ELSE 0, at(i - 1))>>]
  IN [x |-> side("x"), y |-> side("y")]
Report(cs) == SetToSeq({[f |-> [l \in DOMAIN LoadP |-> IF l \in DOMAIN c THEN c[l] ELSE -1],
                         v |-> Value(c), s |-> Sides(c)] : c \in Best(cs)})
St == [su |-> su, on |-> SetToSortSeq(on, LAMBDA x, y : x < y), val |-> val,
       orig |-> [l \in DOMAIN LoadP |-> LoadP[l].v]]

Init == /\ \E s \in Setups : su = s
        /\ on = {} /\ val = [l \in DOMAIN LoadP |-> 0]
        /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Add == \E l \in DOMAIN LoadP :
         /\ l \notin on /\ on' = on \cup {l}
         /\ val' = [val EXCEPT ![l] = LoadP[l].v * (IF LoadP[l].k = "G" THEN 1 ELSE su.kk)]
         /\ act' = [op |-> "add", l |-> l] /\ UNCHANGED su
\* alpha = 5/7 psi0 + 10 / (kk L), between 0.7 and 1 (hundredths), classes A-D
Alpha(L) == LET a == 50 + 1000 \div (su.kk * L) IN IF a < 70 THEN 70 ELSE IF a > 100 THEN 100 ELSE a
Reduced == \E l \in on : LoadP[l].k = "Q" /\ val[l] # LoadP[l].v * su.kk
Reduce == \E L \in Spans :
            /\ ~Reduced /\ on # {} /\ 1000 % (su.kk * L) = 0
            /\ val' = [l \in DOMAIN LoadP |-> IF l \in on /\ LoadP[l].k = "Q" /\ su.cls # "E"
                                             THEN (val[l] * Alpha(L)) \div 100 ELSE val[l]]
            /\ act' = [op |-> "reduce", L |-> L] /\ UNCHANGED <<su, on>>
Ask == /\ on # {}
       /\ act' = [op |-> "ask", uls |-> Report(ULS), char |-> Report(Char), freq |-> Report(Freq),
                  quasi |-> Report(Quasi), acc |-> Report(Acc), out |-> "governing"]
       /\ UNCHANGED <<su, on, val>>
Next == Add \/ Reduce \/ Ask
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
(* the governing value is at least that of the permanent loads and grows with added non-negative loads *)
Nonneg == \A l \in DOMAIN LoadP : LoadP[l].v >= 0
Governs == (on # {} /\ Nonneg) =>
   LET val0(cs) == Value(CHOOSE c \in Best(cs) : TRUE)
   IN val0(Char) >= val0(Freq) /\ val0(Freq) >= val0(Quasi)
====
