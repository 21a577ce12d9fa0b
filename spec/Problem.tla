------------------------------- MODULE Problem -------------------------------
(* An optimisation problem: design variables with locks, a structure whose
   fields they write, structural analyses per load case, an objective and
   constraints evaluated at points of the free variables, linearisation.
   One action per public call.

   Functions are polynomials  k + sum l_i x_i + sum q_i x_i^2 + m x_1 x_2 .
   A function that needs analysis reads, for every load case it asks for, the
   design the analysis was made for (`ana`), so a stale analysis would show.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* number of variables
          Dom,      \* Dom[v]: values offered to variable v
          Lb, Ub,   \* bounds
          Out,      \* extra values outside the bounds offered to Subst
          Kind,     \* "cont" | "int" | "disc" | "index"
          Start,    \* initial design
          Con,      \* sequence of constraints
          Objf,     \* objective: [f, max, fea]
          Lids,     \* load cases, "ALL" included when used
          PotTol4,  \* 4 * activity tolerance
          Lockable, \* variables that may be locked
          Ops       \* enabled operations

VARIABLES val, locked, done, ana, act
vars == <<val, locked, done, ana, act>>
View == <<val, locked, done>>

V == 1..N
None == <<>>

RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})

\* ---- functions -----------------------------------------------------------
Poly(F, D) == F.k + Sum([v \in V |-> F.l[v] * D[v] + F.q[v] * D[v] * D[v]], V)
              + F.m * D[1] * D[IF N > 1 THEN 2 ELSE 1]

\* change of Poly along variable v: exact derivative, or the unit difference
\* (step +1, or -1 at the upper bound) for an index variable
Slope(F, D, v) ==
  IF Kind[v] = "index"
  THEN LET h == IF D[v] + 1 > Ub[v] THEN -1 ELSE 1
       IN (Poly(F, [D EXCEPT ![v] = @ + h]) - Poly(F, D)) * h
  ELSE F.l[v] + 2 * F.q[v] * D[v]
       + (IF N > 1 /\ v = 1 THEN F.m * D[2] ELSE 0) + (IF N > 1 /\ v = 2 THEN F.m * D[1] ELSE 0)

\* load cases whose analysis constraint c reads
Reads(c) == IF Con[c].fea THEN {Con[c].lids[i] : i \in DOMAIN Con[c].lids} ELSE {}
Copies(c) == IF Con[c].fea THEN Cardinality(Reads(c)) ELSE 1

\* value of constraint c when the analyses are an (load case -> design)
ConVal(c, D, an) ==
  IF Con[c].fea THEN Sum([l \in Reads(c) |-> IF an[l] = None THEN 999999 ELSE Poly(Con[c].f, an[l])], Reads(c))
  ELSE Poly(Con[c].f, D) - (IF Con[c].bvar = 0 THEN 0 ELSE D[Con[c].bvar])

Fresh == [l \in Lids |-> val]
TrueVal(c, D) == ConVal(c, D, [l \in Lids |-> D])
ObjVal(D) == (IF Objf.max THEN -1 ELSE 1) * Poly(Objf.f, D)

Potential(c, g) == CASE Con[c].type = "<" -> ~(4 * g < -PotTol4)
                     [] Con[c].type = ">" -> ~(4 * g > PotTol4)
                     [] OTHER -> TRUE
Satisfied(c, g) == CASE Con[c].type = "<" -> g <= 0
                     [] Con[c].type = ">" -> g >= 0
                     [] OTHER -> g = 0

\* ---- designs reachable by giving values to the free variables -------------
Free == SelectSeq([i \in 1..N |-> i], LAMBDA v : ~ locked[v])
Designs == {D \in [V -> UNION {Dom[v] : v \in V}] :
              \A v \in V : IF locked[v] THEN D[v] = val[v] ELSE D[v] \in Dom[v]}
FreeOf(D) == [i \in 1..Len(Free) |-> D[Free[i]]]
Clamp(v, x) == IF x < Lb[v] THEN Lb[v] ELSE IF x > Ub[v] THEN Ub[v] ELSE x

Cleared == [l \in Lids |-> FALSE]
DoneIf(same) == IF same THEN done ELSE Cleared

\* analyse the load cases S at design D
Run(S, D, d0) == /\ done' = [l \in Lids |-> IF l \in S THEN TRUE ELSE d0[l]]
                 /\ ana' = [l \in Lids |-> IF l \in S /\ ~ d0[l] THEN D ELSE ana[l]]
Need(S, d0) == Cardinality({l \in S : ~ d0[l]})

Init == /\ val = Start /\ locked = [v \in V |-> FALSE]
        /\ done = Cleared /\ ana = [l \in Lids |-> None]
        /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [val |-> val, locked |-> locked, fld |-> val, done |-> done]]))

\* ---- actions ----------------------------------------------------------------
Subst(D) ==
  /\ val' = [v \in V |-> IF locked[v] THEN val[v] ELSE Clamp(v, D[v])]
  /\ done' = Cleared /\ UNCHANGED <<locked, ana>>
  /\ act' = [op |-> "subst", x |-> FreeOf(D), out |-> [again |-> FALSE, X |-> [i \in 1..Len(Free) |-> Clamp(Free[i], D[Free[i]])]], maxfea |-> 0]

Direct(v, x) ==
  /\ val' = IF locked[v] THEN val ELSE [val EXCEPT ![v] = x]
  /\ done' = DoneIf(val' = val) /\ UNCHANGED <<locked, ana>>
  /\ act' = [op |-> "direct", v |-> v, x |-> x, maxfea |-> 0]

Lock(v) ==
  /\ v \in Lockable /\ locked' = [locked EXCEPT ![v] = TRUE]
  /\ UNCHANGED <<val, done, ana>>
  /\ act' = [op |-> "lock", v |-> v]

LockAt(v, x) ==
  /\ v \in Lockable /\ locked' = [locked EXCEPT ![v] = TRUE]
  /\ val' = IF locked[v] THEN val ELSE [val EXCEPT ![v] = x]
  /\ done' = DoneIf(val' = val) /\ UNCHANGED ana
  /\ act' = [op |-> "lock_at", v |-> v, x |-> x]

Unlock(v) ==
  /\ v \in Lockable /\ locked' = [locked EXCEPT ![v] = FALSE]
  /\ UNCHANGED <<val, done, ana>>
  /\ act' = [op |-> "unlock", v |-> v]

Analyse(l) ==
  /\ done' = [done EXCEPT ![l] = TRUE] /\ ana' = [ana EXCEPT ![l] = val]
  /\ UNCHANGED <<val, locked>>
  /\ act' = [op |-> "fea", l |-> l, maxfea |-> 1]

EvalCon(c, D) ==
  LET d0 == DoneIf(D = val) IN
  /\ val' = D /\ UNCHANGED locked
  /\ Run(Reads(c), D, d0)
  /\ LET g == ConVal(c, D, ana') IN
     act' = [op |-> "con", c |-> c, x |-> FreeOf(D), maxfea |-> Need(Reads(c), d0),
             out |-> [g |-> g, pot |-> Potential(c, g), again |-> FALSE]]

AllReads == UNION {Reads(c) : c \in DOMAIN Con}

EvalAll(D) ==
  LET d0 == DoneIf(D = val) IN
  /\ val' = D /\ UNCHANGED locked
  /\ Run(AllReads, D, d0)
  /\ act' = [op |-> "cons", x |-> FreeOf(D), maxfea |-> Need(AllReads, d0),
             out |-> [g |-> [c \in DOMAIN Con |-> ConVal(c, D, ana')], again |-> FALSE]]

\* the equality constraints, and the inequalities in the form g >= 0
EvalEq(D) ==
  LET d0 == DoneIf(D = val)
      idx == SelectSeq([i \in DOMAIN Con |-> i], LAMBDA c : Con[c].type = "=") IN
  /\ idx # <<>> /\ val' = D /\ UNCHANGED locked
  /\ Run(UNION {Reads(c) : c \in {idx[i] : i \in DOMAIN idx}}, D, d0)
  /\ act' = [op |-> "eq", x |-> FreeOf(D), maxfea |-> Need(AllReads, d0),
             out |-> [g |-> [i \in DOMAIN idx |-> ConVal(idx[i], D, ana')], again |-> FALSE]]
EvalIneq(D) ==
  LET d0 == DoneIf(D = val)
      idx == SelectSeq([i \in DOMAIN Con |-> i], LAMBDA c : Con[c].type # "=") IN
  /\ idx # <<>> /\ val' = D /\ UNCHANGED locked
  /\ Run(UNION {Reads(c) : c \in {idx[i] : i \in DOMAIN idx}}, D, d0)
  /\ act' = [op |-> "ineq", x |-> FreeOf(D), maxfea |-> Need(AllReads, d0),
             out |-> [g |-> [i \in DOMAIN idx |-> (IF Con[idx[i]].type = "<" THEN -1 ELSE 1) * ConVal(idx[i], D, ana')],
                      again |-> FALSE]]

\* stops at the first unsatisfied constraint: which analyses were made is open
Feasible(D) ==
  LET d0 == DoneIf(D = val) IN
  /\ Con # <<>>
  /\ val' = D /\ UNCHANGED <<locked, ana>> /\ done' = d0
  /\ act' = [op |-> "feasible", x |-> FreeOf(D), maxfea |-> Need(AllReads, d0),
             out |-> [feas |-> \A c \in DOMAIN Con : Satisfied(c, TrueVal(c, D)), again |-> FALSE]]

EvalObj(D, neg) ==
  LET S == IF Objf.fea THEN {"ALL"} ELSE {} IN
  /\ val' = D /\ UNCHANGED locked
  /\ Run(S, D, Cleared)
  /\ act' = [op |-> "obj", x |-> FreeOf(D), neg |-> neg, maxfea |-> Cardinality(S),
             out |-> [f |-> (IF neg THEN -1 ELSE 1) * ObjVal(IF Objf.fea THEN ana'["ALL"] ELSE D), again |-> FALSE]]

Linearize(D, pot) ==
  LET idx == SelectSeq([i \in DOMAIN Con |-> i], LAMBDA c : ~ pot \/ Potential(c, TrueVal(c, D)))
      row(c) == [i \in 1..Len(Free) |->
                   Copies(c) * Slope(Con[c].f, D, Free[i]) - (IF Con[c].bvar = Free[i] THEN 1 ELSE 0)]
      rows == [j \in DOMAIN idx |-> row(idx[j])]
      rhs == [j \in DOMAIN idx |-> Sum([i \in 1..Len(Free) |-> row(idx[j])[i] * D[Free[i]]], 1..Len(Free))
                                   - TrueVal(idx[j], D)] IN
  /\ val' = D /\ UNCHANGED <<locked, ana>> /\ done' = Cleared
  /\ act' = [op |-> "linearize", x |-> FreeOf(D), pot |-> pot, maxfea |-> 100000,
             out |-> [A |-> rows, B |-> rhs, fx |-> ObjVal(D), again |-> FALSE,
                      df |-> [i \in 1..Len(Free) |-> (IF Objf.max THEN -1 ELSE 1) * Slope(Objf.f, D, Free[i])]]]

Next ==
  \/ "subst" \in Ops /\ \E D \in Designs : Subst(D)
  \/ "subst" \in Ops /\ \E D \in Designs, v \in V, x \in Out : Subst([D EXCEPT ![v] = x])
  \/ "direct" \in Ops /\ \E v \in V : \E x \in Dom[v] : Direct(v, x)
  \/ "lock" \in Ops /\ \E v \in V : (Lock(v) \/ Unlock(v))
  \/ "lock_at" \in Ops /\ \E v \in V : \E x \in Dom[v] : LockAt(v, x)
  \/ "fea" \in Ops /\ \E l \in Lids : Analyse(l)
  \/ "con" \in Ops /\ \E c \in DOMAIN Con, D \in Designs : EvalCon(c, D)
  \/ "cons" \in Ops /\ \E D \in Designs : EvalAll(D)
  \/ "split" \in Ops /\ \E D \in Designs : (EvalEq(D) \/ EvalIneq(D))
  \/ "feasible" \in Ops /\ \E D \in Designs : Feasible(D)
  \/ "obj" \in Ops /\ \E D \in Designs, neg \in BOOLEAN : EvalObj(D, neg)
  \/ "linearize" \in Ops /\ \E D \in Designs, pot \in BOOLEAN : Linearize(D, pot)

St == [val |-> val, locked |-> locked, fld |-> val]
StD == [val |-> val, locked |-> locked, fld |-> val, done |-> done]
Emit == PrintT(ToJson([s |-> StD, a |-> act', t |-> StD']))

\* ---- properties -------------------------------------------------------------
\* a load case marked as analysed was analysed for the current design
DoneIsCurrent == \A l \in Lids : done[l] => ana[l] = val
\* so every evaluation reads the design it is evaluated at
EvaluationsAreFresh ==
  [][/\ act'.op = "con" => act'.out.g = TrueVal(act'.c, val')
     /\ act'.op = "cons" => \A c \in DOMAIN Con : act'.out.g[c] = TrueVal(c, val')
     /\ act'.op = "obj" => act'.out.f = (IF act'.neg THEN -1 ELSE 1) * ObjVal(val')]_vars
LockedKept == [][\A v \in V : locked[v] => val'[v] = val[v]]_vars
InBounds == \A v \in V : Lb[v] <= val[v] /\ val[v] <= Ub[v]
\* evaluating again at the same design, nothing in between, needs no analysis
NoRepeat == [][(act'.op = "con" /\ val' = val /\ (\A l \in Reads(act'.c) : done[l])) => act'.maxfea = 0]_vars
=============================================================================
