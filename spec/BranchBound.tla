---- MODULE BranchBound ----
(* Branch and bound over discrete/integer variables.

   A region is a box [lo, hi].  A node is explored inside a sub-box that may
   have been tightened, as long as no better allowed design is lost; it is then
   fathomed, closed (its relaxation is an allowed design) or split around a
   relaxation value that is not allowed.  All numbers are integers (units of
   1e-5 in recorded runs).

   In mode "design" the module is the design: TLC checks that whatever node,
   tightening, neighbour and branching variable is chosen the optimum is never
   lost and the run ends with it.  In mode "trace" every behaviour must
   follow a recorded run of the real solver; a run that no behaviour follows
   to its end is a violation. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Insts, Traces, Mode

VARIABLES tr, k, open, inc,
          feas      \* allowed designs satisfying all constraints (never changes)
vars == <<tr, k, open, inc, feas>>
View == <<tr, k, open, inc>>

NoInc == <<>>
N(i) == Len(Insts[i].vals)

(* up to four variables *)
T(a, p, j) == IF j <= Len(p) THEN a[j] * p[j] ELSE 0
Dot(a, p) == T(a, p, 1) + T(a, p, 2) + T(a, p, 3) + T(a, p, 4)
V(i, j) == Insts[i].vals[j]
All(i) == CASE N(i) = 1 -> {<<u>> : u \in V(i, 1)}
            [] N(i) = 2 -> {<<u, v>> : u \in V(i, 1), v \in V(i, 2)}
            [] N(i) = 3 -> {<<u, v, w>> : u \in V(i, 1), v \in V(i, 2), w \in V(i, 3)}
            [] OTHER -> {<<u, v, w, x>> : u \in V(i, 1), v \in V(i, 2), w \in V(i, 3), x \in V(i, 4)}

Sat(con, p) == LET g == Dot(con.a, p) - con.b IN
               CASE con.sense = "<" -> g <= 0
                 [] con.sense = ">" -> g >= 0
                 [] OTHER -> g = 0

Feasible(i) == {p \in All(i) : \A c \in DOMAIN Insts[i].cons : Sat(Insts[i].cons[c], p)}

Obj(i, p) == Dot(Insts[i].c, p)          \* to be minimised

In(b, p) == \A j \in DOMAIN p : b.lo[j] <= p[j] /\ p[j] <= b.hi[j]
Sub(r, b) == \A j \in DOMAIN r.lo : b.lo[j] <= r.lo[j] /\ r.hi[j] <= b.hi[j]
Root(i) == [lo |-> Insts[i].lo, hi |-> Insts[i].hi]

Better(i, p, best) == best = NoInc \/ Obj(i, p) < Obj(i, best)
Useful(i, b, best) == {p \in feas : In(b, p) /\ Better(i, p, best)}
Best(i, S) == CHOOSE p \in S : \A q \in S : Obj(i, p) <= Obj(i, q)

Lower(b, j, v) == [b EXCEPT !.hi[j] = v]
Upper(b, j, v) == [b EXCEPT !.lo[j] = v]
Below(i, j, x) == {v \in Insts[i].vals[j] : v < x}
Above(i, j, x) == {v \in Insts[i].vals[j] : v > x}
MaxOf(S) == CHOOSE v \in S : \A w \in S : w <= v
MinOf(S) == CHOOSE v \in S : \A w \in S : w >= v
(* children of a box split around x: nothing allowed lies strictly between *)
Split(i, b, j, x) ==
   (IF Below(i, j, x) = {} THEN {} ELSE {Lower(b, j, MaxOf(Below(i, j, x)))})
   \cup (IF Above(i, j, x) = {} THEN {} ELSE {Upper(b, j, MinOf(Above(i, j, x)))})

(* ------------------------------------------------------------------ design *)
Hull(i, b) == LET S == {p \in feas : In(b, p)} IN
   IF S = {} THEN b
   ELSE [lo |-> [j \in 1..N(i) |-> MinOf({p[j] : p \in S})],
         hi |-> [j \in 1..N(i) |-> MaxOf({p[j] : p \in S})]]
Tight(i, b) == {b, Hull(i, b)}

Fathom(b) == /\ Useful(tr, b, inc) = {}
             /\ open' = open \ {b}
             /\ UNCHANGED <<tr, k, inc, feas>>
Neighbour(b) == \E p \in Useful(tr, b, inc) : inc' = p /\ UNCHANGED <<tr, k, open, feas>>
Close(b) == LET S == Useful(tr, b, inc) IN
            /\ S # {}
            /\ inc' = Best(tr, S)
            /\ open' = open \ {b}
            /\ UNCHANGED <<tr, k, feas>>
Branch(b) == \E r \in Tight(tr, b) : \E j \in 1..N(tr) :
             \E v \in {w \in Insts[tr].vals[j] : r.lo[j] <= w /\ w < r.hi[j]} :
                /\ open' = (open \ {b}) \cup Split(tr, r, j, v + 1)
                /\ UNCHANGED <<tr, k, inc, feas>>
DesignNext == \E b \in open : Fathom(b) \/ Neighbour(b) \/ Close(b) \/ Branch(b)

(* --------------------------------------------------------- recorded runs *)
Tr == Traces[tr]
I == Tr.inst
Tol == 10
Near(x, v) == x - v <= Tol /\ v - x <= Tol
AllowedAt(i, j, x) == \E v \in Insts[i].vals[j] : Near(x, v)
Rounded(i, x) == [j \in 1..N(i) |-> CHOOSE v \in Insts[i].vals[j] :
                                        \A w \in Insts[i].vals[j] :
                                          (IF x[j] > v THEN x[j] - v ELSE v - x[j])
                                          <= (IF x[j] > w THEN x[j] - w ELSE w - x[j])]
Abs(v) == IF v < 0 THEN -v ELSE v
AbsC(i) == [j \in 1..N(i) |-> Tol * Abs(Insts[i].c[j])]
ObjTol(i) == 50 + Dot(AbsC(i), [j \in 1..N(i) |-> 1])
Diff(a, b) == IF a > b THEN a - b ELSE b - a

(* the incumbent the solver holds is a feasible allowed design, with its objective *)
Incumbent(e) ==
   IF e.best = <<>> THEN inc = NoInc /\ inc' = NoInc
   ELSE LET p == Rounded(I, e.best) IN
        /\ \A j \in 1..N(I) : AllowedAt(I, j, e.best[j])
        /\ p \in feas
        /\ Diff(Obj(I, p), e.bestf) <= ObjTol(I)
        /\ inc # NoInc => Obj(I, p) <= Obj(I, inc)
        /\ inc' = p

Solve(e) ==
   /\ e.op = "solve"
   /\ Incumbent(e)
   /\ \E P \in open :
        LET R == [lo |-> e.lo, hi |-> e.hi]
            S == {p \in feas : In(R, p)}
        IN /\ \A j \in 1..N(I) : P.lo[j] <= e.lo[j] + 1 /\ e.hi[j] <= P.hi[j] + 1
           /\ {p \in Useful(I, P, inc') : ~In(R, p)} = {}
           /\ IF ~e.feas THEN open' = open \ {P}
              ELSE IF \A j \in 1..N(I) : AllowedAt(I, j, e.x[j])
                   THEN open' = open \ {P}
                   ELSE \/ Useful(I, P, inc') = {} /\ open' = open \ {P}
                        \/ \E j \in 1..N(I) :
                             /\ ~AllowedAt(I, j, e.x[j])
                             /\ open' = (open \ {P}) \cup Split(I, P, j, e.x[j])

(* after the node with an allowed relaxation the incumbent is at least as good *)
Progress(e) == IF k = 0 THEN TRUE ELSE LET d == Tr.events[k] IN
   IF d.op = "solve" /\ d.feas /\ (\A j \in 1..N(I) : AllowedAt(I, j, d.x[j]))
   THEN e.best # <<>> /\ e.bestf <= d.f + ObjTol(I)
   ELSE TRUE

End(e) ==
   /\ e.op = "end"
   /\ Incumbent(e)
   /\ \A b \in open : Useful(I, b, inc') = {}
   /\ (inc' = NoInc) = (feas = {})
   /\ inc' # NoInc => \A p \in feas : Obj(I, inc') <= Obj(I, p)
   /\ e.restored
   /\ open' = {}

TraceNext == LET e == Tr.events[k + 1] IN
   /\ k < Len(Tr.events)
   /\ k' = k + 1
   /\ tr' = tr /\ feas' = feas
   /\ Progress(e)
   /\ (Solve(e) \/ End(e))

(* ------------------------------------------------------------------------ *)
Init == /\ tr \in (IF Mode = "design" THEN DOMAIN Insts ELSE DOMAIN Traces)
        /\ k = 0 /\ inc = NoInc
        /\ \E i \in {IF Mode = "design" THEN tr ELSE Traces[tr].inst} :
              feas = Feasible(i) /\ open = {Root(i)}
Next == TraceNext

Emit == PrintT(ToJson([tr |-> tr, k |-> k', n |-> Len(Tr.events)]))

(* design invariants *)
NothingLost == 
   \A p \in feas : Better(tr, p, inc) => \E b \in open : In(b, p)
Disjoint == 
   \A p \in feas : Cardinality({b \in open : In(b, p)}) <= 1
IncumbentOk == inc = NoInc \/ inc \in feas
EndsOptimal == open # {} \/
   (IF feas = {} THEN inc = NoInc
    ELSE inc # NoInc /\ \A p \in feas : Obj(tr, inc) <= Obj(tr, p))
NeverStuck == open = {} \/ ENABLED DesignNext
Finishes == <>(open = {})
DesignSpec == Init /\ [][DesignNext]_vars /\ WF_vars(DesignNext)
====
