------------------------------ MODULE Variables ------------------------------
(* Design variables: value, lock, scaling and the fields of the objects they
   write to.  One action per public call of a variable.  A variable is
   described by a record
     kind   "cont" | "fun" | "int" | "disc" | "index" | "binprof" | "binmem" | "xsec" | "xfun"
     objs   set of target objects,  props  sequence of target properties
     vals   values offered to the variable,  table  values of an index variable
     lb, ub bounds, f scaling factors offered to Scale, init initial value
   Fields hold integers; NoField marks a field nobody has written yet.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Var,       \* sequence of variable descriptors
          Objects,   \* number of target objects
          Props      \* set of property names

VARIABLES val, locked, scal, lb, ub, fld, act
vars == <<val, locked, scal, lb, ub, fld, act>>
View == <<val, locked, scal, lb, ub, fld>>

NoField == -1
V == DOMAIN Var
Obj == 1..Objects

\* target function of property p, applied to the scaled value y
HasFun(p) == p \in {"A", "I"}
Fun(p, y) == IF p = "A" THEN 3 * y + 1 ELSE y * y

SectionOf(v) == 900 + v

(* What property p of a target receives when v takes value x; "keep" when the
   write leaves the property alone. *)
Written(v, p, x, sc, old) ==
  CASE Var[v].kind \in {"cont", "int", "disc", "xsec"} -> x * sc
    [] Var[v].kind \in {"fun", "xfun"} -> IF HasFun(p) THEN Fun(p, x * sc) ELSE x * sc
    [] Var[v].kind = "index"   -> Var[v].table[x + 1]
    [] Var[v].kind = "binprof" -> IF x = 1 THEN SectionOf(v) ELSE old
    [] Var[v].kind = "binmem"  -> IF x = 0 THEN 0 ELSE old

PropsOf(v) == {Var[v].props[i] : i \in DOMAIN Var[v].props}

WriteFields(v, x) ==
  [o \in Obj |-> [p \in Props |->
     IF o \in Var[v].objs /\ p \in PropsOf(v) THEN Written(v, p, x, scal[v], fld[o][p]) ELSE fld[o][p]]]

Init == /\ val = [v \in V |-> Var[v].init]
        /\ locked = [v \in V |-> FALSE]
        /\ scal = [v \in V |-> 1]
        /\ lb = [v \in V |-> Var[v].lb] /\ ub = [v \in V |-> Var[v].ub]
        /\ fld = [o \in Obj |-> [p \in Props |-> NoField]]
        /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [val |-> val, locked |-> locked, scal |-> scal, lb |-> lb, ub |-> ub, fld |-> fld]]))

Give(v, x) ==
  IF locked[v] THEN UNCHANGED <<val, fld>>
  ELSE val' = [val EXCEPT ![v] = x] /\ fld' = WriteFields(v, x)

Substitute(v, x) ==
  /\ Give(v, x)
  /\ UNCHANGED <<locked, scal, lb, ub>>
  /\ act' = [op |-> "substitute", v |-> v, x |-> x]

\* an index given as a real number is truncated to the index below it
SubstituteReal(v, x) ==
  /\ Var[v].kind = "index"
  /\ Give(v, x)
  /\ UNCHANGED <<locked, scal, lb, ub>>
  /\ act' = [op |-> "substitute_real", v |-> v, x |-> x]

Lock(v) ==
  /\ locked' = [locked EXCEPT ![v] = TRUE]
  /\ UNCHANGED <<val, scal, lb, ub, fld>>
  /\ act' = [op |-> "lock", v |-> v]

LockAt(v, x) ==
  /\ Give(v, x)
  /\ locked' = [locked EXCEPT ![v] = TRUE]
  /\ UNCHANGED <<scal, lb, ub>>
  /\ act' = [op |-> "lock_at", v |-> v, x |-> x]

Unlock(v) ==
  /\ locked' = [locked EXCEPT ![v] = FALSE]
  /\ UNCHANGED <<val, scal, lb, ub, fld>>
  /\ act' = [op |-> "unlock", v |-> v]

Scale(v, k) ==
  /\ scal[v] = 1 /\ lb[v] % k = 0 /\ ub[v] % k = 0
  /\ scal' = [scal EXCEPT ![v] = k]
  /\ lb' = [lb EXCEPT ![v] = @ \div k] /\ ub' = [ub EXCEPT ![v] = @ \div k]
  /\ UNCHANGED <<val, locked, fld>>
  /\ act' = [op |-> "scale", v |-> v, x |-> k]

Next == \E v \in V :
          \/ \E x \in Var[v].vals : Substitute(v, x) \/ SubstituteReal(v, x) \/ LockAt(v, x)
          \/ Lock(v) \/ Unlock(v)
          \/ \E k \in Var[v].f : Scale(v, k)

St == [val |-> val, locked |-> locked, scal |-> scal, lb |-> lb, ub |-> ub, fld |-> fld]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

--------------------------------------------------------------------------
Spec == Init /\ [][Next]_vars

\* Properties of the design
LockedNeverChanges ==
  [][\A v \in V : (locked[v] /\ val'[v] # val[v]) => FALSE]_vars

\* a field changes only through an unlocked variable that targets it
WritesAreTargeted ==
  [][\A o \in Obj, p \in Props : fld'[o][p] # fld[o][p] =>
        /\ act'.op \in {"substitute", "substitute_real", "lock_at"}
        /\ ~ locked[act'.v] /\ o \in Var[act'.v].objs /\ p \in PropsOf(act'.v)]_vars

\* the targets of a variable agree with its stored value right after it took one
EveryTargetWritten ==
  [][(act'.op \in {"substitute", "lock_at"} /\ ~ locked[act'.v]) =>
       \A o \in Var[act'.v].objs, p \in PropsOf(act'.v) :
          /\ val'[act'.v] = act'.x
          /\ fld'[o][p] = Written(act'.v, p, val'[act'.v], scal[act'.v], fld[o][p])]_vars
=============================================================================
