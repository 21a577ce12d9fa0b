------------------------------ MODULE Registry ------------------------------
(* What belongs to a problem: variables, constraints, objective.  Every way of
   adding is one action; adding what is already there changes nothing.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NV, NC, NO, MaxNew
VARIABLES vs, cs, obj, made, act
vars == <<vs, cs, obj, made, act>>
View == <<vs, cs, obj, made>>

Has(s, x) == \E i \in DOMAIN s : s[i] = x
Put(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
RECURSIVE PutAll(_, _)
PutAll(s, xs) == IF xs = <<>> THEN s ELSE PutAll(Put(s, Head(xs)), Tail(xs))
Pairs == {<<i, j>> : i, j \in 1..NV}

Init == vs = <<>> /\ cs = <<>> /\ obj = 0 /\ made = 0 /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> [vs |-> vs, cs |-> cs, obj |-> obj, made |-> made]]))

AddVar(how, v) == vs' = Put(vs, v) /\ UNCHANGED <<cs, obj, made>> /\ act' = [op |-> "var", how |-> how, v |-> v]
AddVars(how, p) == /\ vs' = PutAll(IF how = "set" THEN <<>> ELSE vs, p) /\ UNCHANGED <<cs, obj, made>>
                   /\ act' = [op |-> "vars", how |-> how, v |-> p]
DelVar(v) == /\ Has(vs, v) /\ vs' = SelectSeq(vs, LAMBDA x : x # v) /\ UNCHANGED <<cs, obj, made>>
             /\ act' = [op |-> "del", v |-> v]
Clear == vs' = <<>> /\ UNCHANGED <<cs, obj, made>> /\ act' = [op |-> "clear"]
AddCon(how, c) == cs' = Put(cs, c) /\ UNCHANGED <<vs, obj, made>> /\ act' = [op |-> "con", how |-> how, c |-> c]
\* constraint created by the problem itself; numbered after the given ones
NewCon(kind) == /\ made < MaxNew /\ made' = made + 1 /\ cs' = Append(cs, NC + made + 1)
                /\ UNCHANGED <<vs, obj>> /\ act' = [op |-> "new", kind |-> kind]
SetObj(o) == obj' = o /\ UNCHANGED <<vs, cs, made>> /\ act' = [op |-> "obj", o |-> o]
Reject == UNCHANGED <<vs, cs, obj, made>> /\ act' = [op |-> "bad", out |-> "ValueError"]

Next == \/ \E v \in 1..NV, how \in {"add", "add_variable"} : AddVar(how, v)
        \/ \E p \in Pairs, how \in {"add_variables", "set"} : AddVars(how, p)
        \/ \E v \in 1..NV : DelVar(v)
        \/ Clear
        \/ \E c \in 1..NC, how \in {"add", "add_constraint", "add_constraints"} : AddCon(how, c)
        \/ \E k \in {"linear", "nonlinear"} : NewCon(k)
        \/ \E o \in 1..NO : SetObj(o)
        \/ Reject

St == [vs |-> vs, cs |-> cs, obj |-> obj, made |-> made]
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

NoDuplicates == /\ \A i, j \in DOMAIN vs : vs[i] = vs[j] => i = j
                /\ \A i, j \in DOMAIN cs : cs[i] = cs[j] => i = j
\* nothing that was not asked for disappears or moves
KeepsOthers == [][act'.op \in {"var", "con", "new", "obj"} =>
                    /\ SubSeq(vs', 1, Len(vs)) = vs /\ SubSeq(cs', 1, Len(cs)) = cs]_vars
=============================================================================
