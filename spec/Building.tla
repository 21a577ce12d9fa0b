---- MODULE Building ----
(* Construction of a frame model: nodes, members, supports, loads, load cases,
   self-weight and combinations are added in any order, the analysis (finite
   element) model is generated, possibly repeatedly, and nodes are moved and
   hinges added.  Coordinates are integers (halves of a unit in the code).

   Loads are tokens: l in 1..Len(LoadP) for loads of the pool, 100 + m for the
   self-weight of member m and 1000 * k + l for the combined load of l in
   combination k.  gen says that the analysis model was generated and nothing
   has been added since; while it holds, the state includes what the analysis
   model must consist of.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS NodeP,    \* pool of nodes: seq of coordinate seqs
          MemP,     \* pool of members: [a, b, nel, t, h (hinged ends at creation)]
          SupP,     \* pool of supports: [n, d]
          LoadP,    \* pool of loads: [k ("p"/"l"/"w"), o, v, dir, loc, c, xd, f]
          CaseP,    \* load cases added as such: [c, ls]
          CombP,    \* combinations: [c, cs (seq of load case ids)]
          MoveP,    \* moves: [n, ax, v]
          HingeP,   \* hinges added: [m, e]
          Start,    \* [n, m, s, l]: numbers of pool entries present at the start
          Weigh,    \* self-weight in use
          Weight,   \* self-weight of members per length (code units)
          Readd     \* loads may be added again
VARIABLES nodes, mems, sups, loads, ids, sw, combs, pos, hin, gen, act
vars == <<nodes, mems, sups, loads, ids, sw, combs, pos, hin, gen, act>>
View == <<nodes, mems, sups, loads, ids, sw, combs, pos, hin, gen>>
Has(s, x) == x \in Range(s)
Upto(n) == [i \in 1..n |-> i]
Index(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Extend(s, x) == IF Has(s, x) THEN s ELSE Append(s, x)
SWCase == 100

CaseOf(l) == IF l >= 1000 THEN CombP[l \div 1000].c ELSE IF l > 100 THEN SWCase ELSE LoadP[l].c
MemOf(l) == LET b == l % 1000 IN IF b > 100 THEN b - 100 ELSE LoadP[b].o

(* ------------------------------------------------------ registration state *)
SortSet(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Regs == [nodes |-> nodes, mems |-> mems, sups |-> sups, ids |-> ids,
         loads |-> SortSet(loads),
         cases |-> [i \in DOMAIN ids |-> SortSet({l \in loads : CaseOf(l) = ids[i]})],
         combs |-> combs]

(* ---------------------------------------------------------- analysis model *)
Pt(m, k) == LET p == MemP[m] a == pos[p.a] b == pos[p.b]
            IN [x \in DOMAIN a |-> a[x] * (p.nel - k) + b[x] * k]   \* times nel
Chain(m) == [k \in 1..MemP[m].nel + 1 |-> Pt(m, k - 1)]
Rel(m) == [k \in 1..MemP[m].nel |->
             (IF k = 1 /\ <<m, 0>> \in hin THEN <<2>> ELSE <<>>) \o
             (IF k = MemP[m].nel /\ <<m, 1>> \in hin THEN <<5>> ELSE <<>>)]
Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
\* load l at the ends of element k of its member
Abs(x) == IF x < 0 THEN -x ELSE x
Q(l, k) ==
  IF l > 100 THEN <<Weight[l - 100], Weight[l - 100]>>
  ELSE LET p == LoadP[l] n == MemP[p.o].nel
       IN IF p.k = "l"
          THEN [j \in 1..2 |-> (p.f * (p.v[1] * (n - (k - 2 + j)) + p.v[2] * (k - 2 + j))) \div n]
          ELSE LET w == IF 12 * k <= p.xd * n THEN p.v[1]
                        ELSE IF 12 * (k - 1) >= p.xd * n THEN p.v[2]
                        ELSE IF Abs(p.v[2]) > Abs(p.v[1]) THEN p.v[2] ELSE p.v[1]
               IN <<p.f * w, p.f * w>>
Dir(l) == IF l > 100 THEN [dir |-> "y", loc |-> FALSE] ELSE [dir |-> LoadP[l].dir, loc |-> LoadP[l].loc]
IsPoint(l) == l < 100 /\ LoadP[l].k = "p"
Plain == {l \in loads : l < 1000}      \* combined loads belong to the load combination model
Model ==
  [chain |-> [i \in DOMAIN mems |-> Chain(mems[i])],
   ends |-> [i \in DOMAIN mems |-> <<Index(nodes, MemP[mems[i]].a), Index(nodes, MemP[mems[i]].b)>>],
   kind |-> [i \in DOMAIN mems |-> MemP[mems[i]].t],
   rel |-> [i \in DOMAIN mems |-> Rel(mems[i])],
   at |-> [i \in DOMAIN nodes |-> pos[nodes[i]]],
   nn |-> Len(nodes) + Sum([i \in DOMAIN mems |-> MemP[mems[i]].nel - 1]),
   ne |-> Sum([i \in DOMAIN mems |-> MemP[mems[i]].nel]),
   sup |-> [i \in DOMAIN sups |-> [n |-> Index(nodes, SupP[sups[i]].n), d |-> SupP[sups[i]].d]],
   lc |-> SortSet({CaseOf(l) : l \in loads}),
   nl |-> MapThenSumSet(LAMBDA l : IF IsPoint(l % 1000) THEN 1 ELSE MemP[MemOf(l)].nel, loads),
   pl |-> {[c |-> LoadP[l].c, n |-> Index(nodes, LoadP[l].o), f |-> [j \in DOMAIN LoadP[l].v |-> LoadP[l].f * LoadP[l].v[j]]]
             : l \in {l \in Plain : IsPoint(l)}},
   ll |-> {[c |-> CaseOf(l), m |-> Index(mems, MemOf(l)), d |-> Dir(l).dir, loc |-> Dir(l).loc,
            q |-> [k \in 1..MemP[MemOf(l)].nel |-> Q(l, k)]] : l \in {l \in Plain : ~IsPoint(l)}}]
St == [hid |-> [h |-> hin, p |-> pos, s |-> sw], reg |-> Regs, gen |-> gen, fem |-> IF gen THEN Model ELSE <<>>,
       len |-> [i \in DOMAIN mems |-> LET a == pos[MemP[mems[i]].a] b == pos[MemP[mems[i]].b]
                                      IN Sum([x \in DOMAIN a |-> (b[x] - a[x]) * (b[x] - a[x])])]]

(* ------------------------------------------------------------------ actions *)
Init == /\ nodes = Upto(Start.n) /\ mems = Upto(Start.m) /\ sups = Upto(Start.s)
        /\ loads = Range(Upto(Start.l)) /\ sw = {} /\ combs = <<>>
        /\ ids = (IF Start.l = 0 THEN <<>> ELSE <<LoadP[1].c>>)
        /\ (Start.l = 0 \/ \A l \in loads : LoadP[l].c = LoadP[1].c)
        /\ pos = [n \in DOMAIN NodeP |-> NodeP[n]]
        /\ hin = {<<m, e>> \in (DOMAIN MemP) \X {0, 1} : MemP[m].h[e + 1]}
        /\ gen = FALSE
        /\ act = [op |-> "start"]
        /\ PrintT(ToJson([init |-> St]))
AddNode == \E n \in DOMAIN NodeP : /\ ~Has(nodes, n) /\ nodes' = Append(nodes, n) /\ gen' = FALSE
                                   /\ act' = [op |-> "node", i |-> n]
                                   /\ UNCHANGED <<mems, sups, loads, ids, sw, combs, pos, hin>>
AddMem == \E m \in DOMAIN MemP : /\ ~Has(mems, m) /\ mems' = Append(mems, m) /\ gen' = FALSE
                                 /\ act' = [op |-> "mem", i |-> m]
                                 /\ UNCHANGED <<nodes, sups, loads, ids, sw, combs, pos, hin>>
AddSup == \E s \in DOMAIN SupP : /\ ~Has(sups, s) /\ sups' = Append(sups, s) /\ gen' = FALSE
                                 /\ act' = [op |-> "sup", i |-> s]
                                 /\ UNCHANGED <<nodes, mems, loads, ids, sw, combs, pos, hin>>
AddLoad == \E l \in DOMAIN LoadP :
             /\ (Readd \/ l \notin loads) /\ (LoadP[l].k = "p" \/ Has(mems, LoadP[l].o))
             /\ loads' = loads \cup {l} /\ ids' = Extend(ids, LoadP[l].c)
             /\ gen' = (gen /\ l \in loads)
             /\ act' = [op |-> "load", i |-> l]
             /\ UNCHANGED <<nodes, mems, sups, sw, combs, pos, hin>>
\* a load case object with its loads, whose identifier may be in use already
AddCase == \E k \in DOMAIN CaseP :
             /\ \A l \in Range(CaseP[k].ls) : LoadP[l].k = "p" \/ Has(mems, LoadP[l].o)
             /\ loads' = loads \cup Range(CaseP[k].ls) /\ ids' = Extend(ids, CaseP[k].c)
             /\ gen' = (gen /\ loads' = loads)
             /\ act' = [op |-> "case", i |-> k]
             /\ UNCHANGED <<nodes, mems, sups, sw, combs, pos, hin>>
AddSW == /\ Weigh /\ mems # <<>>
         /\ loads' = loads \cup {100 + m : m \in Range(mems)} /\ ids' = Extend(ids, SWCase)
         /\ sw' = Range(mems)
         /\ gen' = (gen /\ loads' = loads)
         /\ act' = [op |-> "sw"]
         /\ UNCHANGED <<nodes, mems, sups, combs, pos, hin>>
RemSW == /\ Weigh /\ sw # {}
         /\ loads' = {l \in loads : ~(l > 100 /\ l < 1000)} /\ sw' = {}
         /\ gen' = FALSE /\ act' = [op |-> "nosw"]
         /\ UNCHANGED <<nodes, mems, sups, ids, combs, pos, hin>>
\* combining (again) gives one combined load for every load of its cases now
Combine == \E k \in DOMAIN CombP :
             LET new == {1000 * k + l : l \in {l \in loads : l < 1000 /\ Has(CombP[k].cs, CaseOf(l))}} IN
             /\ \A i \in DOMAIN CombP[k].cs : Has(ids, CombP[k].cs[i])
             /\ new # {}
             /\ loads' = {l \in loads : l \div 1000 # k} \cup new
             /\ ids' = Extend(ids, CombP[k].c) /\ combs' = Extend(combs, CombP[k].c)
             /\ gen' = FALSE /\ act' = [op |-> "comb", i |-> k]
             /\ UNCHANGED <<nodes, mems, sups, sw, pos, hin>>
Ready == /\ \A i \in DOMAIN mems : Has(nodes, MemP[mems[i]].a) /\ Has(nodes, MemP[mems[i]].b)
         /\ \A i \in DOMAIN sups : Has(nodes, SupP[sups[i]].n)
         /\ \A l \in loads : IsPoint(l % 1000) => Has(nodes, LoadP[l % 1000].o)
Generate == /\ Ready /\ gen' = TRUE /\ act' = [op |-> "gen"]
            /\ UNCHANGED <<nodes, mems, sups, loads, ids, sw, combs, pos, hin>>
Move == \E k \in DOMAIN MoveP :
          /\ pos[MoveP[k].n][MoveP[k].ax] # MoveP[k].v
          /\ pos' = [pos EXCEPT ![MoveP[k].n][MoveP[k].ax] = MoveP[k].v]
          /\ act' = [op |-> "move", n |-> MoveP[k].n, ax |-> MoveP[k].ax, v |-> MoveP[k].v]
          \* positions of piecewise loads are taken when generating
          /\ UNCHANGED <<nodes, mems, sups, loads, ids, sw, combs, hin, gen>>
Hinge == \E k \in DOMAIN HingeP :
           /\ Has(mems, HingeP[k].m) /\ <<HingeP[k].m, HingeP[k].e>> \notin hin
           /\ hin' = hin \cup {<<HingeP[k].m, HingeP[k].e>>}
           /\ gen' = FALSE /\ act' = [op |-> "hinge", m |-> HingeP[k].m, e |-> HingeP[k].e]
           /\ UNCHANGED <<nodes, mems, sups, loads, ids, sw, combs, pos>>
Next == AddNode \/ AddMem \/ AddSup \/ AddLoad \/ AddCase \/ AddSW \/ RemSW \/ Combine \/ Generate \/ Move \/ Hinge
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))

(* ------------------------------------------------------------ design checks *)
UniqueIds == \A i, j \in DOMAIN ids : ids[i] = ids[j] => i = j
EveryLoadInOneCase == \A l \in loads : Cardinality({i \in DOMAIN ids : ids[i] = CaseOf(l)}) = 1
OneWeightEach == \A m \in DOMAIN MemP : (100 + m \in loads) <=> m \in sw
====
