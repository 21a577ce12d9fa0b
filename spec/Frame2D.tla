---- MODULE Frame2D ----
(* Plane frames built from straight members (package frame2d).

   Members, supports, point loads and line loads are added to the frame in any
   order; generating the frame makes the analysis model; afterwards loads,
   self-weight, profiles and joints are changed, the frame is generated again
   and load cases are analysed.  The analysis model depends on what was added
   only: members have nodes at their divisions, where they cross, and where
   supports and loads are; members meeting at a point share its node; every
   load acts once, with its factor, and line loads vary linearly along the
   member whatever the lengths of its elements.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mem,   \* seq of [a, b (ends <<x, y>>), div, kind ("beam", "column", "other"), hin (hinges)]
          Sup,   \* seq of [at, dofs]
          Pts,   \* seq of [at, f, id, f10 (factor, tenths), late]   late: at a member end, may be added after generating
          Lns,   \* seq of [m, q, dir, id, f10]
          Ids,   \* load cases
          Drop,  \* loads that can be deleted
          Profs, \* number of profiles of the first member
          Joints \* kinds of joints of the beams
VARIABLES mem, sup, pts, lns, sw, prof, jt, gen, g, act
vars == <<mem, sup, pts, lns, sw, prof, jt, gen, g, act>>
View == <<mem, sup, pts, lns, sw, prof, jt, gen, g>>
St == [mem |-> mem, sup |-> sup, pts |-> pts, lns |-> lns, sw |-> sw, prof |-> prof, jt |-> jt, gen |-> gen, g |-> g]
----
(* ------------------------------ geometry -------------------------------- *)
Abs(n) == IF n < 0 THEN -n ELSE n
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* twice the area of a triangle
Area(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (q[2] - p[2]) * (r[1] - p[1])
On(m, p) == LET a == Mem[m].a  b == Mem[m].b
            IN /\ Area(a, b, p) = 0
               /\ Min(a[1], b[1]) <= p[1] /\ p[1] <= Max(a[1], b[1]) /\ Min(a[2], b[2]) <= p[2] /\ p[2] <= Max(a[2], b[2])
\* crossing point of two members that are not parallel
Cross(m, n) ==
  LET a == Mem[m].a  b == Mem[m].b  c == Mem[n].a  d == Mem[n].b
      den == (a[1] - b[1]) * (c[2] - d[2]) - (a[2] - b[2]) * (c[1] - d[1])
      s == a[1] * b[2] - a[2] * b[1]   t == c[1] * d[2] - c[2] * d[1]
  IN IF den = 0 THEN {}
     ELSE LET p == <<(s * (c[1] - d[1]) - (a[1] - b[1]) * t) \div den, (s * (c[2] - d[2]) - (a[2] - b[2]) * t) \div den>>
          IN IF On(m, p) /\ On(n, p) THEN {p} ELSE {}
Divisions(m) == LET a == Mem[m].a  b == Mem[m].b  d == Mem[m].div
                IN {<<a[1] + ((b[1] - a[1]) * i) \div d, a[2] + ((b[2] - a[2]) * i) \div d>> : i \in 0..d}
Nodes(m) == Divisions(m) \cup UNION {Cross(m, n) : n \in (1..Len(Mem)) \ {m}}
            \cup {p \in {Sup[s].at : s \in sup} \cup {Pts[p].at : p \in pts \cup g.pts} : On(m, p)}
Way(m, p) == Abs(p[1] - Mem[m].a[1]) + Abs(p[2] - Mem[m].a[2])
Whole(m) == Way(m, Mem[m].b)
RECURSIVE Sorted(_, _)
Sorted(m, S) == IF S = {} THEN <<>>
                ELSE LET p == CHOOSE p \in S : \A q \in S : Way(m, p) <= Way(m, q) IN <<p>> \o Sorted(m, S \ {p})
Chain(m) == Sorted(m, Nodes(m))
(* ------------------------------- loads ---------------------------------- *)
\* value of a line load at a node, times 10 and the way along the member
QAt(n, p) == LET m == Lns[n].m  q == Lns[n].q  w == Way(m, p)  t == Whole(m) IN Lns[n].f10 * (q[1] * (t - w) + q[2] * w)
Loads(c) == [i \in 1..Len(Lns) |-> IF i \in g.lns /\ Lns[i].id = c
               THEN [m |-> Lns[i].m, dir |-> Lns[i].dir, unit |-> 10 * Whole(Lns[i].m), q |-> [k \in 1..Len(Chain(Lns[i].m)) |-> QAt(i, Chain(Lns[i].m)[k])]]
               ELSE [m |-> 0, dir |-> "", unit |-> 1, q |-> <<>>]]
\* in tenths
Forces(c) == [i \in 1..Len(Pts) |-> IF i \in g.pts /\ Pts[i].id = c THEN [k \in 1..3 |-> Pts[i].f[k] * Pts[i].f10] ELSE <<0, 0, 0>>]
Chains == [m \in 1..Len(Mem) |-> Chain(m)]
----
Init == /\ mem = {} /\ sup = {} /\ pts = {} /\ lns = {} /\ sw = 0 /\ prof = 1 /\ jt = "" /\ gen = FALSE
        /\ g = [pts |-> {}, lns |-> {}, sw |-> 0] /\ act = <<>> /\ PrintT(ToJson([init |-> St]))
Rest == UNCHANGED <<sw, prof, jt, gen, g>>
AddMem == ~gen /\ \E m \in (1..Len(Mem)) \ mem : mem' = mem \cup {m} /\ act' = [op |-> "member", i |-> m] /\ UNCHANGED <<sup, pts, lns>> /\ Rest
AddSup == ~gen /\ \E s \in (1..Len(Sup)) \ sup : sup' = sup \cup {s} /\ act' = [op |-> "support", i |-> s] /\ UNCHANGED <<mem, pts, lns>> /\ Rest
AddPt == \E p \in (1..Len(Pts)) \ pts : (gen => Pts[p].late) /\ pts' = pts \cup {p} /\ act' = [op |-> "point", i |-> p] /\ UNCHANGED <<mem, sup, lns>> /\ Rest
AddLn == \E n \in (1..Len(Lns)) \ lns : lns' = lns \cup {n} /\ act' = [op |-> "line", i |-> n] /\ UNCHANGED <<mem, sup, pts>> /\ Rest
\* loads are deleted from the frame; the model changes when the frame is generated again
DropPt == \E p \in pts \cap Drop : pts' = pts \ {p} /\ act' = [op |-> "unpoint", i |-> p] /\ UNCHANGED <<mem, sup, lns>> /\ Rest
DropLn == \E n \in lns \cap Drop : lns' = lns \ {n} /\ act' = [op |-> "unline", i |-> n] /\ UNCHANGED <<mem, sup, pts>> /\ Rest
Same == UNCHANGED <<mem, sup, pts, lns>>
Complete == mem = 1..Len(Mem) /\ sup = 1..Len(Sup)
Renew(s) == g' = [pts |-> pts, lns |-> lns, sw |-> s]
Generate == /\ Complete
            /\ \E self \in BOOLEAN : LET s == IF self THEN prof ELSE sw
                                     IN sw' = s /\ Renew(s) /\ act' = [op |-> "generate", self |-> self, chains |-> Chains]
            /\ gen' = TRUE /\ Same /\ UNCHANGED <<prof, jt>>
AddSelf == /\ Complete /\ sw' = prof /\ act' = [op |-> "selfweight"] /\ Same /\ UNCHANGED <<prof, jt, gen, g>>
\* taking the self-weight away generates the frame again
DropSelf == /\ Complete /\ sw # 0 /\ sw' = 0 /\ (IF gen THEN Renew(0) ELSE UNCHANGED g) /\ act' = [op |-> "noweight"]
            /\ Same /\ UNCHANGED <<prof, jt, gen>>
Profile == /\ Complete /\ \E i \in (1..Profs) \ {prof} : prof' = i /\ act' = [op |-> "profile", i |-> i]
           /\ Same /\ UNCHANGED <<sw, jt, gen, g>>
Joint == /\ Complete /\ \E j \in Joints \ {jt} : jt' = j /\ act' = [op |-> "joints", j |-> j]
         /\ Same /\ UNCHANGED <<sw, prof, gen, g>>
Calc == /\ gen /\ (g.pts # {} \/ g.lns # {} \/ g.sw # 0)
        /\ \E c \in Ids : /\ \/ \E p \in g.pts : Pts[p].id = c
                             \/ \E n \in g.lns : Lns[n].id = c
                             \/ c = "ULS" /\ g.sw # 0
                          /\ act' = [op |-> "calculate", id |-> c, chains |-> Chains, loads |-> Loads(c), forces |-> Forces(c),
                                     self |-> IF c = "ULS" THEN g.sw ELSE 0, prof |-> prof, jt |-> jt]
        /\ Same /\ UNCHANGED <<sw, prof, jt, gen, g>>
Next == AddMem \/ AddSup \/ AddPt \/ AddLn \/ DropPt \/ DropLn \/ Generate \/ AddSelf \/ DropSelf \/ Profile \/ Joint \/ Calc
Spec == Init /\ [][Next]_vars
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> St']))
----
\* nodes run from end to end of the member without gaps or repetition
Meshed == Complete => \A m \in 1..Len(Mem) :
   LET c == Chain(m) IN /\ c[1] = Mem[m].a /\ c[Len(c)] = Mem[m].b
                        /\ \A i \in 1..(Len(c) - 1) : Way(m, c[i]) < Way(m, c[i + 1])
\* every support and point load has a node of some member
Held == Complete => \A p \in {Sup[s].at : s \in sup} \cup {Pts[p].at : p \in pts} : \E m \in 1..Len(Mem) : p \in Nodes(m)
\* a line load has its end values at the ends of the member
Ends == \A n \in lns : /\ QAt(n, Mem[Lns[n].m].a) = Lns[n].f10 * Lns[n].q[1] * Whole(Lns[n].m)
                       /\ QAt(n, Mem[Lns[n].m].b) = Lns[n].f10 * Lns[n].q[2] * Whole(Lns[n].m)
\* the model holds only what was added
Sound == (g.pts # {} \/ g.lns # {} \/ g.sw # 0 => gen) /\ (gen => Complete)
=============================================================================
