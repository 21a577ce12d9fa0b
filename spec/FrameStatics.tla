---- MODULE FrameStatics ----
(* Plane frame analysis.  Two uses of one model:

   Mode "design": a model is edited (every toggle of Toggles may be switched,
   before or after analyses) and analysed.  The state is the current model;
   an analysis must report the response of that model and nothing else, so the
   Analyse action emits the expanded current model.
   Mode "trace": every recorded analysis (the expanded model with the reported
   displacements and element end forces, as integers scaled by S) must satisfy
   the laws of linear statics for that model: supports, hinges, constitutive
   law and equilibrium of every element and node.  These have one solution, so
   a report that passes is the response of the current model whatever was
   analysed or edited before, and loads superpose.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,
          Nodes,    \* seq of <<x, y>>
          Els,      \* seq of [k |-> "beam"/"semi" (flexible end joints)/"rod"/"spring", a, b, m]
          Secs,     \* per element <<A, I>>
          Mats,     \* seq of E
          Sups,     \* seq of [n, d (seq of 1..3)]
          Loads,    \* seq of [t |-> "p", c, n, v] or [t |-> "l", c, e, q, dir, loc]
          Cases,    \* set of load cases
          Toggles,  \* seq of [k, i, v (choices), up (only upwards)]
          Methods,
          Traces, S

VARIABLES cfg, fresh, act, tr
vars == <<cfg, fresh, act, tr>>
View == IF Mode = "design" THEN <<cfg, fresh, act>> ELSE <<tr>>
St == [cfg |-> cfg, fresh |-> fresh]

(* --------------------------------------------------------- model expansion *)
Val(c, k, i, d) ==
  IF \E t \in DOMAIN Toggles : Toggles[t].k = k /\ Toggles[t].i = i
  THEN LET t == CHOOSE t \in DOMAIN Toggles : Toggles[t].k = k /\ Toggles[t].i = i
       IN Toggles[t].v[c[t]]
  ELSE d
Abs(x) == IF x < 0 THEN -x ELSE x
\* lengths of the geometries used are whole
Root(x) == CHOOSE r \in 0..100 : r * r = x
Model(c) ==
  LET pos == [n \in DOMAIN Nodes |-> Val(c, "pos", n, Nodes[n])]
      E == [m \in DOMAIN Mats |-> Val(c, "E", m, Mats[m])]
      els == [e \in DOMAIN Els |->
               LET a == pos[Els[e].a] b == pos[Els[e].b]
                   s == Val(c, "sec", e, Secs[e])
                   dx == b[1] - a[1] dy == b[2] - a[2]
               IN [k |-> Els[e].k, a |-> Els[e].a, b |-> Els[e].b, dx |-> dx, dy |-> dy,
                   L |-> Root(dx * dx + dy * dy), 
                   EA |-> IF Els[e].k = "spring" THEN s[1] * Root(dx * dx + dy * dy) ELSE E[Els[e].m] * s[1],
                   EI |-> E[Els[e].m] * s[2],
                   ks |-> Val(c, "ks", e, IF Els[e].k = "semi" THEN <<-1, -1>> ELSE <<>>),
                   rel |-> Val(c, "rel", e, <<>>), on |-> Val(c, "el", e, 1)]]
      sup == UNION {{<<Sups[s].n, Sups[s].d[j]>> : j \in DOMAIN Sups[s].d} :
                      s \in {s \in DOMAIN Sups : Val(c, "sup", s, 1) = 1}}
  IN [els |-> els, sup |-> sup,
      lds |-> [l \in DOMAIN Loads |-> [f |-> Val(c, "ld", l, 1), d |-> Loads[l]]]]

(* ---------------------------------------------------------------- design *)
DInit == /\ cfg = [t \in DOMAIN Toggles |-> 1] /\ fresh = FALSE
Toggle(t, j) == /\ cfg[t] # j /\ (Toggles[t].up => j > cfg[t])
                /\ cfg' = [cfg EXCEPT ![t] = j] /\ fresh' = FALSE
                /\ act' = [op |-> "edit", k |-> Toggles[t].k, i |-> Toggles[t].i, v |-> Toggles[t].v[j]]
Analyse(cs, m) == /\ cfg' = cfg /\ fresh' = TRUE
                  /\ act' = [op |-> "analyse", cases |-> cs, m |-> m, model |-> Model(cfg)]
DNext == /\ tr' = tr
         /\ \/ \E t \in DOMAIN Toggles : \E j \in DOMAIN Toggles[t].v : Toggle(t, j)
            \/ \E cs \in {{x} : x \in Cases} \cup {Cases}, m \in Methods : Analyse(cs, m)

(* ----------------------------------------------------------------- trace *)
(* record: [m (expanded model), c (load case), u (node -> <<ux, uy, r>>),
            R (element -> six local end forces), tol]                       *)
\* line load of element e in local axes at both ends: <<qx1, qy1, qx2, qy2>>, times L
Share(M, c, e) ==
  LET ls == {l \in DOMAIN M.lds : M.lds[l].d.t = "l" /\ M.lds[l].d.c = c /\ M.lds[l].d.e = e /\ M.lds[l].f # 0}
      el == M.els[e]
      one(l, j) == M.lds[l].f * M.lds[l].d.q[j]
      \* components times L
      lx(l, j) == IF M.lds[l].d.loc THEN (IF M.lds[l].d.dir = "x" THEN el.L * one(l, j) ELSE 0)
                  ELSE (IF M.lds[l].d.dir = "x" THEN el.dx ELSE el.dy) * one(l, j)
      ly(l, j) == IF M.lds[l].d.loc THEN (IF M.lds[l].d.dir = "y" THEN el.L * one(l, j) ELSE 0)
                  ELSE (IF M.lds[l].d.dir = "x" THEN -el.dy ELSE el.dx) * one(l, j)
      RECURSIVE Sum(_, _, _)
      Sum(T, ax, j) == IF T = {} THEN 0 ELSE LET l == CHOOSE l \in T : TRUE IN
                         (IF ax = "x" THEN lx(l, j) ELSE ly(l, j)) + Sum(T \ {l}, ax, j)
  IN <<Sum(ls, "x", 1), Sum(ls, "y", 1), Sum(ls, "x", 2), Sum(ls, "y", 2)>>
\* equivalent nodal forces of the line loads, scaled by S (S is a multiple of 60); q is times L
Fix(q, L) == <<(S \div 6) * (2 * q[1] + q[3]),
               (S \div 20) * (7 * q[2] + 3 * q[4]),
               (S \div 60) * L * (3 * q[2] + 2 * q[4]),
               (S \div 6) * (q[1] + 2 * q[3]),
               (S \div 20) * (3 * q[2] + 7 * q[4]),
               -(S \div 60) * L * (2 * q[2] + 3 * q[4])>>
Close(x, y, t) == Abs(x - y) <= t
ElementLaw(r, e) ==
  LET el == r.m.els[e]  L == el.L  u == r.u[el.a]  w == r.u[el.b]  R == r.R[e]
      F == Fix(Share(r.m, r.c, e), L)
      G == [j \in 1..6 |-> R[j] + F[j]]            \* = local stiffness times local displacements
      La == el.dx * u[1] + el.dy * u[2]            \* axial displacement of the first end, times L
      Lb == el.dx * w[1] + el.dy * w[2]
      Lv == (el.dx * w[2] - el.dy * w[1]) - (el.dx * u[2] - el.dy * u[1])   \* relative deflection, times L
  IN /\ Close(G[1] + G[4], 0, 4) /\ Close(G[2] + G[5], 0, 4)
     /\ Close(G[3] + G[6] + L * G[5], 0, 4 + 2 * L)
     /\ Close(L * L * G[4], el.EA * (Lb - La), L * L * 2 + el.EA * 4 * L)
     /\ IF el.k \in {"rod", "spring"} THEN Close(G[3], 0, 2) /\ Close(G[6], 0, 2)
        ELSE IF el.k = "semi" THEN
          \* the end of the beam turns by the moment over the stiffness of the joint less than the node
          LET turn(th, M, k) == IF k = -1 THEN th ELSE th - (M \div k)
              end(k, M, th, g, h) ==
                IF k = 0 THEN Close(M, 0, 2)
                ELSE Close(L * L * L * (2 * g - h), 6 * el.EI * (L * L * turn(th, M, k) - Lv),
                           L * L * L * 3 + 6 * el.EI * (2 * L * L + 4 * L))
          IN /\ end(el.ks[1], R[3], u[3], G[3], G[6])
             /\ end(el.ks[2], R[6], w[3], G[6], G[3])
        ELSE /\ IF \E j \in DOMAIN el.rel : el.rel[j] = 2 THEN Close(R[3], 0, 2)
                ELSE Close(L * L * L * (2 * G[3] - G[6]), 6 * el.EI * (L * L * u[3] - Lv),
                           L * L * L * 3 + 6 * el.EI * (L * L + 4 * L))
             /\ IF \E j \in DOMAIN el.rel : el.rel[j] = 5 THEN Close(R[6], 0, 2)
                ELSE Close(L * L * L * (2 * G[6] - G[3]), 6 * el.EI * (L * L * w[3] - Lv),
                           L * L * L * 3 + 6 * el.EI * (L * L + 4 * L))
\* end force of element e at node n in global direction d, times 60
EndForce(r, e, n, d) ==
  LET el == r.m.els[e]  R == r.R[e]  k == 60 \div el.L
      at(o) == CASE d = 1 -> k * (el.dx * R[o + 1] - el.dy * R[o + 2])
                 [] d = 2 -> k * (el.dy * R[o + 1] + el.dx * R[o + 2])
                 [] OTHER -> 60 * R[o + 3]
  IN (IF el.a = n THEN at(0) ELSE 0) + (IF el.b = n THEN at(3) ELSE 0)
RECURSIVE SumE(_, _, _, _)
SumE(r, T, n, d) == IF T = {} THEN 0 ELSE LET e == CHOOSE e \in T : TRUE IN
                      EndForce(r, e, n, d) + SumE(r, T \ {e}, n, d)
RECURSIVE SumP(_, _, _)
SumP(r, T, d) == IF T = {} THEN 0 ELSE LET l == CHOOSE l \in T : TRUE IN
                   r.m.lds[l].f * r.m.lds[l].d.v[d] + SumP(r, T \ {l}, d)
On(r) == {e \in DOMAIN r.m.els : r.m.els[e].on = 1}
Supported(r, n, d) == \E j \in DOMAIN r.m.sup : r.m.sup[j][1] = n /\ r.m.sup[j][2] = d
NodeLaw(r, n) == \A d \in 1..3 :
   LET at == {e \in On(r) : r.m.els[e].a = n \/ r.m.els[e].b = n}
       beams == {e \in at : r.m.els[e].k \in {"beam", "semi"}}
       ps == {l \in DOMAIN r.m.lds : r.m.lds[l].d.t = "p" /\ r.m.lds[l].d.c = r.c /\ r.m.lds[l].d.n = n}
   IN IF Supported(r, n, d) THEN r.u[n][d] = 0
      ELSE (d < 3 \/ beams # {}) => Close(SumE(r, at, n, d), 60 * S * SumP(r, ps, d), 60 * 6)
Law(r) == /\ \A e \in On(r) : ElementLaw(r, e)
          /\ \A n \in DOMAIN r.u : (\E e \in On(r) : r.m.els[e].a = n \/ r.m.els[e].b = n) => NodeLaw(r, n)

Init == /\ fresh = FALSE /\ act = <<>>
        /\ cfg = IF Mode = "design" THEN [t \in DOMAIN Toggles |-> 1] ELSE <<>>
        /\ tr \in (IF Mode = "design" THEN {0} ELSE DOMAIN Traces)
        /\ IF Mode = "design" THEN PrintT(ToJson([init |-> St]))
           ELSE Law(Traces[tr]) => PrintT(ToJson([ok |-> tr]))
Next == IF Mode = "design" THEN DNext ELSE UNCHANGED vars
Emit == Mode = "design" => PrintT(ToJson([s |-> St, a |-> act', t |-> [cfg |-> cfg', fresh |-> fresh']]))
View2 == <<cfg, fresh, tr>>
====
