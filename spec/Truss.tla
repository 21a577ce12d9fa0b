------------------------------- MODULE Truss --------------------------------
(* A roof truss and the order in which it is used.  The truss is defined by  *)
(* its kind of web (K, N or KT), the number n of divisions of each half, the *)
(* direction of the first diagonal, closing verticals and whether the bottom *)
(* chord ends before the supports of the top chord.  Nodes of the top chord  *)
(* are numbered 0..P, those of the bottom chord 0..Q from left to right; a   *)
(* brace is a pair <<t, b>>.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Ns,       \* webs and numbers of divisions
          Models,          \* finite element models that may be generated
          LoadSet,         \* loads that may be added
          Moves,           \* eccentricities, as fractions of 1/16 of the chord height
          Shapes,          \* number of geometries (heights, half spans, ends)
          MaxOps
VARIABLES c, built, joined, held, loads, fem, ecc, ops, act
vars == <<c, built, joined, held, loads, fem, ecc, ops, act>>
View == <<c, built, joined, held, loads, fem, ecc, ops>>
St == [c |-> c, built |-> built, joined |-> joined, held |-> held, loads |-> loads, fem |-> fem, ecc |-> ecc, ops |-> ops]
(* ------------------------------- topology ------------------------------- *)
\* last node of the top and of the bottom chord
P(x) == CASE x.web = "K" /\ x.short -> 2 * x.n
          [] x.web = "K" /\ ~x.short /\ x.up -> 2 * x.n + 2
          [] x.web = "K" /\ ~x.short /\ ~x.up -> 2 * x.n
          [] x.web = "N" -> 2 * x.n
          [] x.web = "KT" /\ (x.short \/ ~x.up) -> 4 * x.n
          [] OTHER -> 4 * x.n + 2
Q(x) == CASE x.web = "N" /\ x.short -> 2 * x.n - 2
          [] x.web = "N" /\ ~x.short -> 2 * x.n
          [] x.short -> 2 * x.n - 1
          [] OTHER -> 2 * x.n + 1
Ridge(x) == P(x) \div 2
Closing(x) == IF x.edge /\ ~x.short THEN {<<0, 0>>, <<P(x), Q(x)>>} ELSE {}
\* the trios of a KT web and the pairs of a K web stand on the bottom chord (or hang from the top chord)
Braces(x) ==
    CASE x.web = "K" /\ x.short -> UNION {{<<i, i>>, <<i + 1, i>>} : i \in 0..Q(x)}
      [] x.web = "K" /\ ~x.short /\ ~x.up -> Closing(x) \union UNION {{<<i - 1, i>>, <<i, i>>} : i \in 1..Q(x)-1}
      [] x.web = "K" /\ ~x.short /\ x.up -> Closing(x) \union UNION {{<<i, i - 1>>, <<i, i>>} : i \in 1..P(x)-1}
      [] x.web = "N" /\ x.short ->
            {<<i + 1, i>> : i \in 0..Q(x)} \union {<<i, i>> : i \in 0..x.n-1} \union {<<i + 2, i>> : i \in x.n-1..Q(x)}
      [] x.web = "N" /\ ~x.short ->
            Closing(x) \union {<<i, i>> : i \in 1..Q(x)-1}
            \union (IF x.up THEN {<<i + 1, i>> : i \in 0..x.n-1} \union {<<i, i + 1>> : i \in x.n..Q(x)-1}
                    ELSE {<<i, i + 1>> : i \in 0..x.n-1} \union {<<i + 1, i>> : i \in x.n..Q(x)-1})
      [] x.web = "KT" /\ x.short -> UNION {{<<2*i, i>>, <<2*i + 1, i>>, <<2*i + 2, i>>} : i \in 0..Q(x)}
      [] x.web = "KT" /\ ~x.short /\ ~x.up ->
            Closing(x) \union UNION {{<<2*i - 2, i>>, <<2*i - 1, i>>, <<2*i, i>>} : i \in 1..Q(x)-1}
      [] OTHER -> Closing(x) \union {<<1, 0>>, <<P(x) - 1, Q(x)>>}
                  \union UNION {{<<2*i - 1, i>>, <<2*i, i>>, <<2*i + 1, i>>} : i \in 1..Q(x)-1}
\* braces that are vertical
Vertical(x) == IF x.web = "N" THEN {b \in Braces(x) : b[1] = b[2] + (IF x.short THEN 1 ELSE 0)}
               ELSE Closing(x) \union
                    (IF x.web = "K" THEN {}
                     ELSE IF x.short THEN {<<2*i + 1, i>> : i \in 0..Q(x)}
                     ELSE IF x.up THEN {<<2*i, i>> : i \in 1..Q(x)-1} ELSE {<<2*i - 1, i>> : i \in 1..Q(x)-1})
\* top nodes that lie halfway between neighbouring bottom nodes
Centred(x) == IF x.web = "K" /\ x.short THEN {<<i, i - 1, i>> : i \in 1..P(x)-1}
              ELSE IF x.web = "K" /\ x.up THEN {<<i, i - 1, i>> : i \in 1..P(x)-1}
              ELSE IF x.web = "KT" /\ x.short THEN {<<2*i, i - 1, i>> : i \in 1..Q(x)}
              ELSE {}
DegT(x, t) == Cardinality({b \in Braces(x) : b[1] = t})
DegB(x, k) == Cardinality({b \in Braces(x) : b[2] = k})
\* kind of the welded joint by the number of braces (none where only chords meet)
JointOf(k) == CASE k = 0 -> "none" [] k = 1 -> "Y" [] k = 2 -> "K" [] OTHER -> "KT"
(* ------------------------------- actions -------------------------------- *)
Configs == [web : Kinds, n : Ns, up : BOOLEAN, edge : BOOLEAN, short : BOOLEAN, shape : 1..Shapes]
Init == /\ c \in {x \in Configs : x.short => (~x.up /\ x.edge)}
        /\ built = FALSE /\ joined = FALSE /\ held = FALSE /\ loads = {} /\ fem = "none" /\ ecc = 4 /\ ops = 0
        /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Op(name) == act' = [op |-> name] /\ ops' = ops + 1 /\ ops < MaxOps
Build == /\ ~built /\ built' = TRUE /\ UNCHANGED <<c, joined, held, loads, fem, ecc>>
         /\ Op("build")
Join == /\ built /\ ~joined /\ joined' = TRUE /\ fem = "none" /\ UNCHANGED <<c, built, held, loads, fem, ecc>>
        /\ Op("join")
Hold == /\ built /\ ~held /\ held' = TRUE /\ fem = "none" /\ UNCHANGED <<c, built, joined, loads, fem, ecc>>
        /\ Op("hold")
Load == /\ built /\ fem = "none" /\ UNCHANGED <<c, built, joined, held, fem, ecc>>
        /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E l \in LoadSet \ loads : loads' = loads \union {l} /\ act' = [op |-> "load", load |-> l]
\* the models with eccentricities need the joints
CanModel(m) == /\ built /\ held
               /\ m # "no_eccentricity" => joined
               /\ m = "ecc_elements" => c.short
Model == /\ fem = "none" /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<c, built, joined, held, loads, ecc>>
         /\ \E m \in Models : CanModel(m) /\ fem' = m /\ act' = [op |-> "model", model |-> m]
Clear == /\ fem # "none" /\ fem' = "none" /\ UNCHANGED <<c, built, joined, held, loads, ecc>> /\ Op("clear")
\* the braces of every K joint are moved so that they meet off the chord axis
Move == /\ joined /\ fem = "none" /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<c, built, joined, held, loads, fem>>
        /\ \E e \in Moves \ {ecc} : ecc' = e /\ act' = [op |-> "move", e |-> e]
Next == Build \/ Join \/ Hold \/ Load \/ Model \/ Clear \/ Move
StN == [c |-> c', built |-> built', joined |-> joined', held |-> held', loads |-> loads', fem |-> fem', ecc |-> ecc', ops |-> ops']
\* the structure of the truss, printed once per configuration
Shape(x) == [p |-> P(x), q |-> Q(x), ridge |-> Ridge(x), braces |-> Braces(x), vertical |-> Vertical(x),
             centred |-> Centred(x), topj |-> [t \in 1..P(x)+1 |-> JointOf(DegT(x, t - 1))],
             botj |-> [b \in 1..Q(x)+1 |-> JointOf(DegB(x, b - 1))]]
Emit == PrintT(ToJson([s |-> St, a |-> IF act'.op = "build" THEN act' @@ [truss |-> Shape(c)] ELSE act', t |-> StN]))
(* ------------------------------ properties ------------------------------ *)
Nodes(x) == P(x) + Q(x) + 2
Members(x) == P(x) + Q(x) + Cardinality(Braces(x))
\* with the ends closed the truss is statically determinate; otherwise the two end nodes hang on the chord
Determinate == Members(c) = 2 * Nodes(c) - (IF c.edge \/ c.short THEN 3 ELSE 5)
\* the right half is the mirror image of the left half
Mirrored == \A b \in Braces(c) : <<P(c) - b[1], Q(c) - b[2]>> \in Braces(c)
\* from left to right every brace shares one end with the next, whose other end is the next node of a chord
Before(x, y) == x[1] <= y[1] /\ x[2] <= y[2] /\ x # y
Triangulated == \A x \in Braces(c) : \/ \A y \in Braces(c) : y = x \/ Before(y, x)
                                     \/ \E y \in Braces(c) : Before(x, y) /\ y[1] + y[2] = x[1] + x[2] + 1
\* no two braces cross
Planar == \A x, y \in Braces(c) : x = y \/ Before(x, y) \/ Before(y, x)
\* no chord node between the ends is without a brace
Held == /\ \A t \in 1..P(c)-1 : DegT(c, t) >= 1
        /\ \A b \in 1..Q(c)-1 : DegB(c, b) >= 1
Strict == (\A v \in Vertical(c) : v \in Braces(c)) /\ \A k \in Centred(c) : <<k[1], k[2]>> \in Braces(c) /\ <<k[1], k[3]>> \in Braces(c)
Order == (fem # "none") => built /\ held
=============================================================================
