------------------------------- MODULE Timber -------------------------------
(* Timber sections in fire (EN 1995-1-2) and members (EN 1995-1-1).         *)
(* Fire: charred depths in 1/730000 mm, so that they are whole numbers for  *)
(* whole minutes: with charring speed bn/100 mm/min and the time counted in *)
(* 1/(73 bn) min, a minute is 73 bn, the normal speed 100, that behind a    *)
(* gypsum board type F 73 and that after the board has fallen 200 per unit. *)
(* Member: forces are whole numbers; the spec says which of them govern     *)
(* which check of which unsupported part, the adapter divides by strengths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mode,                      \* "fire", "member"
          Kinds, Sizes, Covers, Times, Sides,
          Members, Loads, Supports, Lengths, Joints, Depth
VARIABLES s, steps, act
vars == <<s, steps, act>>
St == [s |-> s, steps |-> steps]
View == <<s, steps>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

(* ------------------------------- charring ------------------------------- *)
\* charring speed, EN 1995-1-2 Table 3.1 (softwood), mm/min * 100
Speed(k) == CASE k = "solid" -> 80 [] k = "glulam" -> 70 [] k = "kerto" -> 70 [] k = "light" -> 75
\* start of charring in minutes, and whether the board stays on after it
Start(c) == CASE c = "A" -> 22 [] c = "Agap" -> 13 [] c = "H" -> 11 [] c = "Hgap" -> 2 [] c = "AA" -> 40 [] c = "AAgap" -> 31
              [] c = "HH" -> 23 [] c = "HHgap" -> 14 [] c = "F" -> 28 [] c = "Fgap" -> 19 [] c = "FF" -> 61 [] c = "FFgap" -> 52
              [] c = "AF" -> 46 [] c = "AFgap" -> 37 [] c = "wood26" -> 40 [] c = "wood39" -> 60 [] OTHER -> 0
Stays(c) == c \in {"F", "Fgap", "FF", "FFgap", "AF", "AFgap"}
Tick(k) == 73 * Speed(k)
Fall(c, k) == Start(c) * Tick(k) + (IF Stays(c) THEN 125000 ELSE 0)         \* 12.5 mm at 0.73 of the speed
Level(c, k) == Min(2 * Fall(c, k), Fall(c, k) + 91250)                       \* 25 mm at twice the speed
Char(c, k, T) ==                        \* T: time in ticks
    LET b == Start(c) * Tick(k) IN
    IF c = "none" THEN 100 * T
    ELSE IF T < b THEN 0
    ELSE IF T < Fall(c, k) THEN 73 * (T - b)
    ELSE IF T < Level(c, k) THEN 73 * (Fall(c, k) - b) + 200 * (T - Fall(c, k))
    ELSE 73 * (Fall(c, k) - b) + 200 * (Level(c, k) - Fall(c, k)) + 100 * (T - Level(c, k))
\* share of the layer without strength: linear up to 20 min or, behind a board, up to the start of charring
Grown(c) == IF Start(c) > 20 THEN Start(c) ELSE 20
Layer(c, k, T) == <<Min(T, Grown(c) * Tick(k)), Grown(c) * Tick(k)>>
Loss(c) == [char |-> Char(c, s.kind, s.time), layer |-> Layer(c, s.kind, s.time)]

Burn == \E t \in Times : Mode = "fire" /\ steps < Depth /\ t * Tick(s.kind) # s.time
    /\ s' = [s EXCEPT !.time = t * Tick(s.kind)] /\ steps' = steps + 1 /\ act' = [op |-> "burn", to |-> t]
\* to the very moment the cover falls
Drop == /\ Mode = "fire" /\ steps < Depth /\ s.cover # "none" /\ Fall(s.cover, s.kind) # s.time
        /\ s' = [s EXCEPT !.time = Fall(s.cover, s.kind)] /\ steps' = steps + 1 /\ act' = [op |-> "drop", to |-> Fall(s.cover, s.kind)]
Cover == \E c \in Covers : Mode = "fire" /\ steps < Depth /\ c # s.cover
    /\ s' = [s EXCEPT !.cover = c] /\ steps' = steps + 1 /\ act' = [op |-> "cover", to |-> c]
Cut == \E z \in Sizes : Mode = "fire" /\ steps < Depth /\ z # s.size
    /\ s' = [s EXCEPT !.size = z] /\ steps' = steps + 1 /\ act' = [op |-> "cut", to |-> z]
Rest == Mode = "fire" /\ UNCHANGED <<s, steps>>
    /\ act' = [op |-> "rest", side |-> Loss(s.cover), top |-> IF s.sides = 4 THEN Loss(s.cover) ELSE [char |-> 0, layer |-> <<0, 1>>]]

(* -------------------------------- member -------------------------------- *)
\* s.sects: sequence of forces; at: hundredths of the length; supports: sets of hundredths
Forces == IF Mode = "member" THEN 1..Len(s.sects) ELSE {}
F(n) == s.sects[n]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Cuts(S) == Sorted(S \cup {0, 100})
Parts(S) == [i \in 1..(Len(Cuts(S)) - 1) |-> <<Cuts(S)[i], Cuts(S)[i + 1]>>]
Within(p) == {n \in Forces : p[1] <= F(n).at /\ F(n).at <= p[2]}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
\* compression and moments that govern the buckling of a part
Govern(p) == [from |-> p[1], to |-> p[2],
              n |-> MaxOf({-F(k).n : k \in Within(p)} \cup {0}),
              my |-> MaxOf({Abs(F(k).my) : k \in Within(p)} \cup {0}),
              mz |-> MaxOf({Abs(F(k).mz) : k \in Within(p)} \cup {0})]
Whole == \A S \in {s.supy, s.supz} : \A i \in 1..Len(Parts(S)) : Within(Parts(S)[i]) # {}
\* length factors: of a beam of one part from the joints at its ends, otherwise from the position of the part
Fixed(j) == j = "rigid"
Factor(axis, i, count) ==
    IF s.given # 0 THEN s.given
    ELSE IF count = 1 THEN
         (IF s.j1 = "hinge" /\ s.j2 = "hinge" THEN 100
          ELSE IF {s.j1, s.j2} = {"hinge", "rigid"} THEN 90
          ELSE IF s.j1 = "rigid" /\ s.j2 = "rigid" THEN 80 ELSE 85)
    ELSE IF axis = "z" THEN 100
    ELSE IF i = 1 THEN (CASE s.j1 = "rigid" -> 80 [] s.j1 = "hinge" -> 100 [] OTHER -> 85)
    ELSE IF i = count THEN (CASE s.j2 = "rigid" -> 80 [] s.j2 = "hinge" -> 100 [] OTHER -> 85)
    ELSE 90
Buckling(axis, S) == [i \in 1..Len(Parts(S)) |-> [g |-> Govern(Parts(S)[i]), factor |-> Factor(axis, i, Len(Parts(S)))]]
Bent == \E n \in Forces : F(n).my # 0
Pressed == \E n \in Forces : F(n).n # 0
Tilting == {[part |-> i, at |-> F(n).at, my |-> Abs(F(n).my), n |-> Abs(F(n).n)] :
              i \in 1..Len(Parts(s.supz)), n \in Forces}
Tilt == {x \in Tilting : Parts(s.supz)[x.part][1] <= x.at /\ x.at <= Parts(s.supz)[x.part][2]}

Place == \E f \in Loads : Mode = "member" /\ steps < Depth /\ Len(s.sects) < 4
    /\ (\A n \in Forces : F(n).at < f.at)
    /\ s' = [s EXCEPT !.sects = Append(@, f)] /\ steps' = steps + 1 /\ act' = [op |-> "place", f |-> f]
Clear == /\ Mode = "member" /\ steps < Depth /\ Len(s.sects) > 0
         /\ s' = [s EXCEPT !.sects = <<>>] /\ steps' = steps + 1 /\ act' = [op |-> "clear"]
Hold == \E S \in Supports : \E axis \in {"y", "z"} :
    /\ Mode = "member" /\ steps < Depth
    /\ s' = IF axis = "y" THEN [s EXCEPT !.supy = S] ELSE [s EXCEPT !.supz = S]
    /\ s' # s /\ steps' = steps + 1 /\ act' = [op |-> "hold", axis |-> axis, to |-> Sorted(S)]
Stretch == \E l \in Lengths : Mode = "member" /\ steps < Depth /\ l # s.len
    /\ s' = [s EXCEPT !.len = l] /\ steps' = steps + 1 /\ act' = [op |-> "stretch", to |-> l]
Join == \E j \in Joints : \E e \in 1..2 : 
    /\ Mode = "member" /\ steps < Depth
    /\ s' = IF e = 1 THEN [s EXCEPT !.j1 = j] ELSE [s EXCEPT !.j2 = j]
    /\ s' # s /\ steps' = steps + 1 /\ act' = [op |-> "join", end |-> e, to |-> j]
Ready == Mode = "member" /\ Len(s.sects) > 0
Same(a) == act' = a /\ UNCHANGED <<s, steps>>
Check == \E n \in Forces : Ready
    /\ Same([op |-> "check", n |-> n, pulled |-> F(n).n > 0, f |-> F(n),
             bent |-> \E k \in Forces : F(k).my # 0 \/ F(k).mz # 0, axial |-> Pressed])
Buckle == Ready /\ Whole /\ Same([op |-> "buckle", y |-> Buckling("y", s.supy), z |-> Buckling("z", s.supz)])
Lateral == /\ Ready /\ Whole /\ \A n \in Forces : F(n).n <= 0
           /\ Same([op |-> "lateral", pure |-> Bent /\ ~Pressed, at |-> Tilt, z |-> Buckling("z", s.supz)])

Init == /\ IF Mode = "fire" THEN s \in [kind : Kinds, size : Sizes, cover : Covers, sides : Sides, time : {0}]
           ELSE s \in Members
        /\ steps = 0 /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Next == Burn \/ Drop \/ Cover \/ Cut \/ Rest \/ Place \/ Clear \/ Hold \/ Stretch \/ Join \/ Check \/ Buckle \/ Lateral
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> [s |-> s', steps |-> steps']]))
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* charring never goes back, never faster than twice the normal speed, and a cover never increases it
Clock == {t * Tick(s.kind) : t \in 0..120} \cup {Fall(s.cover, s.kind), Level(s.cover, s.kind), s.time}
Onward == Mode = "fire" => \A t \in Clock : \A u \in {1, 73, Tick(s.kind)} :
    /\ Char(s.cover, s.kind, t) <= Char(s.cover, s.kind, t + u)
    /\ Char(s.cover, s.kind, t + u) <= Char(s.cover, s.kind, t) + 200 * u
    /\ Layer(s.cover, s.kind, t)[1] <= Layer(s.cover, s.kind, t + u)[1]
Covered == Mode = "fire" => \A t \in Clock : Char(s.cover, s.kind, t) <= Char("none", s.kind, t)
\* every force lies in a part, the parts fill the member, and more support never makes the governing values larger
Divided == Mode = "member" => \A S \in {s.supy, s.supz} :
    /\ \A n \in Forces : \E i \in 1..Len(Parts(S)) : n \in Within(Parts(S)[i])
    /\ Parts(S)[1][1] = 0 /\ Parts(S)[Len(Parts(S))][2] = 100
    /\ \A i \in 1..(Len(Parts(S)) - 1) : Parts(S)[i][2] = Parts(S)[i + 1][1] /\ Parts(S)[i][1] < Parts(S)[i][2]
    /\ \A i \in 1..Len(Parts(S)) : Govern(Parts(S)[i]).n <= Govern(<<0, 100>>).n /\ Govern(Parts(S)[i]).my <= Govern(<<0, 100>>).my
=============================================================================
