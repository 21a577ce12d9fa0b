-------------------------------- MODULE Fire --------------------------------
(* Steel at elevated temperature, EN 1993-1-2.                               *)
(* A steel is heated in steps of ten degrees; at every temperature the       *)
(* strength and stiffness factors (Tables 3.1, C.1, D.1), the thermal        *)
(* properties (3.4.1, C.3) and the regions of the stress-strain relationship *)
(* (Fig. 3.1, Annex A) are reported as exact fractions.  Independently, an   *)
(* unprotected member stands in a gas whose temperature is changed by        *)
(* events (3.1 of the member's history, 4.2.5.1).                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Temps,     \* temperatures the factors are asked at
          Strains,   \* strains, 1/1000
          Levels,    \* gas temperatures of the events
          Holds,     \* time steps an event lasts
          Depth,     \* number of events
          Members,   \* <<ksh AmV, initial temperature, dt>> of exposed members
          Modes
VARIABLES kind, temp, gas, act
vars == <<kind, temp, gas, act>>
St == [kind |-> kind, temp |-> temp, gas |-> gas]
View == <<kind, temp, gas>>
Min(x, y) == IF x < y THEN x ELSE y
(* --------------- Tables 3.1, C.1 and D.1, in 1/10000 -------------------- *)
Grid == <<20, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200>>
Carbon == [ky   |-> <<10000, 10000, 10000, 10000, 10000, 7800, 4700, 2300, 1100, 600, 400, 200, 0>>,
           kp   |-> <<10000, 10000, 8070, 6130, 4200, 3600, 1800, 750, 500, 375, 250, 125, 0>>,
           kE   |-> <<10000, 10000, 9000, 8000, 7000, 6000, 3100, 1300, 900, 675, 450, 225, 0>>,
           kp02 |-> <<10000, 10000, 8900, 7800, 6500, 5300, 3000, 1300, 700, 500, 300, 200, 0>>]
S14301 == [ky   |-> <<2600, 2400, 1900, 1900, 1900, 1900, 2200, 2600, 3500, 3800, 4000, 4000, 4000>>,
           k02  |-> <<10000, 8200, 6800, 6400, 6000, 5400, 4900, 4000, 2700, 1400, 600, 300, 0>>,
           ku   |-> <<10000, 8700, 7700, 7300, 7200, 6700, 5800, 4300, 2700, 1500, 700, 300, 0>>,
           kE   |-> <<10000, 9600, 9200, 8800, 8400, 8000, 7600, 7100, 6300, 4500, 2000, 1000, 0>>,
           kEct |-> <<1100, 500, 200, 200, 200, 200, 200, 200, 200, 200, 200, 200, 200>>,
           epsU |-> <<4000, 4000, 4000, 4000, 4000, 4000, 3500, 3000, 2000, 2000, 2000, 2000, 2000>>]
BoltGrid == <<20, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000>>
Bolts == [kb |-> <<10000, 9680, 9520, 9350, 9030, 7750, 5500, 2200, 1000, 670, 330, 0>>]
\* linear between the tabulated temperatures, in 1/10000 as a fraction
At(grid, col, t) ==
    LET n == Len(grid) IN
    IF t <= grid[1] THEN <<col[1], 1>>
    ELSE IF t >= grid[n] THEN <<col[n], 1>>
    ELSE LET i == CHOOSE i \in 1..n-1 : grid[i] <= t /\ t < grid[i+1]
             w == grid[i+1] - grid[i]
         IN <<col[i] * w + (col[i+1] - col[i]) * (t - grid[i]), w>>
Factors(k, t) ==
    CASE k = "carbon" -> [p \in DOMAIN Carbon |-> At(Grid, Carbon[p], t)]
      [] k = "1.4301" -> [p \in DOMAIN S14301 |-> At(Grid, S14301[p], t)]
      [] OTHER -> [p \in DOMAIN Bolts |-> At(BoltGrid, Bolts[p], t)]
Leq(x, y) == x[1] * y[2] <= y[1] * x[2]
(* ----------------------- thermal properties ----------------------------- *)
\* each as <<numerator, denominator>> up to a power of ten; h = t/10
\* stainless: (16e6 + 4.79e3 t - 1.243 t^2)(t - 20), as two factors
Stretch(t) == <<160000000 + 479000 * (t \div 10) - 1243 * (t \div 10) * (t \div 10), t - 20>>    \* 1e-13
Elongation(k, t) ==                              \* 1e-10
    IF k = "carbon" THEN IF t < 750 THEN <<120000 * t + 40 * t * t - 2416000, 1>>
                         ELSE IF t <= 860 THEN <<110000000, 1>> ELSE <<200000 * t - 62000000, 1>>
    ELSE Stretch(t)
Conductivity(k, t) ==                            \* 1e-4 W/mK
    IF k = "carbon" THEN IF t < 800 THEN 540000 - 333 * t ELSE 273000 ELSE 146000 + 127 * t
Heat(k, t) ==                                    \* J/kgK
    LET h == t \div 10 IN
    IF k = "carbon"
    THEN IF t < 600 THEN <<42500000 + 773000 * h - 16900 * h * h + 222 * h * h * h, 100000>>
         ELSE IF t < 735 THEN <<666 * (738 - t) + 13002, 738 - t>>
         ELSE IF t < 900 THEN <<545 * (t - 731) + 17820, t - 731>>
         ELSE <<650, 1>>
    ELSE <<450000000 + 2800000 * h - 29100 * h * h + 134 * h * h * h, 1000000>>
(* --------------------- stress-strain relationship ----------------------- *)
\* ultimate strength / yield strength at temperature t (Annex A), 1/10000
Ult(t) == IF t < 300 THEN 12500 ELSE IF t < 400 THEN 20000 - 25 * t ELSE 10000
\* region of strain e/1000; the proportional limit fp/E is compared by the harness
Region(e) == IF e < 20 THEN "curve" ELSE IF e <= 150 THEN "plateau" ELSE IF e < 200 THEN "descent" ELSE "broken"
\* stress/fy(t) outside of the curve, 1/10^7 (e in 1/1000)
Rel(e, t, hard) ==
    LET u == IF hard THEN Ult(t) ELSE 10000 IN
    CASE Region(e) = "plateau" -> IF hard /\ e < 40 THEN 50 * (u - 10000) * e + (20000 - u) * 1000 ELSE u * 1000
      [] Region(e) = "descent" -> u * (1000 - 20 * (e - 150))
      [] Region(e) = "broken" -> 0
      [] OTHER -> 0
(* ------------------------------- actions -------------------------------- *)
Kinds == {"carbon", "1.4301", "bolts"}
Init == /\ kind \in (IF "factors" \in Modes THEN Kinds ELSE {}) \union (IF "member" \in Modes THEN {"member"} ELSE {})
        /\ temp = 20 /\ gas = <<>> /\ act = [op |-> "start"] /\ PrintT(ToJson([init |-> St]))
Next10(t) == CHOOSE u \in Temps : u > t /\ \A v \in Temps : v > t => u <= v
HeatUp == /\ kind # "member" /\ \E u \in Temps : u > temp
          /\ temp' = Next10(temp) /\ UNCHANGED <<kind, gas>>
          /\ act' = [op |-> "heat", factors |-> Factors(kind, temp')]
Thermal == /\ kind \in {"carbon", "1.4301"} /\ temp % 10 = 0 /\ UNCHANGED <<kind, temp, gas>>
           /\ act' = [op |-> "thermal", stretch |-> Elongation(kind, temp),
                      cond |-> Conductivity(kind, temp), heat |-> Heat(kind, temp)]
Strain == /\ kind \in {"carbon", "1.4301"} /\ temp < 1200 /\ UNCHANGED <<kind, temp, gas>>
          /\ \E e \in Strains, hard \in BOOLEAN :
               /\ (kind = "1.4301" => ~hard)
               /\ act' = [op |-> "strain", e |-> e, hard |-> hard, region |-> Region(e), rel |-> Rel(e, temp, hard),
                          ult |-> Ult(temp)]
Expose == /\ kind = "member" /\ Len(gas) < Depth /\ UNCHANGED <<kind, temp>>
          /\ \E l \in Levels, h \in Holds, m \in 1..Len(Members) :
               /\ gas' = Append(gas, <<l, h>>)
               /\ act' = [op |-> "expose", member |-> Members[m], steps |-> h, total |-> h]
Next == HeatUp \/ Thermal \/ Strain \/ Expose
Emit == PrintT(ToJson([s |-> St, a |-> act', t |-> [kind |-> kind', temp |-> temp', gas |-> gas']]))
(* ------------------------------ properties ------------------------------ *)
\* factors lie between zero and one and no strength or stiffness comes back with heat
Bounded == (act.op = "heat") => \A p \in DOMAIN act.factors : act.factors[p][1] >= 0 /\ Leq(act.factors[p], <<10000, 1>>)
Weaker == [][act'.op = "heat" =>
               \A p \in DOMAIN act'.factors : (p \in {"kE", "kp", "kp02", "k02", "ku", "kb"} \/ kind = "carbon")
                                               => Leq(Factors(kind, temp')[p], Factors(kind, temp)[p])]_vars
\* no hardening above 400 degrees, and the stress never exceeds the ultimate strength
Hardening == (act.op = "strain" /\ act.region # "curve") =>
                /\ act.rel >= 0 /\ act.rel <= act.ult * 1000
                /\ (temp >= 400 \/ ~act.hard => act.rel <= 10000000)
\* the specific heat is continuous apart from the peak at the phase change
PositiveHeat == (act.op = "thermal") => act.heat[1] > 0 /\ act.heat[2] > 0 /\ act.cond > 0
=============================================================================
