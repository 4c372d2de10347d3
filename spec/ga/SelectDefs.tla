----------------------------- MODULE SelectDefs -----------------------------
(* Choice of the parents and what the observer is told about it.               *)
EXTENDS GaDefs

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
RECURSIVE Drawn(_)
Drawn(stats) == IF stats = <<>> THEN 0 ELSE Head(stats)[2] + Drawn(Tail(stats))

(* stats: one <<fitness, times drawn>> per individual of the generation bred    *)
(* from (fits: its fitness values), tries: the crossovers made, rejected ones   *)
(* included.                                                                    *)
StatsTell(stats, fits, tries) ==
    /\ Len(stats) = Len(fits)
    /\ \A x \in Members(fits) :
          Times(fits, x) = Cardinality({i \in DOMAIN stats : stats[i][1] = x})
    /\ \A i \in DOMAIN stats : stats[i][2] >= 0
    /\ \A i \in 1..(Len(stats) - 1) : stats[i][2] >= stats[i + 1][2]
    /\ Drawn(stats) = 2 * tries
    /\ Total(fits) > 0 => \A i \in DOMAIN stats : stats[i][1] = 0 => stats[i][2] = 0
ChosenFitness(stats) == {stats[i][1] : i \in {j \in DOMAIN stats : stats[j][2] > 0}}

(* cnt of n independent trials, each with probability a / b: within six sigma   *)
Abs(x) == IF x < 0 THEN -x ELSE x
Plausible(cnt, n, a, b) ==
    LET d == Abs(cnt * b - n * a) IN d <= 46000 /\ d * d <= 36 * n * a * (b - a)
=============================================================================
