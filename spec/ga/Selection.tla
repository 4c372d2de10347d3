------------------------------ MODULE Selection ------------------------------
(* Breeding: a roulette over the fitness values draws both parents of every     *)
(* pair; a rejected pair is drawn again; the number of times each individual     *)
(* was drawn is shown with the generation made of the pairs.                     *)
EXTENDS SelectDefs, TLC
CONSTANTS N, Top, Pairs, Retries, Gens, Bug
VARIABLES fs, times, done, rejected, ready, gen, shown
vars == <<fs, times, done, rejected, ready, gen, shown>>

RECURSIVE Upto(_, _)
Upto(f, i) == IF i = 0 THEN 0 ELSE Upto(f, i - 1) + f[i]
(* A draw d of the evenly spread 0..T-1 stands for the point (d + 1/2) of the    *)
(* wheel, T its length.                                                          *)
Pick(f, d) ==
    LET first == IF Bug = "skipsFirst" THEN 2 ELSE 1
        hit == {i \in first..N : 2 * Upto(f, i) >= 2 * d + 1}
    IN  IF Bug = "uniform" THEN (d % N) + 1
        ELSE IF hit = {} THEN N ELSE CHOOSE i \in hit : \A j \in hit : i <= j
Wheel(f) == 0..(Total(f) - 1)

Zero == [i \in 1..N |-> 0]
Populations == {f \in [1..N -> 0..Top] : Total(f) > 0}
Init == /\ fs \in Populations
        /\ times = Zero /\ done = 0 /\ rejected = 0 /\ ready = FALSE /\ gen = 0 /\ shown = <<>>
Couple ==
    /\ ~ready /\ done < Pairs
    /\ \E d, e \in Wheel(fs), ok \in BOOLEAN :
          LET p == Pick(fs, d)
              q == Pick(fs, e)
              one == [times EXCEPT ![p] = @ + 1]
          IN  /\ ok \/ rejected < Retries
              /\ times' = IF Bug = "secondUncounted" THEN one
                          ELSE IF Bug = "rejectedUncounted" /\ ~ok THEN times
                          ELSE [one EXCEPT ![q] = @ + 1]
              /\ done' = IF ok THEN done + 1 ELSE done
              /\ rejected' = IF ok THEN rejected ELSE rejected + 1
    /\ UNCHANGED <<fs, ready, gen, shown>>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET i == CHOOSE i \in S : \A j \in S : times[i] >= times[j]
                  IN  <<<<fs[i], times[i]>>>> \o Sorted(S \ {i})
Show == /\ ~ready /\ done = Pairs
        /\ ready' = TRUE /\ shown' = Sorted(1..N)
        /\ UNCHANGED <<fs, times, done, rejected, gen>>
NextGeneration ==
        /\ ready /\ gen < Gens - 1
        /\ fs' \in {[i \in 1..N |-> fs[IF i = N THEN 1 ELSE i + 1]]}
        /\ times' = IF Bug = "notReset" THEN times ELSE Zero
        /\ done' = 0 /\ rejected' = 0 /\ ready' = FALSE /\ gen' = gen + 1 /\ shown' = <<>>
Next == Couple \/ Show \/ NextGeneration \/ (ready /\ gen = Gens - 1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* C35
InProportion == done = 0 => \A i \in 1..N : Cardinality({d \in Wheel(fs) : Pick(fs, d) = i}) = fs[i]
ShownTrue == ready => StatsTell(shown, fs, Pairs + rejected)
=============================================================================
