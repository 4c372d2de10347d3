------------------------------ MODULE Mutators ------------------------------
(* The flip-bit operator walks over the genes of all chromosomes one after the   *)
(* other, skipping a random number below Inv of genes between flips; the linear   *)
(* schedule's probability at generation g of G is (a (G-1) + (b - a) g) / (G-1)D. *)
EXTENDS Integers, TLC
CONSTANTS Inv, D, G, Steps, Bug
VARIABLES skip, skipped, gap, count
vars == <<skip, skipped, gap, count>>
Skips == 0..(IF Bug = "longGap" THEN Inv ELSE Inv - 1)
Init == skip \in Skips /\ skipped = 0 /\ gap = 0 /\ count = 0
Next == /\ count < Steps /\ count' = count + 1
        /\ IF skipped >= skip
           THEN skipped' = 0 /\ skip' \in Skips /\ gap' = 0
           ELSE skipped' = skipped + 1 /\ gap' = gap + 1 /\ UNCHANGED skip
Spec == Init /\ [][Next]_vars
Gap == gap < Inv
Num(a, b, g) == IF Bug = "fullDivisor" THEN a * G + (b - a) * g ELSE a * (G - 1) + (b - a) * g
Between == \A a, b \in 0..D : \A g \in 0..(G - 1) :
              /\ Num(a, b, g) >= (IF a < b THEN a ELSE b) * (G - 1)
              /\ Num(a, b, g) <= (IF a < b THEN b ELSE a) * (G - 1)
              /\ Num(a, b, 0) = a * (G - 1) /\ Num(a, b, G - 1) = b * (G - 1)
=============================================================================
