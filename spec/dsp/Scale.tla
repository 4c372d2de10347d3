-------------------------------- MODULE Scale --------------------------------
(* Scales, filled entry by entry as the code does (in exact arithmetic: linear      *)
(* entries in units of 1 / (count - 1), logarithmic ones as exponents).            *)
EXTENDS Integers, Sequences
CONSTANTS MaxLimit, MaxCount, Bug
VARIABLES kind, min, max, count, v, phase
vars == <<kind, min, max, count, v, phase>>
Init == /\ kind \in {"linear", "log"} /\ min \in (0 - MaxLimit)..MaxLimit /\ max \in (0 - MaxLimit)..MaxLimit
        /\ count \in 0..MaxCount /\ v = <<>> /\ phase = "check"
Good == IF kind = "log" THEN min < max ELSE min > 0 /\ max > min /\ count >= (IF Bug = "oneEntry" THEN 1 ELSE 2)
Size == IF kind = "log" THEN max - min + (IF Bug = "oneShort" THEN 0 ELSE 1) ELSE count
Check == phase = "check" /\ phase' = (IF Good THEN "fill" ELSE "refused") /\ UNCHANGED <<kind, min, max, count, v>>
Entry == IF kind = "log" THEN min + Len(v)
         ELSE min * (count - 1) + (max - min) * (Len(v) + (IF Bug = "startsLate" THEN 1 ELSE 0))
Fill == phase = "fill" /\ Len(v) < Size /\ v' = Append(v, Entry) /\ UNCHANGED <<kind, min, max, count, phase>>
Finish == phase = "fill" /\ Len(v) = Size /\ phase' = "done" /\ UNCHANGED <<kind, min, max, count, v>>
Next == Check \/ Fill \/ Finish
Spec == Init /\ [][Next]_vars
Unit == IF kind = "log" THEN 1 ELSE count - 1
Ends == phase = "done" => (Len(v) >= 2 /\ v[1] = min * Unit /\ v[Len(v)] = max * Unit)
Increasing == \A i \in 2..Len(v) : v[i] > v[i - 1]
Even == \A i \in 3..Len(v) : v[i] - v[i - 1] = v[2] - v[1]
Within == \A i \in DOMAIN v : min * Unit <= v[i] /\ v[i] <= max * Unit
Refusals == phase = "refused" <=> (phase # "check" /\ ~(min < max /\ (kind = "linear" => (min > 0 /\ count >= 2))))
=============================================================================
