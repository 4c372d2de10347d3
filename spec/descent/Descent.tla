------------------------------- MODULE Descent -------------------------------
(* A gradient method, seen from outside: line searches lead down a path of       *)
(* levels (the height above the optimum) until the gradient is within the        *)
(* precision or the iterations allowed are used up.  One behaviour runs the       *)
(* method from one start with 0, 1, .. Runs iterations allowed and then without   *)
(* limit, and keeps the results.                                                 *)
EXTENDS DescentDefs, FiniteSets
CONSTANTS Max, Precision, Runs, Dim, Method, Bug
VARIABLES next, start, limit, count, x, last, phase, results
vars == <<next, start, limit, count, x, last, phase, results>>
Levels == 0..Max
Unlimited == 100
\* where a line search from a level leads: lower, from anywhere but the optimum
Searches == {s \in [Levels -> Levels] : s[0] = 0 /\ \A v \in Levels \ {0} : IF Bug = "uphill" THEN s[v] # v ELSE s[v] < v}
RECURSIVE After(_, _, _)
After(s, v, k) == IF k = 0 THEN v ELSE After(s, s[v], k - 1)
Init == /\ next \in Searches /\ start \in Levels
        /\ (Method = "conjugate" => After(next, start, Dim) = 0)
        /\ limit = 0 /\ count = 0 /\ x = start /\ last = start /\ phase = "check" /\ results = <<>>
Within(v) == v <= (IF Bug = "coarse" THEN 2 * Precision + 1 ELSE Precision)
Check == /\ phase = "check"
         /\ phase' = IF Within(x) /\ ~(Bug = "noCheckAtStart" /\ count = 0) THEN "return"
                     ELSE IF count = limit + (IF Bug = "oneMore" THEN 1 ELSE 0) THEN "return" ELSE "step"
         /\ UNCHANGED <<next, start, limit, count, x, last, results>>
Step == /\ phase = "step"
        /\ last' = x
        /\ x' = IF Bug = "noCheckAtStart" /\ x = 0 THEN Max ELSE next[x]
        /\ count' = count + 1 /\ phase' = "check"
        /\ UNCHANGED <<next, start, limit, results>>
Return == /\ phase = "return"
          /\ results' = Append(results, IF Bug = "returnsPrevious" THEN last ELSE x)
          /\ IF limit = Unlimited THEN phase' = "done" /\ limit' = limit
             ELSE phase' = "check" /\ limit' = IF limit = Runs THEN Unlimited ELSE limit + 1
          /\ count' = 0 /\ x' = start /\ last' = start
          /\ UNCHANGED <<next, start>>
Next == Check \/ Step \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Near == [k \in DOMAIN results |-> IF results[k] <= Precision THEN 1 ELSE 0]
Far == [k \in 1..(Len(results) - 1) |-> IF results[k + 1] = results[k] THEN 0 ELSE 1]
Fall == [k \in 1..(Len(results) - 1) |-> IF results[k + 1] <= results[k] THEN 1 ELSE 0]
Law == phase = "done" => /\ results[1] = start
                         /\ Stops(Near, Far) /\ GoesOn(Near, Far) /\ NeverUphill(Fall) /\ Arrives(Near)
                         /\ (Method = "conjugate" => Conjugate(Near, Dim))
Terminates == <>(phase = "done")
=============================================================================
