----------------------------- MODULE MultiStart -----------------------------
(* N local searches performed by W workers in any order and overlap; then the     *)
(* best of their ends is chosen.  A run writes its start into its parameters,     *)
(* moves, evaluates and stores its result.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, W, Points, Vals, Bug
VARIABLES f, max, at, pc, worker, ends, phase, ret
vars == <<f, max, at, pc, worker, ends, phase, ret>>
Runs == 1..N
Slot(i) == IF Bug = "sharedParameters" THEN 1 ELSE i
Init == /\ f \in [Points -> Vals] /\ max \in BOOLEAN
        /\ at = [i \in Runs |-> 0] /\ pc = [i \in Runs |-> "new"] /\ worker = [i \in Runs |-> 0]
        /\ ends = [i \in Runs |-> 0] /\ phase = "draw" /\ ret = 0
Draw == /\ phase = "draw" /\ \E s \in [Runs -> Points] : at' = s
        /\ phase' = "run" /\ UNCHANGED <<f, max, pc, worker, ends, ret>>
Busy == {worker[i] : i \in {j \in Runs : pc[j] = "moving"}}
Take(i) == /\ phase = "run" /\ pc[i] = "new" /\ \A j \in Runs : j < i => pc[j] # "new"
           /\ \E w \in (1..W) \ Busy : worker' = [worker EXCEPT ![i] = w]
           /\ pc' = [pc EXCEPT ![i] = "moving"]
           /\ UNCHANGED <<f, max, at, ends, phase, ret>>
Finish(i) == /\ pc[i] = "moving"
             /\ \E p \in Points : at' = [at EXCEPT ![Slot(i)] = p] /\ ends' = [ends EXCEPT ![i] = p]
             /\ pc' = [pc EXCEPT ![i] = "done"]
             /\ UNCHANGED <<f, max, worker, phase, ret>>
Better(i, j) == LET a == f[at[Slot(i)]]
                    b == f[at[Slot(j)]]
                IN  IF Bug = "ignoresDirection" THEN a >= b ELSE IF max THEN a >= b ELSE a <= b
Choose == /\ phase = "run"
          /\ \A i \in Runs : pc[i] = "done" \/ (Bug = "doesNotWait" /\ i > 1 /\ pc[i] # "moving")
          /\ \E i \in Runs : /\ pc[i] = "done" /\ \A j \in Runs : (Bug = "skipsLast" /\ j = N) \/ pc[j] # "done" \/ Better(i, j)
                             /\ ret' = at[Slot(i)]
          /\ phase' = "done" /\ UNCHANGED <<f, max, at, pc, worker, ends>>
Next == Draw \/ Choose \/ \E i \in Runs : Take(i) \/ Finish(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ReturnsAnEnd == phase = "done" => \E i \in Runs : ret = ends[i]
ReturnsBest == phase = "done" => \A i \in Runs : pc[i] = "done" /\ (IF max THEN f[ret] >= f[ends[i]] ELSE f[ret] <= f[ends[i]])
OneEach == \A i, j \in Runs : i # j /\ pc[i] = "moving" /\ pc[j] = "moving" => worker[i] # worker[j]
Terminates == <>(phase = "done")
=============================================================================
