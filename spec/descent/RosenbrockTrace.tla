--------------------------- MODULE RosenbrockTrace ---------------------------
(* Sweeps of the real Rosenbrock method in one to three dimensions.  A sweep is   *)
(* the displacements it tests from its start (tests, with their lengths and the   *)
(* values found) and the displacement it makes in the end (move), in units of     *)
(* 1/4096 rounded (tolerance 1) or, on a line, exact in 1/65536 (tolerance 0).    *)
(* After the run has ended there is nothing more to see in a longer one.          *)
EXTENDS SweepDefs, TraceLib
VARIABLES run, lengths, moved, small, l
vars == <<run, lengths, moved, small, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
None == [n |-> 0]
Init == run = None /\ lengths = <<>> /\ moved = <<>> /\ small = {FALSE} /\ l = 1
Run == /\ Is("Rosenbrock") /\ run' = Ev /\ lengths' = [i \in 1..Ev.n |-> Ev.first] /\ moved' = <<>> /\ small' = {FALSE}
RECURSIVE Dot(_, _, _), One(_, _)
Dot(a, b, i) == IF i = 0 THEN 0 ELSE a[i] * b[i] + Dot(a, b, i - 1)
One(a, i) == IF i = 0 THEN 0 ELSE Abs(a[i]) + One(a, i - 1)
N == run.n
T == run.tolerance
Close(a, b, t) == Abs(a - b) <= t * T
Across(a, b) == Abs(Dot(a, b, N)) <= T * (One(a, N) + One(b, N) + 3)
\* the tests are the steps to make, along a basis
AlongAxes(ts) == \E p \in Permutations(1..N) : \A i \in 1..N : ts[i] = [j \in 1..N |-> IF j = p[i] THEN run.first ELSE 0]
Basis(ts) == \A i, j \in 1..N : i < j => Across(ts[i], ts[j])
SameLengths(ls) == \E p \in Permutations(1..N) : \A i \in 1..N : Close(ls[i], lengths[p[i]], 3)
AlongTheMove(ts) == \E i \in 1..N : \A j \in 1..N : j # i => Across(ts[j], moved)
Better(i) == Ev.values[i] < Ev.value
Step(i, j) == NewStep(Ev.tests[i][j], Ev.lengths[i], Better(i), run.top)
RECURSIVE Total(_, _)
Total(i, j) == IF i = 0 THEN 0 ELSE Step(i, j) + Total(i - 1, j)
Moves == \A j \in 1..N : Close(Ev.move[j], Total(N, j), 2 * N + 1)
Sweep == /\ Is("Sweep") /\ Ev.ok /\ FALSE \in small
         /\ Len(Ev.tests) = N
         /\ (IF moved = <<>> THEN AlongAxes(Ev.tests) ELSE Basis(Ev.tests) /\ SameLengths(Ev.lengths) /\ AlongTheMove(Ev.tests)) = TRUE
         /\ Moves = TRUE
         /\ lengths' = [i \in 1..N |-> NewLength(Ev.lengths[i], Better(i), run.top)]
         /\ moved' = Ev.move
         /\ small' = IF Ev.edge = 1 THEN BOOLEAN ELSE {Ev.small}
         /\ UNCHANGED run
\* a sweep more is allowed, and not made
Ended == /\ Is("Sweep") /\ Ev.ok /\ TRUE \in small
         /\ Ev.tests = <<>> /\ (\A j \in 1..N : Ev.move[j] = 0) = TRUE
         /\ small' = {TRUE}
         /\ UNCHANGED <<run, lengths, moved>>
Next == Run \/ Sweep \/ Ended
TSpec == Init /\ [][Next]_vars
=============================================================================
