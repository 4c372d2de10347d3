--------------------------------- MODULE Cwt ---------------------------------
(* The transformation as the code makes it: the signal copied into a zero-padded   *)
(* buffer, a window moved along it by the step, one row for each place, the caller  *)
(* told of the progress.  Every access must stay inside the buffer.               *)
EXTENDS CwtDefs, FiniteSets, TLC
CONSTANTS MaxN, MaxLen, Values, Bug
VARIABLES x, len, step, i, rows, told, phase
vars == <<x, len, step, i, rows, told, phase>>
Init == /\ x \in UNION {[1..n -> Values] : n \in 0..MaxN} /\ len \in 2..MaxLen /\ step \in 0..3
        /\ i = 0 /\ rows = <<>> /\ told = <<>> /\ phase = "start"
Half == len \div 2
BufferLen == Len(x) + (IF Bug = "shortBuffer" THEN Half ELSE len)
Offset == IF Bug = "notCentred" THEN 0 ELSE Half
Buffer(p) == At0(x, p - Offset)
Start == /\ phase = "start"
         /\ phase' = (IF step < 1 /\ Bug # "noStepRuns" THEN "refused" ELSE "run")
         /\ UNCHANGED <<x, len, step, i, rows, told>>
W(j) == Re(Position("linear", 0, j, len, 1))
RECURSIVE Sum(_, _)
Sum(p, j) == IF j = len THEN 0 ELSE W(j) * Buffer(p + j) + Sum(p, j + 1)
Row == /\ phase = "run" /\ i < Len(x)
       /\ rows' = Append(rows, <<i, Sum(i, 0)>>) /\ told' = Append(told, i)
       /\ i' = i + (IF Bug = "oneByOne" THEN 1 ELSE step)
       /\ UNCHANGED <<x, len, step, phase>>
Finish == phase = "run" /\ i >= Len(x) /\ phase' = "done" /\ UNCHANGED <<x, len, step, i, rows, told>>
Next == Start \/ Row \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Short == Len(rows) <= MaxN
InsideBuffer == (phase = "run" /\ i < Len(x)) => i + len <= BufferLen
RowCount == phase = "done" => Len(rows) = Rows(Len(x), step)
RECURSIVE Want(_, _)
Want(p, j) == IF j = len THEN 0 ELSE W(j) * At0(x, p - Half + j) + Want(p, j + 1)
RowsRight == \A r \in DOMAIN rows : rows[r] = <<(r - 1) * step, Want((r - 1) * step, 0)>>
Progress == \A r \in DOMAIN told : told[r] = (r - 1) * step /\ told[r] < Len(x)
NoStep == (step < 1 /\ phase # "start") => phase = "refused"
Ends == <>(phase \in {"done", "refused"})
=============================================================================
