------------------------------- MODULE FftTrace -------------------------------
(* Recorded runs of several threads creating, using and destroying real fast        *)
(* Fourier transforms: entries into and exits from the library's planner (live plans  *)
(* are numbered), executions of plans, and what the users saw.                     *)
EXTENDS Cyclic, DftTable, TraceLib
VARIABLES planner, live, l
vars == <<planner, live, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == planner = 0 /\ live = {} /\ l = 1
Free == 0
Start == Is("Start") /\ planner' = Free /\ live' = {}
PlanIn == Is("PlanIn") /\ planner = Free /\ planner' = Ev.t + 1 /\ UNCHANGED live
PlanOut == Is("PlanOut") /\ planner = Ev.t + 1 /\ planner' = Free /\ live' = live \cup {Ev.plan}
DestroyIn == Is("DestroyIn") /\ planner = Free /\ Ev.plan \in live /\ planner' = Ev.t + 1 /\ live' = live \ {Ev.plan}
DestroyOut == Is("DestroyOut") /\ planner = Ev.t + 1 /\ planner' = Free /\ UNCHANGED live
\* a plan may be executed at any time, but not when it has been destroyed
Execute == Is("Execute") /\ Ev.plan \in live /\ UNCHANGED <<planner, live>>
Made == Is("Made") /\ Ev.ok = (Ev.n > 0) /\ UNCHANGED <<planner, live>>
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Turn(n, j) == <<CosTable[n][(j % n) + 1], 0 - SinTable[n][(j % n) + 1]>>
Sum(x, k) == LET n == Len(x) T(m) == CMul(X(x, m), Turn(n, k * m)) IN CSum(T, n)
Close(r, s) == Abs(r[1] - s[1]) <= 400 /\ Abs(r[2] - s[2]) <= 400
Transform == /\ Is("Transform") /\ UNCHANGED <<planner, live>>
             /\ IF Len(Ev.x) # Ev.n THEN Ev.refused
                ELSE ~Ev.refused /\ Len(Ev.r) = Ev.n /\ \A k \in 1..Ev.n : Close(Ev.r[k], Sum(Ev.x, k - 1))
Gone == Is("Gone") /\ UNCHANGED <<planner, live>>
End == Is("End") /\ planner = Free /\ UNCHANGED <<planner, live>>
Next == Start \/ PlanIn \/ PlanOut \/ DestroyIn \/ DestroyOut \/ Execute \/ Made \/ Transform \/ Gone \/ End
TSpec == Init /\ [][Next]_vars
=============================================================================
