------------------------------ MODULE GridTrace ------------------------------
(* Searches of the real GridSearch.  Bounds, step and coordinates are integers    *)
(* (units of a power of two, exact); evals: the points the objective was asked for *)
(* in the order of the answers, with their values; failed: an evaluation threw.    *)
EXTENDS GridDefs, FiniteSets, TraceLib
VARIABLES l
vars == <<l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == l = 1
Points == {Ev.evals[i] : i \in DOMAIN Ev.evals}
Search ==
   /\ Is("Search") /\ ~Ev.offgrid
   /\ \A x \in Points : OnGrid(x, Ev.low, Ev.high, Ev.step, Ev.dim)
   /\ Cardinality(Points) = Len(Ev.evals)
   /\ Len(Ev.vals) = Len(Ev.evals)
   /\ IF Ev.high < Ev.low THEN ~Ev.ok /\ Ev.evals = <<>> /\ Ev.kept
      ELSE IF Ev.failed THEN ~Ev.ok
      ELSE /\ Ev.ok
           /\ Len(Ev.evals) = Size(Ev.low, Ev.high, Ev.step, Ev.dim)
           /\ \E i \in DOMAIN Ev.evals :
                 /\ Ev.evals[i] = Ev.at
                 /\ \A k \in DOMAIN Ev.vals : IF Ev.max THEN Ev.vals[i] >= Ev.vals[k] ELSE Ev.vals[i] <= Ev.vals[k]
\* parameters of another kind are refused without an evaluation
Other == Is("Other") /\ ~Ev.ok /\ Ev.evals = 0
Next == Search \/ Other
TSpec == Init /\ [][Next]_vars
=============================================================================
