----------------------------- MODULE AnnealTrace -----------------------------
(* The walks of the real simulated annealing: the evaluations made, explained as  *)
(* the walk of Anneal.tla (the neighbour and its acceptance are its choices; the   *)
(* current point may be evaluated again at any time).                            *)
EXTENDS Integers, TraceLib
VARIABLES run, cur, cv, pend, pv, has, count, phase, l
vars == <<run, cur, cv, pend, pv, has, count, phase, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
None == [iters |-> 0, cold |-> FALSE]
Init == run = None /\ cur = <<>> /\ cv = 0 /\ pend = <<>> /\ pv = 0 /\ has = FALSE /\ count = 0 /\ phase = "none" /\ l = 1
Walk == /\ Is("Walk") /\ phase = "none" /\ phase' = "walk"
        /\ run' = Ev /\ cur' = Ev.start /\ cv' = Ev.v /\ has' = FALSE /\ count' = 0
        /\ UNCHANGED <<pend, pv>>
\* (a neighbour equal to the point itself has a chance of 1 in 2^31: not considered)
Neighbour(c, x, in) == \E i \in DOMAIN c : in[i] = 1 /\ x[i] # c[i] /\ \A j \in DOMAIN c : j = i \/ x[j] = c[j]
\* what the walk may stand on once the pending neighbour is decided on
Decided == {c \in {<<cur, cv>>, <<pend, pv>>} :
              \/ ~has /\ c = <<cur, cv>>
              \/ has /\ pv <= cv /\ c = <<pend, pv>>
              \/ has /\ pv > cv /\ (c = <<cur, cv>> \/ (count < run.iters /\ ~run.cold))}
Again == /\ Is("Eval") /\ phase = "walk"
         /\ (Ev.x = cur /\ Ev.v = cv) \/ (has /\ Ev.x = pend /\ Ev.v = pv)
         /\ UNCHANGED <<run, cur, cv, pend, pv, has, count, phase>>
Step == /\ Is("Eval") /\ phase = "walk" /\ count < run.iters
        /\ \E c \in Decided : /\ Len(Ev.x) = Len(c[1]) /\ Neighbour(c[1], Ev.x, Ev.in) = TRUE
                              /\ cur' = c[1] /\ cv' = c[2]
        /\ pend' = Ev.x /\ pv' = Ev.v /\ has' = TRUE /\ count' = count + 1
        /\ UNCHANGED <<run, phase>>
End == /\ Is("End") /\ phase = "walk" /\ phase' = "none"
       /\ Ev.ok => (count = run.iters /\ (\E c \in Decided : Ev.x = c[1]) = TRUE)
       /\ ~Ev.ok => Ev.refused
       /\ run' = None /\ cur' = <<>> /\ cv' = 0 /\ pend' = <<>> /\ pv' = 0 /\ has' = FALSE /\ count' = 0
Next == Walk \/ Again \/ Step \/ End
TSpec == Init /\ [][Next]_vars
=============================================================================
