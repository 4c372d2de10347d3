----------------------------- MODULE DescentTrace -----------------------------
(* Recorded results of the real gradient methods obey the law of the model.      *)
(* down[k]: the first step of a method, and every step of steepest descent,       *)
(* leads down the gradient; orth[k]: the gradient where a single step ends has no *)
(* part along the step (it is the lowest point of the line).                      *)
EXTENDS DescentDefs, TraceLib
VARIABLES l
Ev == Trace[l]
Ones(s) == \A k \in DOMAIN s : s[k] = 1
Result == /\ l <= TraceLen /\ Ev.e = "Descent" /\ l' = l + 1
          /\ Ev.how = "ok"
          /\ (Stops(Ev.near, Ev.far) /\ GoesOn(Ev.near, Ev.far) /\ NeverUphill(Ev.fall) /\ Arrives(Ev.near)) = TRUE
          /\ (Ev.method = "conjugate" => Conjugate(Ev.near, Ev.n)) = TRUE
          /\ (Ones(Ev.down) /\ Ones(Ev.orth)) = TRUE
TSpec == l = 1 /\ [][Result]_l
=============================================================================
