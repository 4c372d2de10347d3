------------------------------- MODULE HjTrace -------------------------------
(* Runs of the real pattern search, every evaluation of it (coordinates in units  *)
(* of 1/64; maximizing runs are given the negated function).  The first           *)
(* evaluation of every point must be one the method asks for next (of the point   *)
(* explored from, or one step aside of it); a run ends with the method's own      *)
(* result when it ends.                                                          *)
EXTENDS HjDefs, TraceLib, TLC
VARIABLES r, s, known, l
vars == <<r, s, known, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Idle == [ph |-> "none"]
Init == r = Idle /\ s = Idle /\ known = <<>> /\ l = 1
Run == Is("Run") /\ s.ph = "none" /\ r' = Ev /\ s' = Start(Ev) /\ known' = <<>>
Eval == /\ Is("Eval") /\ s.ph # "none"
        /\ IF Ev.x \in DOMAIN known THEN Ev.v = known[Ev.x] /\ UNCHANGED <<s, known>>
           ELSE /\ s.ph = "explore" /\ Ev.x \in {s.q, Aside(s)}
                /\ known' = known @@ (Ev.x :> Ev.v)
                /\ s' = Advance(r, s, known')
        /\ UNCHANGED r
End == Is("End") /\ Ev.ok /\ s.ph = "done" /\ Ev.x = s.c /\ s' = Idle /\ UNCHANGED <<r, known>>
\* a run may be broken off between its last decision and its end
Budget == Is("Budget") /\ s.ph \in {"explore", "done"} /\ s' = Idle /\ UNCHANGED <<r, known>>
Next == Run \/ Eval \/ End \/ Budget
TSpec == Init /\ [][Next]_vars
=============================================================================
