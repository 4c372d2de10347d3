------------------------------ MODULE MultiTrace ------------------------------
(* Searches of the real RandomSearch, with a local optimiser of the harness that  *)
(* records every run (opt), or with none, where the evaluations of the objective  *)
(* are recorded instead.                                                         *)
EXTENDS Integers, FiniteSets, TraceLib
VARIABLES search, done, failed, starts, l
vars == <<search, done, failed, starts, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
None == [n |-> 0 - 1, opt |-> FALSE, max |-> FALSE, differ |-> FALSE]
Init == search = None /\ done = <<>> /\ failed = 0 /\ starts = {} /\ l = 1
New == Is("New") /\ search = None /\ UNCHANGED <<search, done, failed, starts>>
Search == /\ Is("Search") /\ search = None
          /\ search' = [n |-> Ev.n, opt |-> Ev.opt, max |-> Ev.max, differ |-> Ev.differ]
          /\ done' = <<>> /\ failed' = 0 /\ starts' = {}
Total == Len(done) + failed
\* every run has starting values of its own
Start(x) == /\ starts' = starts \cup {x}
            /\ (search.differ => x \notin starts) = TRUE
Run == /\ Is("Run") /\ search.opt /\ Total < search.n
       /\ Ev.in /\ Start(Ev.start)
       /\ IF Ev.fail THEN failed' = failed + 1 /\ UNCHANGED done
          ELSE /\ Ev.max = search.max /\ Ev.seen = Ev.val /\ Ev.seen2 = Ev.val
               /\ done' = Append(done, <<Ev.end, Ev.val>>) /\ UNCHANGED failed
       /\ UNCHANGED search
Eval == /\ Is("Eval") /\ ~search.opt /\ Total < search.n
        /\ done' = Append(done, <<Ev.at, Ev.val>>) /\ Start(Ev.at) /\ UNCHANGED <<search, failed>>
Best(v) == \A d \in Range(done) : IF search.max THEN v >= d[2] ELSE v <= d[2]
Result == /\ Is("Result")
          /\ Ev.ok = (failed = 0 /\ search.n > 0)
          /\ Ev.ok => /\ Total = search.n
                      /\ <<Ev.at, Ev.val>> \in Range(done)
                      /\ Best(Ev.val)
                      /\ search.opt \/ Ev.in
          /\ search' = None /\ UNCHANGED <<done, failed, starts>>
End == Is("End") /\ search = None /\ Ev.alive = 0 /\ UNCHANGED <<search, done, failed, starts>>
\* over MPI: every message was received and every worker ended as it was told to
Channels == Is("Channels") /\ Ev.left = 0 /\ Ev.lost = 0 /\ UNCHANGED <<search, done, failed, starts>>
Next == Channels \/ New \/ Search \/ Run \/ Eval \/ Result \/ End
TSpec == Init /\ [][Next]_vars
=============================================================================
