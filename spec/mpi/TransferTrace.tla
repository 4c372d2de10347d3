--------------------------- MODULE TransferTrace ----------------------------
(* Recorded transfers and distributed runs of the real code (property C30).   *)
(* Received objects behave as the ones sent did, nothing is left in the       *)
(* channel, a distributed run gives the result of the run in place, evaluates *)
(* the same points, and all workers end as they are told to.                  *)
EXTENDS Integers, Sequences, TraceLib
VARIABLES runs, l
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == runs = 0 /\ l = 1
Next ==
    \/ Is("Transfer") /\ Ev.got = Ev.sent /\ Ev.left = 0 /\ ~Ev.failed /\ runs' = runs + 1
    \* the kinds of tasks are known to the workers before they start to wait for them
    \/ Is("Created") /\ Ev.known /\ UNCHANGED runs
    \/ Is("Distributed") /\ Ev.got = Ev.ref /\ Ev.left = 0 /\ Ev.lost = 0 /\ runs' = runs + 1
    \/ Is("Stats") /\ runs' = 0
TSpec == Init /\ [][Next]_<<runs, l>>
=============================================================================
