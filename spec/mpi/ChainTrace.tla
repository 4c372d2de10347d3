----------------------------- MODULE ChainTrace -----------------------------
(* A chain of asynchronous calls (property C26): calls are made one at a      *)
(* time, in the order added, the next only when the current one is over.       *)
EXTENDS TraceLib
VARIABLES queue,   \* calls not made yet: [id, real]
          cur,     \* id of the call being waited for (0: none pending)
          l
vars == <<queue, cur, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Quiet == Ev.called = <<>>          \* this operation makes no call

Init == queue = <<>> /\ cur = 0 /\ l = 1
Next ==
    \/ Is("Chain") /\ Quiet /\ queue' = <<[id |-> 1, real |-> Ev.real]>> /\ cur' = 0
    \/ Is("Add") /\ Quiet /\ queue' = Append(queue, [id |-> Ev.id, real |-> Ev.real]) /\ UNCHANGED cur
    \/ Is("Finished") /\ Quiet /\ Ev.r = (IF cur = 0 THEN "yes" ELSE "no") /\ UNCHANGED <<queue, cur>>
    \/ Is("More") /\ Quiet /\ Ev.r = (queue /= <<>>) /\ UNCHANGED <<queue, cur>>
    \/ Is("Next") /\ IF cur = 0
                     THEN /\ Ev.r = "made" /\ queue /= <<>> /\ Ev.called = <<Head(queue).id>>
                          /\ cur' = (IF Head(queue).real THEN Head(queue).id ELSE 0)
                          /\ queue' = Tail(queue)
                     ELSE Ev.r = "refused" /\ Quiet /\ UNCHANGED <<queue, cur>>
    \/ Is("Completed") /\ cur /= 0 /\ cur' = 0 /\ UNCHANGED queue
TSpec == Init /\ [][Next]_vars
=============================================================================
