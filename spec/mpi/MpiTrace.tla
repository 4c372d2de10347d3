------------------------------ MODULE MpiTrace ------------------------------
(* Recorded executions of the real MPI pool, checked against MpiAbs.          *)
EXTENDS MpiAbs, TraceLib
VARIABLES kinds, l
tv == <<phase, nw, batch, st, wk, out, counted, told, gone, kinds, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
T == Ev.t - 100 * batch
K == UNCHANGED kinds
Strange(k) == k = <<99>>

TInit == MInit /\ kinds = <<>> /\ l = 1
TNext ==
    \/ Is("Start") /\ Start(Ev.workers) /\ kinds' = <<>>
    \/ Is("Valid") /\ Ev.v = (nw >= 1) /\ UNCHANGED mvars /\ K
    \/ Is("DoTasks") /\ nw >= 1 /\ ~Strange(kinds) /\ DoTasks(Len(Ev.kinds)) /\ batch' = Ev.b /\ kinds' = Ev.kinds
    \/ Is("Refused") /\ nw = 0 /\ UNCHANGED mvars /\ K          \* no worker: the batch is refused
    \* a batch with a task that is none of the pool's kind is refused whole
    \/ Is("Foreign") /\ nw >= 1 /\ phase = "idle" /\ UNCHANGED mvars /\ kinds' = <<99>>
    \/ Is("Refused") /\ Strange(kinds) /\ phase = "idle" /\ UNCHANGED mvars /\ kinds' = <<>>
    \* the worker performs the very task that was sent, as the kind it was
    \/ Is("Send") /\ T \in DOMAIN kinds /\ Ev.kind = kinds[T] /\ Send(T, Ev.w) /\ K
    \/ Is("Perform") /\ T \in DOMAIN kinds /\ Ev.kind = kinds[T] /\ Perform(T, Ev.w) /\ K
    \/ Is("Answer") /\ Answer(T, Ev.w) /\ K
    \/ Is("Got") /\ Got(T) /\ K
    \/ Is("Return") /\ Return /\ Ev.res = [i \in DOMAIN st |-> 100 * batch + i] /\ K
    \/ Is("Statistics") /\ phase = "idle" /\ Ev.counted = counted /\ Ev.errors = 0 /\ Ev.strange = 0
                        /\ UNCHANGED mvars /\ K
    \/ Is("Destroy") /\ ~Strange(kinds) /\ Destroy /\ K
    \/ Is("EndSent") /\ Tell(Ev.w) /\ K
    \/ Is("Destroyed") /\ Destroyed /\ K
    \/ Is("Exit") /\ Ev.code = 0 /\ Exit(Ev.w) /\ K
    \/ Is("Over") /\ phase = "closed" /\ gone = 1..nw /\ Ev.undelivered = 0 /\ UNCHANGED mvars /\ K
    \/ Is("Stats") /\ UNCHANGED mvars /\ K
TSpec == TInit /\ [][TNext]_tv
=============================================================================
