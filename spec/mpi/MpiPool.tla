------------------------------ MODULE MpiPool ------------------------------
(* The MPI pool as implemented: the master sends the first tasks to workers   *)
(* 1, 2, ... in turn; once every worker has one it waits for any finished      *)
(* result and reuses that worker; results arrive through a chain of            *)
(* asynchronous calls polled in list order; the worker loop receives an id,    *)
(* performs, answers, until the end-of-work id.  Refines MpiAbs.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NW, MaxBatch, MaxTasks, ChainLen, Bug

W == 1..NW
End == 99
VARIABLES pc, batch, n, i, rank, firstSent, exps, wpc, chan, back, st, wk, counted, told, gone, res
\* exps: sequence of [t, w, left]: calls of the result chain not yet finished
\* chan[w]: ids on their way to w; back[w]: parts of results on their way back
vars == <<pc, batch, n, i, rank, firstSent, exps, wpc, chan, back, st, wk, counted, told, gone, res>>

Init ==
    /\ pc = "new" /\ batch = 0 /\ n = 0 /\ i = 1 /\ rank = 1 /\ firstSent = FALSE
    /\ exps = <<>> /\ wpc = [w \in W |-> 0] /\ chan = [w \in W |-> <<>>]
    /\ back = [w \in W |-> <<>>]
    /\ st = <<>> /\ wk = <<>> /\ counted = [w \in W |-> 0] /\ told = {} /\ gone = {} /\ res = <<>>

Ready == pc = "new" /\ pc' = "idle"
         /\ UNCHANGED <<batch, n, i, rank, firstSent, exps, wpc, chan, back, st, wk, counted, told, gone, res>>

CallDoTasks(k) ==
    /\ pc = "idle" /\ batch < MaxBatch
    /\ pc' = IF k = 0 THEN "drain" ELSE "send"
    /\ batch' = batch + 1 /\ n' = k /\ i' = 1 /\ rank' = 1 /\ firstSent' = FALSE
    /\ exps' = <<>> /\ st' = [t \in 1..k |-> "todo"] /\ wk' = [t \in 1..k |-> 0]
    /\ res' = [t \in 1..k |-> 0]
    /\ UNCHANGED <<wpc, chan, back, counted, told, gone>>

\* a batch with a task of another kind is refused before anything is sent
CallForeign ==
    /\ pc = "idle" /\ batch < MaxBatch
    /\ IF Bug # "lateCheck" THEN UNCHANGED vars
       ELSE /\ chan' = [chan EXCEPT ![1] = Append(@, 1)]
            /\ st' = <<"sent", "todo">> /\ wk' = <<1, 0>> /\ res' = <<0, 0>>
            /\ n' = 2 /\ i' = 1 /\ batch' = batch + 1 /\ exps' = <<>>
            /\ UNCHANGED <<pc, rank, firstSent, wpc, back, counted, told, gone>>

SendTask ==
    /\ pc = "send"
    /\ chan' = [chan EXCEPT ![rank] = Append(@, i)]
    /\ st' = [st EXCEPT ![i] = "sent"] /\ wk' = [wk EXCEPT ![i] = rank]
    /\ exps' = Append(exps, [t |-> i, w |-> rank, left |-> ChainLen])
    /\ LET full == firstSent \/ rank + 1 > NW
       IN  /\ firstSent' = full
           /\ rank' = IF firstSent THEN rank ELSE IF full THEN 1 ELSE rank + 1
           /\ pc' = IF full /\ Bug /= "noWait" THEN "wait"
                    ELSE IF i = n THEN "drain" ELSE "send"
           /\ i' = IF full /\ Bug /= "noWait" THEN i ELSE i + 1
    /\ UNCHANGED <<batch, n, wpc, back, counted, told, gone, res>>

Polling == pc \in {"wait", "drain"}

\* some expectation (the poll order is irrelevant) whose current call has finished
Poll(k) ==
    /\ Polling /\ k \in DOMAIN exps
    /\ back[exps[k].w] /= <<>>
    /\ LET e == exps[k]  part == Head(back[e.w])
       IN  /\ back' = [back EXCEPT ![e.w] = Tail(@)]
           /\ IF e.left > 1
              THEN exps' = [exps EXCEPT ![k].left = @ - 1] /\ UNCHANGED <<st, res, counted, pc, i, rank>>
              ELSE /\ exps' = [j \in 1..(Len(exps) - 1) |-> IF j < k THEN exps[j] ELSE exps[j + 1]]
                   /\ st' = [st EXCEPT ![e.t] = "got"]
                   /\ res' = [res EXCEPT ![e.t] = part]
                   /\ counted' = [counted EXCEPT ![e.w] = @ + 1]
                   /\ IF pc = "wait"
                      THEN /\ rank' = IF Bug = "wrongRank" THEN 1 ELSE e.w
                           /\ i' = i + 1
                           /\ pc' = IF i = n THEN "drain" ELSE "send"
                      ELSE UNCHANGED <<pc, i, rank>>
    /\ UNCHANGED <<batch, n, firstSent, wpc, chan, wk, told, gone>>

CallReturns ==
    /\ pc = "drain" /\ (exps = <<>> \/ Bug = "noDrain") /\ pc' = "idle"
    /\ UNCHANGED <<batch, n, i, rank, firstSent, exps, wpc, chan, back, st, wk, counted, told, gone, res>>

CallDestroy ==
    /\ pc = "idle" /\ pc' = "closing"
    /\ UNCHANGED <<batch, n, i, rank, firstSent, exps, wpc, chan, back, st, wk, counted, told, gone, res>>

Tell(w) ==
    /\ pc = "closing" /\ w \notin told /\ told' = told \cup {w}
    /\ chan' = [chan EXCEPT ![w] = Append(@, End)]
    /\ UNCHANGED <<pc, batch, n, i, rank, firstSent, exps, wpc, back, st, wk, counted, gone, res>>

Closed == /\ pc = "closing" /\ (told = W \/ (Bug = "skipLast" /\ told = 1..(NW - 1))) /\ pc' = "closed"
          /\ UNCHANGED <<batch, n, i, rank, firstSent, exps, wpc, chan, back, st, wk, counted, told, gone, res>>

WorkerReceive(w) ==
    /\ wpc[w] = 0 /\ w \notin gone /\ chan[w] /= <<>>
    /\ chan' = [chan EXCEPT ![w] = Tail(@)]
    /\ IF Head(chan[w]) = End
       THEN gone' = gone \cup {w} /\ UNCHANGED <<wpc, st>>
       ELSE /\ wpc' = [wpc EXCEPT ![w] = Head(chan[w])]
            /\ st' = [st EXCEPT ![Head(chan[w])] = "performed"]
            /\ UNCHANGED gone
    /\ UNCHANGED <<pc, batch, n, i, rank, firstSent, exps, back, wk, counted, told, res>>

WorkerAnswer(w) ==
    /\ wpc[w] /= 0
    /\ back' = [back EXCEPT ![w] = @ \o [p \in 1..ChainLen |-> wpc[w]]]
    /\ st' = [st EXCEPT ![wpc[w]] = "answered"]
    /\ wpc' = [wpc EXCEPT ![w] = 0]
    /\ UNCHANGED <<pc, batch, n, i, rank, firstSent, exps, chan, wk, counted, told, gone, res>>

Master == Ready \/ SendTask \/ CallReturns \/ Closed \/ (\E k \in 1..MaxTasks : Poll(k)) \/ (\E w \in W : Tell(w))
Next == Master \/ (\E k \in 0..MaxTasks : CallDoTasks(k)) \/ CallForeign \/ CallDestroy
        \/ \E w \in W : WorkerReceive(w) \/ WorkerAnswer(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Master) /\ \A w \in W : WF_vars(WorkerReceive(w) \/ WorkerAnswer(w))

Abs == INSTANCE MpiAbs WITH
    MaxWorkers <- NW,
    phase <- CASE pc = "new" -> "none" [] pc \in {"idle", "closing", "closed"} -> pc [] OTHER -> "batch",
    nw <- IF pc = "new" THEN 0 ELSE NW,
    out <- IF pc = "new" THEN <<>> ELSE
           [w \in W |-> IF \E t \in DOMAIN st : wk[t] = w /\ st[t] \in {"sent", "performed", "answered"}
                        THEN CHOOSE t \in DOMAIN st : wk[t] = w /\ st[t] \in {"sent", "performed", "answered"}
                        ELSE 0],
    counted <- IF pc = "new" THEN <<>> ELSE counted
Refines == Abs!MSpec
OneOutstanding == Abs!OneOutstanding
InOrder == pc = "drain" /\ exps = <<>> => \A t \in 1..n : res[t] = t
BatchTerminates == pc = "send" ~> pc = "idle"
CloseTerminates == pc = "closing" ~> pc = "closed" /\ gone = W
=============================================================================
