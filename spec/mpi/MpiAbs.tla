------------------------------- MODULE MpiAbs -------------------------------
(* The protocol between the MPI master and its workers as an observer of the  *)
(* messages sees it (property C05).  out[w] is the task worker w is busy with, *)
(* from the moment it is sent until the master has its complete result.        *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxWorkers, MaxBatch, MaxTasks
ASSUME MaxWorkers \in Nat

VARIABLES
    phase,    \* "none" "idle" "batch" "closing" "closed"
    nw,       \* number of workers
    batch,    \* number of the batch
    st,       \* per task: "todo" "sent" "performed" "answered" "got"
    wk,       \* per task: the worker it was sent to (0: none yet)
    out,      \* per worker: its outstanding task (0: none)
    counted,  \* per worker: completed tasks since the pool was created
    told,     \* workers told to finish
    gone      \* workers that have exited
mvars == <<phase, nw, batch, st, wk, out, counted, told, gone>>

MInit == /\ phase = "none" /\ nw = 0 /\ batch = 0 /\ st = <<>> /\ wk = <<>>
         /\ out = <<>> /\ counted = <<>> /\ told = {} /\ gone = {}

Start(k) ==
    /\ phase = "none" \/ (phase = "closed" /\ gone = 1..nw)
    /\ phase' = "idle" /\ nw' = k /\ batch' = 0 /\ st' = <<>> /\ wk' = <<>>
    /\ out' = [w \in 1..k |-> 0] /\ counted' = [w \in 1..k |-> 0]
    /\ told' = {} /\ gone' = {}

DoTasks(n) ==
    /\ phase = "idle" /\ phase' = "batch" /\ batch' = batch + 1
    /\ st' = [i \in 1..n |-> "todo"] /\ wk' = [i \in 1..n |-> 0]
    /\ UNCHANGED <<nw, out, counted, told, gone>>

Send(i, w) ==
    /\ phase = "batch" /\ i \in DOMAIN st /\ w \in 1..nw
    /\ st[i] = "todo" /\ out[w] = 0
    /\ st' = [st EXCEPT ![i] = "sent"] /\ wk' = [wk EXCEPT ![i] = w]
    /\ out' = [out EXCEPT ![w] = i]
    /\ UNCHANGED <<phase, nw, batch, counted, told, gone>>

Perform(i, w) ==
    /\ i \in DOMAIN st /\ st[i] = "sent" /\ wk[i] = w
    /\ st' = [st EXCEPT ![i] = "performed"]
    /\ UNCHANGED <<phase, nw, batch, wk, out, counted, told, gone>>

Answer(i, w) ==
    /\ i \in DOMAIN st /\ st[i] = "performed" /\ wk[i] = w
    /\ st' = [st EXCEPT ![i] = "answered"]
    /\ UNCHANGED <<phase, nw, batch, wk, out, counted, told, gone>>

Got(i) ==
    /\ i \in DOMAIN st /\ st[i] = "answered" /\ out[wk[i]] = i
    /\ st' = [st EXCEPT ![i] = "got"]
    /\ out' = [out EXCEPT ![wk[i]] = 0]
    /\ counted' = [counted EXCEPT ![wk[i]] = @ + 1]
    /\ UNCHANGED <<phase, nw, batch, wk, told, gone>>

Return ==
    /\ phase = "batch" /\ \A i \in DOMAIN st : st[i] = "got"
    /\ phase' = "idle"
    /\ UNCHANGED <<nw, batch, st, wk, out, counted, told, gone>>

Destroy ==
    /\ phase = "idle" /\ phase' = "closing"
    /\ UNCHANGED <<nw, batch, st, wk, out, counted, told, gone>>

\* Only while the pool is being destroyed, once per worker, with nothing outstanding.
Tell(w) ==
    /\ phase = "closing" /\ w \in (1..nw) \ told /\ out[w] = 0
    /\ told' = told \cup {w}
    /\ UNCHANGED <<phase, nw, batch, st, wk, out, counted, gone>>

Exit(w) ==
    /\ w \in told \ gone /\ gone' = gone \cup {w}
    /\ UNCHANGED <<phase, nw, batch, st, wk, out, counted, told>>

Destroyed ==
    /\ phase = "closing" /\ told = 1..nw /\ phase' = "closed"
    /\ UNCHANGED <<nw, batch, st, wk, out, counted, told, gone>>

MNext ==
    \/ \E k \in 1..MaxWorkers : phase = "none" /\ Start(k)
    \/ \E n \in 0..MaxTasks : batch < MaxBatch /\ DoTasks(n)
    \/ \E i \in 1..MaxTasks, w \in 1..MaxWorkers : Send(i, w) \/ Perform(i, w) \/ Answer(i, w)
    \/ \E i \in 1..MaxTasks : Got(i)
    \/ Return \/ Destroy \/ Destroyed
    \/ \E w \in 1..MaxWorkers : Tell(w) \/ Exit(w)

MSpec == MInit /\ [][MNext]_mvars

OneOutstanding == \A w \in DOMAIN out :
    Cardinality({i \in DOMAIN st : wk[i] = w /\ st[i] \in {"sent", "performed", "answered"}}) <= 1
=============================================================================
