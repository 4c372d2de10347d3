----------------------------- MODULE ThreadPool -----------------------------
(* The thread worker pool as designed: a to-do queue and a done queue, each    *)
(* with its own mutex and condition variable, N workers in a loop, and a       *)
(* caller that submits batches and finally destroys the pool by interrupting   *)
(* and joining the workers.  One action per critical section / lock-free step. *)
(* It must refine PoolAbs, and every batch and every shutdown must terminate.  *)
(*                                                                             *)
(* Condition variables: a waiting thread wakes when notified (one waiter is    *)
(* chosen), spuriously, or when interrupted (interruption point); then it      *)
(* competes for the mutex again.                                               *)
(*                                                                             *)
(* Bug selects deliberately wrong variants (negative controls).                *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Workers, MaxBatch, MaxTasks, MayFail, SpuriousBudget, Bug

Queues == {"todo", "done"}
Caller == "caller"
Threads == Workers \cup {Caller}

VARIABLES
    pc,        \* program counter of each thread
    q,         \* contents of the two queues
    mtx,       \* owner of each queue's mutex, or "free"
    waiting,   \* threads waiting on each queue's condition variable
    intr,      \* workers with a pending interruption
    cur,       \* task held by each worker (0: none)
    n,         \* tasks of the current batch
    sub,       \* tasks already submitted by the caller
    got,       \* completions already collected by the caller
    batchNo, res, failed, st, stopping, spurious

vars == <<pc, q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

Init ==
    /\ pc = [t \in Threads |-> IF t = Caller THEN "new" ELSE "off"]
    /\ q = [x \in Queues |-> <<>>]
    /\ mtx = [x \in Queues |-> "free"]
    /\ waiting = [x \in Queues |-> {}]
    /\ intr = {}
    /\ cur = [w \in Workers |-> 0]
    /\ n = 0 /\ sub = 0 /\ got = 0 /\ batchNo = 0
    /\ res = <<>> /\ failed = {} /\ st = <<>>
    /\ stopping = {}
    /\ spurious = SpuriousBudget

Goto(t, where) == pc' = [pc EXCEPT ![t] = where]

\* Workers start one after another while the caller constructs the pool.
StartWorker(w) ==
    /\ pc[Caller] = "new" /\ pc[w] = "off"
    /\ Goto(w, "pop")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

Constructed ==
    /\ pc[Caller] = "new" /\ \A w \in Workers : pc[w] /= "off"
    /\ Goto(Caller, "idle")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

CallDoTasks(k) ==
    /\ pc[Caller] = "idle" /\ batchNo < MaxBatch
    /\ batchNo' = batchNo + 1
    /\ n' = k /\ sub' = 0 /\ got' = 0 /\ failed' = {}
    /\ res' = [i \in 1..k |-> 0]
    /\ st' = [i \in 1..k |-> "todo"]
    /\ Goto(Caller, "submit")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, stopping, spurious>>

\* lock; push; unlock -- then, as a separate step, notify one waiter
CallerPush ==
    /\ pc[Caller] = "submit" /\ sub < n /\ mtx["todo"] = "free"
    /\ q' = [q EXCEPT !["todo"] = Append(@, sub + 1)]
    /\ sub' = sub + 1
    /\ Goto(Caller, "notify")
    /\ UNCHANGED <<mtx, waiting, intr, cur, n, got, batchNo, res, failed, st, stopping, spurious>>

Notify(t, x) ==      \* one waiter of queue x, if any, starts to compete for the mutex
    IF waiting[x] = {} THEN UNCHANGED waiting
    ELSE \E v \in waiting[x] : waiting' = [waiting EXCEPT ![x] = @ \ {v}]

CallerNotify ==
    /\ pc[Caller] = "notify"
    /\ Notify(Caller, "todo")
    /\ Goto(Caller, "submit")
    /\ UNCHANGED <<q, mtx, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

Submitted ==
    /\ pc[Caller] = "submit" /\ sub = n
    /\ Goto(Caller, "collect")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

CallerLock ==
    /\ pc[Caller] = "collect" /\ got < n /\ mtx["done"] = "free"
    /\ mtx' = [mtx EXCEPT !["done"] = Caller]
    /\ Goto(Caller, "collect2")
    /\ UNCHANGED <<q, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

CallerWait ==
    /\ pc[Caller] = "collect2" /\ q["done"] = <<>>
    /\ mtx' = [mtx EXCEPT !["done"] = "free"]
    /\ waiting' = [waiting EXCEPT !["done"] = @ \cup {Caller}]
    /\ Goto(Caller, "waiting")
    /\ UNCHANGED <<q, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

CallerPop ==
    /\ pc[Caller] = "collect2" /\ q["done"] /= <<>>
    /\ q' = [q EXCEPT !["done"] = Tail(@)]
    /\ mtx' = [mtx EXCEPT !["done"] = "free"]
    /\ got' = got + 1
    /\ Goto(Caller, "collect")
    /\ UNCHANGED <<waiting, intr, cur, n, sub, batchNo, res, failed, st, stopping, spurious>>

CallerWake ==
    /\ pc[Caller] = "waiting" /\ Caller \notin waiting["done"] /\ mtx["done"] = "free"
    /\ mtx' = [mtx EXCEPT !["done"] = Caller]
    /\ Goto(Caller, "collect2")
    /\ UNCHANGED <<q, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

CallReturns ==
    /\ pc[Caller] = "collect" /\ got = n
    /\ Goto(Caller, "idle")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

\* ---- worker ----------------------------------------------------------------
WorkerLock(w) ==
    /\ pc[w] = "pop" /\ mtx["todo"] = "free"
    /\ mtx' = [mtx EXCEPT !["todo"] = w]
    /\ Goto(w, "test")
    /\ UNCHANGED <<q, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

\* waiting is an interruption point: a pending interruption ends the worker here
WorkerWait(w) ==
    /\ pc[w] = "test" /\ q["todo"] = <<>>
    /\ mtx' = [mtx EXCEPT !["todo"] = "free"]
    /\ IF w \in intr
       THEN Goto(w, "exit") /\ UNCHANGED waiting
       ELSE waiting' = [waiting EXCEPT !["todo"] = @ \cup {w}] /\ Goto(w, "waiting")
    /\ UNCHANGED <<q, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

WorkerWake(w) ==
    /\ pc[w] = "waiting" /\ w \notin waiting["todo"] /\ mtx["todo"] = "free"
    /\ IF w \in intr
       THEN Goto(w, "exit") /\ UNCHANGED mtx
       ELSE mtx' = [mtx EXCEPT !["todo"] = w] /\
            Goto(w, IF Bug = "ifInsteadOfWhile" THEN "take" ELSE "test")
    /\ UNCHANGED <<q, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

WorkerTake(w) ==
    /\ \/ pc[w] = "test" /\ q["todo"] /= <<>>
       \/ pc[w] = "take"
    /\ cur' = [cur EXCEPT ![w] = IF q["todo"] = <<>> THEN 1 ELSE Head(q["todo"])]
    /\ q' = [q EXCEPT !["todo"] = IF @ = <<>> THEN @ ELSE Tail(@)]
    /\ mtx' = [mtx EXCEPT !["todo"] = "free"]
    /\ Goto(w, "perform")
    /\ UNCHANGED <<waiting, intr, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

WorkerBegin(w) ==
    /\ pc[w] = "perform"
    /\ st' = [st EXCEPT ![cur[w]] = "busy"]
    /\ Goto(w, "busy")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, stopping, spurious>>

WorkerEnd(w) ==
    /\ pc[w] = "busy"
    /\ st' = [st EXCEPT ![cur[w]] = "done"]
    /\ Goto(w, IF Bug = "doneBeforeResult" THEN "push" ELSE "store")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, stopping, spurious>>

WorkerFail(w) ==
    /\ pc[w] = "busy" /\ MayFail
    /\ st' = [st EXCEPT ![cur[w]] = "fail"]
    /\ failed' = failed \cup {cur[w]}
    /\ Goto(w, IF Bug = "noDoneOnFailure" THEN "point" ELSE "push")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, stopping, spurious>>

WorkerStore(w) ==
    /\ pc[w] = "store"
    /\ res' = [res EXCEPT ![IF Bug = "wrongSlot" THEN 1 ELSE cur[w]] = cur[w]]
    /\ Goto(w, IF Bug = "doneBeforeResult" THEN "point" ELSE "push")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, failed, st, stopping, spurious>>

WorkerPush(w) ==
    /\ pc[w] = "push" /\ mtx["done"] = "free"
    /\ q' = [q EXCEPT !["done"] = Append(@, cur[w])]
    /\ Goto(w, "notifyDone")
    /\ UNCHANGED <<mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

WorkerNotify(w) ==
    /\ pc[w] = "notifyDone"
    /\ Notify(w, "done")
    /\ Goto(w, IF Bug = "doneBeforeResult" /\ cur[w] \notin failed THEN "store" ELSE "point")
    /\ UNCHANGED <<q, mtx, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

\* explicit interruption point at the end of the loop
WorkerPoint(w) ==
    /\ pc[w] = "point"
    /\ cur' = [cur EXCEPT ![w] = 0]
    /\ Goto(w, IF w \in intr THEN "exit" ELSE "pop")
    /\ UNCHANGED <<q, mtx, waiting, intr, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

SpuriousWake(t, x) ==
    /\ spurious > 0 /\ t \in waiting[x]
    /\ waiting' = [waiting EXCEPT ![x] = @ \ {t}]
    /\ spurious' = spurious - 1
    /\ UNCHANGED <<pc, q, mtx, intr, cur, n, sub, got, batchNo, res, failed, st, stopping>>

\* ---- destruction: interrupt every worker, then join every worker ------------
CallDestroy ==
    /\ pc[Caller] = "idle"
    /\ Goto(Caller, "stopping")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

Interrupt(w) ==
    /\ pc[Caller] = "stopping" /\ w \notin stopping
    /\ stopping' = stopping \cup {w}
    /\ IF Bug = "stopSkipsOne" /\ Cardinality(stopping) = 0
       THEN UNCHANGED <<intr, waiting>>
       ELSE /\ intr' = intr \cup {w}
            /\ IF Bug = "lostInterrupt" THEN UNCHANGED waiting
               ELSE waiting' = [waiting EXCEPT !["todo"] = @ \ {w}]
    /\ UNCHANGED <<pc, q, mtx, cur, n, sub, got, batchNo, res, failed, st, spurious>>

Joined ==
    /\ pc[Caller] = "stopping" /\ stopping = Workers
    /\ Bug = "noJoin" \/ \A w \in Workers : pc[w] = "exit"
    /\ Goto(Caller, "closed")
    /\ UNCHANGED <<q, mtx, waiting, intr, cur, n, sub, got, batchNo, res, failed, st, stopping, spurious>>

WorkerStep(w) ==
    \/ WorkerLock(w) \/ WorkerWait(w) \/ WorkerWake(w) \/ WorkerTake(w)
    \/ WorkerBegin(w) \/ WorkerEnd(w) \/ WorkerFail(w) \/ WorkerStore(w)
    \/ WorkerPush(w) \/ WorkerNotify(w) \/ WorkerPoint(w)

CallerStep ==
    \/ Constructed \/ CallerPush \/ CallerNotify \/ Submitted \/ CallerLock
    \/ CallerWait \/ CallerPop \/ CallerWake \/ CallReturns \/ Joined
    \/ \E w \in Workers : StartWorker(w) \/ Interrupt(w)

Next ==
    \/ CallerStep
    \/ \E k \in 0..MaxTasks : CallDoTasks(k)
    \/ CallDestroy
    \/ \E w \in Workers : WorkerStep(w)
    \/ \E x \in Queues : \E t \in Threads : SpuriousWake(t, x)

\* Strong fairness because the mutex of a queue may be taken by others in between.
Fairness == SF_vars(CallerStep) /\ \A w \in Workers : SF_vars(WorkerStep(w))

Spec == Init /\ [][Next]_vars /\ Fairness

\* ---- properties -------------------------------------------------------------
Abs == INSTANCE PoolAbs WITH
    phase <- CASE pc[Caller] = "new" -> "none"
               [] pc[Caller] = "idle" -> "idle"
               [] pc[Caller] = "stopping" -> "closing"
               [] pc[Caller] = "closed" -> "closed"
               [] OTHER -> "batch",
    batch <- batchNo,
    st <- st

Refines == Abs!AbsSpec

ResultsInOrder ==       \* at the moment the call returns
    pc[Caller] = "collect" /\ got = n =>
        \A i \in 1..n : res[i] = IF i \in failed THEN 0 ELSE i

MutexOK == \A x \in Queues : mtx[x] \in Threads \cup {"free"}
NothingLeft == pc[Caller] \in {"idle", "closed"} => q = [x \in Queues |-> <<>>]
NoWorkerAfterDestroy == pc[Caller] = "closed" => \A w \in Workers : pc[w] = "exit"

BatchTerminates == pc[Caller] \in {"submit"} ~> pc[Caller] = "idle"
DestroyTerminates == pc[Caller] = "stopping" ~> pc[Caller] = "closed"
=============================================================================
