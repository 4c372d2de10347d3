------------------------------ MODULE PoolAbs ------------------------------
(* What a user of a thread worker pool may observe (properties C01-C03).      *)
(* One pool, one caller.  A batch is a sequence of n tasks; each task is       *)
(* performed once by some worker, ends with its own result or fails, and the   *)
(* batch call comes back only when every task is over: with the results in     *)
(* submission order, or -- only if some task failed -- with an error.          *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES
    phase,   \* "none" -> "idle" <-> "batch", "idle" -> "closing" -> "closed"
    batch,   \* number of the current (or last) batch
    st       \* state of each task of the batch: "todo" "busy" "done" "fail"

absVars == <<phase, batch, st>>

NoResult == 0

AbsInit == phase = "none" /\ batch = 0 /\ st = <<>>

Create == phase = "none" /\ phase' = "idle" /\ UNCHANGED <<batch, st>>

DoTasks(n) ==
    /\ phase = "idle"
    /\ phase' = "batch"
    /\ batch' = batch + 1
    /\ st' = [i \in 1..n |-> "todo"]

Begin(i) ==
    /\ phase = "batch" /\ i \in DOMAIN st /\ st[i] = "todo"
    /\ st' = [st EXCEPT ![i] = "busy"]
    /\ UNCHANGED <<phase, batch>>

End(i) ==
    /\ phase = "batch" /\ i \in DOMAIN st /\ st[i] = "busy"
    /\ st' = [st EXCEPT ![i] = "done"]
    /\ UNCHANGED <<phase, batch>>

Fail(i) ==
    /\ phase = "batch" /\ i \in DOMAIN st /\ st[i] = "busy"
    /\ st' = [st EXCEPT ![i] = "fail"]
    /\ UNCHANGED <<phase, batch>>

AllOver == \A i \in DOMAIN st : st[i] \in {"done", "fail"}

\* The results a completed batch must have: the identity of the result object of
\* task i in position i, nothing where the task failed.
Results(Id(_)) == [i \in DOMAIN st |-> IF st[i] = "done" THEN Id(i) ELSE NoResult]

Return ==
    /\ phase = "batch" /\ AllOver
    /\ phase' = "idle" /\ UNCHANGED <<batch, st>>

Raise ==
    /\ phase = "batch" /\ AllOver /\ \E i \in DOMAIN st : st[i] = "fail"
    /\ phase' = "idle" /\ UNCHANGED <<batch, st>>

Destroy == phase = "idle" /\ phase' = "closing" /\ UNCHANGED <<batch, st>>

Destroyed == phase = "closing" /\ phase' = "closed" /\ UNCHANGED <<batch, st>>

CONSTANTS MaxBatch, MaxTasks

AbsNext ==
    \/ Create \/ Return \/ Raise \/ Destroy \/ Destroyed
    \/ batch < MaxBatch /\ \E n \in 0..MaxTasks : DoTasks(n)
    \/ \E i \in 1..MaxTasks : Begin(i) \/ End(i) \/ Fail(i)

AbsSpec == AbsInit /\ [][AbsNext]_absVars
=============================================================================
