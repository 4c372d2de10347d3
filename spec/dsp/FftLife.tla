------------------------------- MODULE FftLife -------------------------------
(* Threads that create, use and destroy fast Fourier transforms.  The planner of   *)
(* the underlying library must never be entered by two threads at once; executing   *)
(* a plan is free.  An object's buffers are its own.  A failing creation (size 0)     *)
(* must not keep the lock.                                                     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, MaxObjects, Bug
VARIABLES lock, planner, pc, made, buffer, got, zero
vars == <<lock, planner, pc, made, buffer, got, zero>>
\* one object at a time per thread; its buffers are named after the thread
Buf(t) == IF Bug = "sharedBuffers" THEN "all" ELSE t
Lock(t) == IF Bug = "ownLocks" THEN t ELSE "all"
Init == /\ lock = [k \in Threads \cup {"all"} |-> "free"] /\ planner = {} /\ pc = [t \in Threads |-> "idle"]
        /\ made = [t \in Threads |-> 0] /\ buffer = [k \in Threads \cup {"all"} |-> "none"] /\ got = [t \in Threads |-> "none"]
        /\ zero = [t \in Threads |-> FALSE]
Go(t, to) == pc' = [pc EXCEPT ![t] = to]
NewObject(t) == /\ pc[t] = "idle" /\ made[t] < MaxObjects /\ Go(t, "wantCreate") /\ made' = [made EXCEPT ![t] = @ + 1]
                /\ \E z \in BOOLEAN : zero' = [zero EXCEPT ![t] = z]
                /\ UNCHANGED <<lock, planner, buffer, got>>
Acquire(t, from, to) == /\ pc[t] = from /\ lock[Lock(t)] = "free" /\ lock' = [lock EXCEPT ![Lock(t)] = t] /\ Go(t, to)
                        /\ UNCHANGED <<planner, made, buffer, got, zero>>
Refuse(t) == /\ pc[t] = "create" /\ zero[t] /\ Go(t, "idle")
             /\ lock' = (IF Bug = "refusalKeepsLock" THEN lock ELSE [lock EXCEPT ![Lock(t)] = "free"])
             /\ UNCHANGED <<planner, made, buffer, got, zero>>
Enter(t, from, to) == /\ pc[t] = from /\ ~zero[t] /\ planner' = planner \cup {t} /\ Go(t, to) /\ UNCHANGED <<lock, made, buffer, got, zero>>
Leave(t, from, to) == /\ pc[t] = from /\ planner' = planner \ {t} /\ Go(t, to)
                      /\ lock' = (IF lock[Lock(t)] = t THEN [lock EXCEPT ![Lock(t)] = "free"] ELSE lock)
                      /\ UNCHANGED <<made, buffer, got, zero>>
Fill(t) == pc[t] = "ready" /\ buffer' = [buffer EXCEPT ![Buf(t)] = t] /\ Go(t, "filled") /\ UNCHANGED <<lock, planner, made, got, zero>>
Execute(t) == pc[t] = "filled" /\ got' = [got EXCEPT ![t] = buffer[Buf(t)]] /\ Go(t, "ready2") /\ UNCHANGED <<lock, planner, made, buffer, zero>>
Next == \E t \in Threads :
   \/ NewObject(t) \/ Acquire(t, "wantCreate", "create") \/ Refuse(t)
   \/ Enter(t, "create", "planning") \/ Leave(t, "planning", "ready")
   \/ Fill(t) \/ Execute(t)
   \/ (IF Bug = "noLockOnDestroy" THEN Enter(t, "ready2", "destroying")
       ELSE Acquire(t, "ready2", "destroy") \/ Enter(t, "destroy", "destroying"))
   \/ Leave(t, "destroying", "idle")
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Next)
OneInPlanner == Cardinality(planner) <= 1
OwnResult == \A t \in Threads : got[t] \in {"none", t}
NoneStuck == (~ENABLED Next) => \A t \in Threads : pc[t] = "idle" /\ made[t] = MaxObjects
=============================================================================
