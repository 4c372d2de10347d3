------------------------------- MODULE Chain -------------------------------
(* The chain of asynchronous calls as implemented: a queue, the current        *)
(* request and a latch remembering that it was seen finished (a request must   *)
(* not be tested again after that).                                            *)
EXTENDS Naturals, Sequences
CONSTANTS MaxCalls, Bug
VARIABLES queue, added, req, seen, over, made, overlap
vars == <<queue, added, req, seen, over, made, overlap>>
\* req: 0 no request; k request of call k.  over: the environment finished it.
Init == queue = <<1>> /\ added = 1 /\ req = 0 /\ seen = FALSE /\ over = FALSE
        /\ made = <<>> /\ overlap = FALSE 
Add == added < MaxCalls /\ added' = added + 1 /\ queue' = Append(queue, added + 1)
       /\ UNCHANGED <<req, seen, over, made, overlap>>
Done == seen \/ req = 0 \/ over
Test == /\ seen' = (seen \/ (Done))
        /\ UNCHANGED <<queue, added, req, over, made, overlap>>
Call(real) ==
    /\ queue /= <<>> /\ (Done \/ Bug = "noGuard")
    /\ overlap' = (overlap \/ ~Done)
    /\ made' = Append(made, Head(queue)) /\ queue' = Tail(queue)
    /\ req' = (IF real THEN Head(queue) ELSE 0) /\ over' = FALSE
    /\ seen' = (Bug = "keepLatch" /\ seen)
    /\ UNCHANGED added
Finish == req /= 0 /\ ~over /\ over' = TRUE /\ UNCHANGED <<queue, added, req, seen, made, overlap>>
Next == Add \/ Test \/ Call(TRUE) \/ Call(FALSE) \/ Finish
Spec == Init /\ [][Next]_vars
InOrderOnce == \A k \in DOMAIN made : made[k] = k
NoOverlap == ~overlap
LatchSound == seen => (req = 0 \/ over)
=============================================================================
