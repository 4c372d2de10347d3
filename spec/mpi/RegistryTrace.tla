--------------------------- MODULE RegistryTrace ----------------------------
(* The registry of task/result kinds (property C26): a map from kinds to the  *)
(* copy taken at the last registration; unknown kinds are refused (v = -1).    *)
EXTENDS Integers, TraceLib
VARIABLES reg, l
Kinds == 1..4
Init == reg = [k \in Kinds |-> -1] /\ l = 1
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Next ==
    \/ Is("Group") /\ reg' = [k \in Kinds |-> -1]
    \/ Is("Register") /\ reg' = [reg EXCEPT ![Ev.k] = Ev.v]
    \/ Is("Get") /\ Ev.v = (IF Ev.k \in Kinds THEN reg[Ev.k] ELSE -1) /\ UNCHANGED reg
TSpec == Init /\ [][Next]_<<reg, l>>
=============================================================================
