----------------------------- MODULE GuardTrace -----------------------------
(* Two-state guards (C16): objects that are unusable before their only          *)
(* initialisation.  Kinds: K the guard itself, Z the once-settable chromosome   *)
(* size, G an individual of the genetic algorithm.  v is what the object was    *)
(* initialised with ("" before).                                               *)
EXTENDS Integers, TraceLib
VARIABLES st, l
vars == <<st, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == st = [i \in {} |-> ""] /\ l = 1
New == Is("New") /\ st' = (Ev.id :> "") @@ st
\* initialisation: performed exactly the first time
Set == Is("Set") /\ Ev.ok = (st[Ev.id] = "")
       /\ st' = [st EXCEPT ![Ev.id] = IF Ev.ok THEN Ev.v ELSE @]
\* use: refused before initialisation; afterwards it sees what was set
Use == Is("Use") /\ Ev.ok = (st[Ev.id] # "")
       /\ (Ev.ok => Ev.v = st[Ev.id]) /\ UNCHANGED st
\* use together with a second object: both must be ready
Use2 == Is("Use2") /\ Ev.ok = (st[Ev.id] # "" /\ st[Ev.other] # "") /\ UNCHANGED st
\* a permitted change of what the object holds
Mod == Is("Mod") /\ st[Ev.id] # "" /\ st' = [st EXCEPT ![Ev.id] = Ev.v]
Copy == Is("Copy") /\ st' = (Ev.new :> st[Ev.id]) @@ st
Reset == Is("Reset") /\ st' = [i \in {} |-> ""]
Next == New \/ Set \/ Use \/ Use2 \/ Copy \/ Mod \/ Reset
TSpec == Init /\ [][Next]_vars
=============================================================================
