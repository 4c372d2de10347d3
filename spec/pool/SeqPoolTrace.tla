--------------------------- MODULE SeqPoolTrace ----------------------------
(* The sequential pool and the pool factory (property C04).  The sequential   *)
(* pool performs the tasks of a batch in order in the caller; the first        *)
(* failing task ends the batch and its exception reaches the caller; the       *)
(* statistics of its single worker count the tasks completed so far.           *)
EXTENDS TraceLib

VARIABLES phase,    \* "none", "idle", "batch", "raising"
          batch, n, next, busy, counted,
          kind,     \* "seq": sequential pool, "any": whatever the factory picked
          st,       \* for kind "any": state of each task
          l
vars == <<phase, batch, n, next, busy, counted, kind, st, l>>

Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1

Init == /\ phase = "none" /\ batch = 0 /\ n = 0 /\ next = 1 /\ busy = FALSE
        /\ counted = 0 /\ kind = "seq" /\ st = <<>> /\ l = 1

New == /\ Is("New") /\ phase \in {"none", "idle"}
       /\ Ev.valid              \* whatever the factory hands out is valid
       /\ kind' = Ev.kind
       /\ phase' = "idle" /\ batch' = 0 /\ n' = 0 /\ next' = 1 /\ busy' = FALSE
       /\ counted' = 0 /\ st' = <<>>

DoTasks == /\ Is("DoTasks") /\ phase = "idle"
           /\ batch' = batch + 1 /\ batch' = Ev.b /\ n' = Ev.n
           /\ next' = 1 /\ phase' = "batch" /\ busy' = FALSE
           /\ st' = [i \in 1..Ev.n |-> "todo"]
           /\ UNCHANGED <<counted, kind>>

Pos == Ev.t - 10000 * batch

Begin == /\ Is("Begin") /\ phase = "batch" /\ Pos \in DOMAIN st /\ st[Pos] = "todo"
         /\ kind = "seq" => Pos = next /\ ~busy
         /\ busy' = TRUE /\ st' = [st EXCEPT ![Pos] = "busy"]
         /\ UNCHANGED <<phase, batch, n, next, counted, kind>>

End == /\ Is("End") /\ phase = "batch" /\ Pos \in DOMAIN st /\ st[Pos] = "busy"
       /\ busy' = FALSE /\ next' = next + 1 /\ counted' = counted + 1
       /\ st' = [st EXCEPT ![Pos] = "done"]
       /\ UNCHANGED <<phase, batch, n, kind>>

Fail == /\ Is("Fail") /\ phase = "batch" /\ Pos \in DOMAIN st /\ st[Pos] = "busy"
        /\ busy' = FALSE /\ phase' = "raising" /\ st' = [st EXCEPT ![Pos] = "fail"]
        /\ UNCHANGED <<batch, n, next, counted, kind>>

\* the very exception of the failing task reaches the caller of a sequential pool
Raise == /\ Is("Raise") /\ phase = "raising" /\ phase' = "idle"
         /\ kind = "seq" => Ev.what = "boom"
         /\ UNCHANGED <<batch, n, next, busy, counted, kind, st>>

Return == /\ Is("Return") /\ phase = "batch" /\ \A i \in DOMAIN st : st[i] = "done"
          /\ Ev.res = [i \in 1..n |-> 10000 * batch + i]
          /\ phase' = "idle"
          /\ UNCHANGED <<batch, n, next, busy, counted, kind, st>>

Statistics == /\ Is("Statistics") /\ phase = "idle" /\ kind = "seq"
              /\ Ev.counted = <<counted>>
              /\ UNCHANGED <<phase, batch, n, next, busy, counted, kind, st>>

Stats == Is("Stats") /\ UNCHANGED <<phase, batch, n, next, busy, counted, kind, st>>

Next == New \/ DoTasks \/ Begin \/ End \/ Fail \/ Raise \/ Return \/ Statistics \/ Stats
TSpec == Init /\ [][Next]_vars
=============================================================================
