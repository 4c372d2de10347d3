----------------------------- MODULE PoolTrace -----------------------------
(* Validates recorded executions of the real thread pool, one after another,  *)
(* against PoolAbs.  Every line of the trace must be explained by the          *)
(* corresponding action; "Stuck" (deadlock, no progress) never can be.         *)
EXTENDS PoolAbs, TraceLib

VARIABLE l
tvars == <<phase, batch, st, l>>

Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Local(t) == t - 10000 * batch          \* task identities are 10000 * batch + position

TInit == AbsInit /\ l = 1

\* a new execution starts only where the previous one is complete
TCreate  == /\ Is("Create") /\ Ev.valid /\ phase \in {"none", "closed"}
            /\ phase' = "idle" /\ batch' = 0 /\ st' = <<>>
TDoTasks == Is("DoTasks") /\ DoTasks(Ev.n) /\ batch' = Ev.b
TBegin   == Is("Begin") /\ Begin(Local(Ev.t))
TEnd     == Is("End") /\ End(Local(Ev.t))
TFail    == Is("Fail") /\ Fail(Local(Ev.t))
TReturn  == /\ Is("Return") /\ Return
            /\ Ev.res = Results(LAMBDA i : 10000 * batch + i)
TRaise   == Is("Raise") /\ Raise
\* a batch recorded by counting: every task performed exactly once, and either an
\* error, only if some task failed, or the results of all tasks at their positions
THuge    == /\ Is("Huge") /\ phase = "idle" /\ batch' = Ev.b /\ Ev.b = batch + 1
            /\ Ev.once = Ev.n
            /\ IF Ev.raised THEN Ev.failing > 0 ELSE Ev.size = Ev.n /\ Ev.right = Ev.n
            /\ UNCHANGED <<phase, st>>
TDestroy == Is("Destroy") /\ Destroy
TDestroyed == Is("Destroyed") /\ Destroyed /\ Ev.alive = 0
TStats   == Is("Stats") /\ phase = "closed" /\ UNCHANGED absVars

TNext == \/ TCreate \/ TDoTasks \/ TBegin \/ TEnd \/ TFail \/ TReturn \/ TRaise \/ THuge
         \/ TDestroy \/ TDestroyed \/ TStats

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
