---------------------------- MODULE FactoryTrace ----------------------------
(* Histories of the real factory.  Whether the MPI pool is used up by an attempt  *)
(* to make it without workers is left open.                                      *)
EXTENDS Factory, TraceLib
VARIABLE l
vars == <<w, hw, made, got, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Start == Is("Program") /\ w' = Ev.w /\ hw' = Ev.hw /\ made' = FALSE /\ got' = <<>>
Sure == w >= 1 \/ ~made
Ask == Is("Can") /\ ((Sure \/ Ev.kind # "mpi") => Ev.v = Can(Ev.kind)) /\ UNCHANGED fvars
Made == /\ Is("Create") /\ Create(Ev.kind)
        /\ ((Sure \/ Ev.kind # "mpi") => Ev.got = got'[Len(got')])
        /\ Ev.valid = Valid(Ev.got) /\ Ev.works = Ev.valid
BestMade == Is("Best") /\ MakeBest /\ Ev.got = got'[Len(got')] /\ Ev.valid /\ Ev.works
TInit == w = 0 /\ hw = 0 /\ made = FALSE /\ got = <<>> /\ l = 1
TSpec == TInit /\ [][Start \/ Ask \/ Made \/ BestMade]_vars
=============================================================================
