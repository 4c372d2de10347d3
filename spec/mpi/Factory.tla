------------------------------- MODULE Factory -------------------------------
(* The pool factory of a program built with MPI that runs with w workers on a     *)
(* machine of hw hardware threads (0: not known): one MPI pool per process, which *)
(* is the best pool as long as it can be made and has workers.                   *)
EXTENDS Naturals, Sequences
CONSTANT Bug
VARIABLES w, hw, made, got
fvars == <<w, hw, made, got>>
Kinds == {"mpi", "thread", "sequential"}
Can(kind) == kind # "mpi" \/ ~made
Valid(kind) == CASE kind = "mpi" -> w >= 1 [] kind = "thread" -> hw >= 2 [] kind = "sequential" -> TRUE [] OTHER -> FALSE
Best == IF Bug = "threadsFirst" /\ Valid("thread") THEN "thread"
        ELSE IF Can("mpi") /\ (Valid("mpi") \/ Bug = "unchecked") THEN "mpi" ELSE IF Valid("thread") THEN "thread" ELSE "sequential"
Program == w' \in 0..3 /\ hw' \in 0..3 /\ made' = FALSE /\ got' = <<>>
Create(kind) == /\ made' = (made \/ (kind = "mpi" /\ Bug # "forgets"))
                /\ got' = Append(got, IF Can(kind) THEN kind ELSE "refused") /\ UNCHANGED <<w, hw>>
\* trying the MPI pool uses it up, even if it has no workers
MakeBest == made' = (Bug # "forgets") /\ got' = Append(got, Best) /\ UNCHANGED <<w, hw>>
FInit == w \in 0..3 /\ hw \in 0..3 /\ made = FALSE /\ got = <<>>
FNext == Len(got) < 4 /\ (MakeBest \/ \E k \in Kinds : Create(k))
Spec == FInit /\ [][FNext]_fvars
OneMpi == \A i, j \in DOMAIN got : (got[i] = "mpi" /\ got[j] = "mpi") => i = j
\* a best pool can be used
BestValid == Valid(Best)
\* the first pool asked for is that of MPI, if there are workers
MpiFirst == (got = <<>> /\ w >= 1) => Best = "mpi"
=============================================================================
