------------------------------- MODULE NmTrace -------------------------------
(* Runs of the real simplex method in one dimension, where every coordinate is   *)
(* exact (in units of 1/65536): each evaluation must be the move the method's    *)
(* state asks for, the run must end when the method ends and return the best.    *)
EXTENDS NmDefs, FiniteSets, TraceLib
VARIABLES run, x, v, rp, rv, phase, past, iter, l
vars == <<run, x, v, rp, rv, phase, past, iter, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
None == [l |-> 0, lo |-> 0, hi |-> 0, prec |-> 0]
Init == run = None /\ x = <<>> /\ v = <<>> /\ rp = 0 /\ rv = 0 /\ phase = "none" /\ past = <<>> /\ iter = 0 /\ l = 1
Run == /\ Is("Run") /\ phase = "none"
       /\ run' = Ev /\ x' = <<>> /\ v' = <<>> /\ phase' = "simplex" /\ past' = <<>> /\ iter' = 0
       /\ UNCHANGED <<rp, rv>>
Simplex == /\ Is("Eval") /\ phase = "simplex"
           /\ LET first == run.start IN
              IF x = <<>> THEN x' = <<Ev.x>> /\ v' = <<Ev.v>> /\ Ev.x \in {first, first + run.l} /\ phase' = "simplex"
              ELSE /\ {x[1], Ev.x} = {first, first + run.l}
                   /\ IF x[1] = first THEN x' = <<x[1], Ev.x>> /\ v' = <<v[1], Ev.v>> ELSE x' = <<Ev.x, x[1]>> /\ v' = <<Ev.v, v[1]>>
                   /\ phase' = "iterate"
           /\ UNCHANGED <<run, rp, rv, past, iter>>
Keep(n) == IF Len(past) >= 10 THEN Append(SubSeq(past, 2, Len(past)), n) ELSE Append(past, n)
\* the end of an iteration with the new simplex
Done(nx, nv) == /\ x' = nx /\ v' = nv /\ past' = Keep(nx) /\ iter' = iter + 1
                /\ phase' = IF iter + 1 > 1000 \/ nx \in Range(past) \/ Spread(nv) <= run.prec THEN "ended" ELSE "iterate"
                /\ UNCHANGED <<run>>
R == Reflected(x, v, run.lo, run.hi)
Worst == IF rv < v[Hi(v)] THEN <<rp, rv>> ELSE <<x[Hi(v)], v[Hi(v)]>>
Mid == (x[Lo(v)] + Worst[1]) \div 2
Iterate == /\ Is("Eval") /\ phase = "iterate" /\ Ev.x = R
           /\ rp' = Ev.x /\ rv' = Ev.v
           /\ LET h == Hi(v) IN
              CASE Ev.v < v[Lo(v)] -> phase' = "expand" /\ UNCHANGED <<run, x, v, past, iter>>
                [] Ev.v = v[Lo(v)] -> Done(Put(x, h, Ev.x), Put(v, h, Ev.v))
                [] OTHER -> phase' = "contract" /\ UNCHANGED <<run, x, v, past, iter>>
Expand == /\ Is("Eval") /\ phase = "expand" /\ Ev.x = Expanded(x, v, rp, run.lo, run.hi)
          /\ LET h == Hi(v) IN
             IF Ev.v < rv THEN Done(Put(x, h, Ev.x), Put(v, h, Ev.v)) ELSE Done(Put(x, h, rp), Put(v, h, rv))
          /\ UNCHANGED <<rp, rv>>
Contract == /\ Is("Eval") /\ phase = "contract" /\ Ev.x = Mid
            \* (a reduction moves the worst vertex to the same point)
            /\ Done(Put(x, Hi(v), Ev.x), Put(v, Hi(v), Ev.v))
            /\ UNCHANGED <<rp, rv>>
\* evaluating a vertex again changes nothing
Again == /\ Is("Eval") /\ phase \in {"iterate", "expand", "contract", "ended"}
         /\ \E i \in 1..2 : Ev.x = x[i] /\ Ev.v = v[i]
         /\ UNCHANGED <<run, x, v, rp, rv, phase, past, iter>>
Result == /\ Is("Result")
          /\ phase = "ended"
          /\ \E i \in 1..2 : Ev.x = x[i] /\ v[i] <= v[3 - i]
          /\ phase' = "none" /\ UNCHANGED <<run, x, v, rp, rv, past, iter>>
Next == Run \/ Simplex \/ Iterate \/ Expand \/ Contract \/ Again \/ Result
TSpec == Init /\ [][Next]_vars
=============================================================================
