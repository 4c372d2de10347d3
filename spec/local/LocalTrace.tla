------------------------------ MODULE LocalTrace ------------------------------
(* Summaries of runs of the real local optimisers on integer-valued functions     *)
(* (seen as minimized: maximizing runs are given the negated function).          *)
(*  Hooke   n dimensions, first step h0 and precision p in units of 1/64; step     *)
(*          the last step tried, nb the values one such step away along the axes   *)
(*  Nelder  inside: the first simplex is inside the bounds; outside: evaluations   *)
(*          outside them; best/first: least value seen / in the first simplex      *)
(*  Run     bad: evaluations where the constraints fail; refused: a check of the    *)
(*          constraints failed; valid: the parameters handed back satisfy them;     *)
(*          path: the evaluations made; twin: of maximizing the negated function;   *)
(*          fresh: of the same run on a fresh object                              *)
(*  Foreign parameters (or a function) of another kind: refused, or not           *)
(*  budget  the harness broke the run off (an exception from the function)        *)
EXTENDS Integers, TraceLib
CONSTANT Checks
VARIABLES l
vars == <<l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == l = 1
On(c, cond) == c \notin Checks \/ cond
RECURSIVE LastStep(_, _, _)
LastStep(h, n, p) == IF h * h * n <= 4 * p * p THEN h ELSE LastStep(h \div 2, n, p)
Hooke == /\ Is("Hooke")
         /\ On("C18", /\ Ev.ok /\ Ev.seen
                      /\ Ev.val <= Ev.start
                      /\ Ev.step = LastStep(Ev.h0, Ev.n, Ev.p)
                      /\ Len(Ev.nb) = 2 * Ev.n
                      /\ (~Ev.limited /\ Ev.h0 * Ev.h0 * Ev.n > Ev.p * Ev.p) => \A i \in DOMAIN Ev.nb : Ev.nb[i] >= Ev.val
                      /\ Ev.at = Ev.fresh)
Nelder == /\ Is("Nelder")
          /\ On("C19", /\ Ev.ok /\ Ev.seen /\ Ev.dim = Ev.n /\ Ev.regular
                       /\ Ev.val = Ev.best /\ Ev.val <= Ev.first
                       /\ Ev.inside => Ev.outside = 0
                       /\ Ev.at = Ev.fresh)
Run == /\ Is("Run")
       /\ On("C28", /\ Ev.bad = 0
                    /\ Ev.refused => ~Ev.ok
                    /\ Ev.ok => Ev.valid
                    /\ Ev.path = Ev.twin /\ Ev.ok = Ev.twinok /\ Ev.at = Ev.twinat
                    /\ Ev.path = Ev.fresh /\ Ev.ok = Ev.freshok /\ Ev.at = Ev.freshat)
       /\ On("C34", (Ev.opt = "annealing") => (Ev.walk /\ Ev.best /\ (Ev.ok => Ev.seen) /\ (Ev.refused \/ Ev.budget \/ Ev.ok)))
Foreign == Is("Foreign") /\ On("C28", Ev.parameters /\ Ev.function /\ Ev.direct /\ Ev.untouched /\ Ev.evals = 0)
\* many annealing runs from a start better by a fixed amount than every other point:
\* how often they left it, and what the exponential rule expects
Leave == /\ Is("Leave")
         /\ On("C34", /\ Ev.left - Ev.expect <= 6 * Ev.sigma + 1 /\ Ev.expect - Ev.left <= 6 * Ev.sigma + 1
                      /\ Ev.changed = Ev.n)
\* walks that can never leave their start: one neighbour, differing in one place, per iteration
\* (one that happens to be the start itself has a chance of 2^-31)
Long == /\ Is("Long")
        /\ On("C34", Ev.ok /\ Ev.stayed /\ Ev.strange = 0 /\ Ev.tried \in {Ev.iters - 1, Ev.iters})
Budget == Is("Budget")
Next == Hooke \/ Nelder \/ Run \/ Foreign \/ Leave \/ Long \/ Budget
TSpec == Init /\ [][Next]_vars
=============================================================================
