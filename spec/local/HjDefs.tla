------------------------------- MODULE HjDefs -------------------------------
(* The pattern search of Hooke and Jeeves as a machine that asks for one value    *)
(* after the other.  Its state s:                                                *)
(*   ph    "explore" or "done" (result s.c)     h   the step, the same for all i  *)
(*   b, c  the base and the best point found from it                             *)
(*   q     the point explored from, i, d the coordinate and direction next tested *)
(*   leap  exploring from a leap over c;  it  leaps that have paid                *)
(* The configuration r: n dimensions, step h, divider div, twice the acceleration *)
(* a2, precision p, limit.  known: the values of the points evaluated so far.     *)
EXTENDS Integers, Sequences
CONSTANT Bug
Start(r) == [ph |-> "explore", b |-> r.s, c |-> r.s, q |-> r.s, i |-> 1, d |-> 1, leap |-> FALSE, h |-> r.h, it |-> 0]
Aside(s) == [s.q EXCEPT ![s.i] = @ + s.d * s.h]
Needed(s, known) == IF s.q \notin DOMAIN known THEN s.q ELSE Aside(s)
\* exploring from p with what else is in s
From(s, p, leap) == [s EXCEPT !.q = p, !.i = 1, !.d = 1, !.leap = leap]
Leap(r, b, c) == [k \in DOMAIN b |-> IF Bug = "leapsBack" THEN b[k] - (r.a2 * (c[k] - b[k])) \div 2
                                     ELSE b[k] + (r.a2 * (c[k] - b[k])) \div 2]
Small(r, h) == r.n * h * h <= r.p * r.p
\* going on from base s.b
Again(r, s) == IF Small(r, s.h) THEN [s EXCEPT !.ph = "done"] ELSE From(s, s.b, FALSE)
\* the exploration has ended with s.q
Explored(r, s, known) ==
    IF ~s.leap
    THEN IF s.q = s.b THEN Again(r, [s EXCEPT !.c = s.b, !.h = IF Bug = "keepsStep" THEN @ ELSE @ \div r.div])
         ELSE From([s EXCEPT !.c = s.q], Leap(r, s.b, s.q), TRUE)
    ELSE IF known[s.c] < known[s.q] \/ (known[s.c] = known[s.q] /\ Bug # "acceptsEqual")
         THEN Again(r, IF Bug = "oldBase" THEN s ELSE [s EXCEPT !.b = s.c])
         ELSE LET t == [s EXCEPT !.b = s.c, !.c = s.q, !.it = @ + 1]
              IN IF (t.it = r.limit /\ Bug # "oneMore") \/ t.it = r.limit + 1 THEN [t EXCEPT !.ph = "done"] ELSE From(t, Leap(r, t.b, t.c), TRUE)
\* the next coordinate, or the end of the exploration
NextOne(r, s, known) == IF s.i < r.n THEN [s EXCEPT !.i = @ + 1, !.d = 1] ELSE Explored(r, s, known)
\* one decision, when the value needed is known
Decide(r, s, known) == IF known[Aside(s)] < known[s.q] THEN NextOne(r, [s EXCEPT !.q = Aside(s)], known)
                       ELSE IF s.d = 1 /\ Bug # "onlyForward" THEN [s EXCEPT !.d = 0 - 1] ELSE NextOne(r, s, known)
RECURSIVE Advance(_, _, _)
Advance(r, s, known) == IF s.ph = "done" \/ s.q \notin DOMAIN known \/ Aside(s) \notin DOMAIN known THEN s ELSE Advance(r, Decide(r, s, known), known)
=============================================================================
