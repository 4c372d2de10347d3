---------------------------- MODULE PatternSearch ----------------------------
(* The pattern search, evaluation by evaluation, against every function: values   *)
(* are chosen when a point is evaluated for the first time (the values of Vals    *)
(* inside the cube 0..Max, Top outside of it).                                   *)
EXTENDS HjDefs, FiniteSets, TLC
CONSTANTS Dim, Max, Vals, H0, Div, A2, Prec, Limit
VARIABLES r, s, known
vars == <<r, s, known>>
Cube == [1..Dim -> 0..Max]
Top == 9
Init == /\ \E p \in Cube : r = [n |-> Dim, s |-> p, h |-> H0, div |-> Div, a2 |-> A2, p |-> Prec, limit |-> Limit]
        /\ s = Start(r) /\ known = <<>>
Eval == /\ s.ph = "explore" /\ Needed(s, known) \notin DOMAIN known
        /\ \E w \in (IF Needed(s, known) \in Cube THEN Vals ELSE {Top}) :
             known' = known @@ (Needed(s, known) :> w)
        /\ UNCHANGED <<r, s>>
Decision == /\ s.ph = "explore" /\ Needed(s, known) \in DOMAIN known
            /\ s' = Decide(r, s, known) /\ UNCHANGED <<r, known>>
Next == Eval \/ Decision
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
F(p) == known[p]
Done == s.ph = "done"
Move(p, i, d) == [p EXCEPT ![i] = @ + d]
NotWorse == r.s \in DOMAIN known => (s.c \in DOMAIN known /\ F(s.c) <= F(r.s))
\* a point once left is never preferred again
Falls == [][s'.c # s.c => s'.c \in DOMAIN known' /\ known'[s'.c] < known'[s.c]]_vars
LimitKept == s.it <= r.limit /\ (s.it = r.limit => Done)
Stepped == (Done /\ s.it < r.limit) => Small(r, s.h)
LocalOptimum == (Done /\ s.it < r.limit /\ ~Small(r, r.h)) =>
    LET e == s.h * r.div IN
    \A i \in 1..Dim, d \in {e, 0 - e} : Move(s.c, i, d) \in DOMAIN known /\ F(Move(s.c, i, d)) >= F(s.c)
\* a leap goes on in the direction that paid
Onward == (s.leap /\ s.i = 1 /\ s.d = 1 /\ s.q \notin DOMAIN known) =>
    \A k \in 1..Dim : (s.q[k] - s.c[k]) * (s.c[k] - s.b[k]) >= 0
\* the base explored from is the best point known to the method
Based == ~s.leap => s.c = s.b
Terminates == <>Done
=============================================================================
