--------------------------- MODULE SelectionTrace ---------------------------
(* One population (fitness values fits, pairwise different chromosomes of l     *)
(* genes) bred from many times; Bred: what the observer was told about it,      *)
(* alike: for each pair of children whether they are equal (exactly when their   *)
(* parents are one individual), cuts: points of exchange, in populations of the  *)
(* two chromosomes 0..0 and 1..1 (0: whole chromosomes exchanged).               *)
(* Fresh, Born: populations of n drawn at random among the valid chromosomes of   *)
(* l genes (codes: binary numbers), inv those rejected meanwhile.                *)
EXTENDS SelectDefs, TraceLib
VARIABLES w, cnt, draws, pairs, same, cuts, inv, l
vars == <<w, cnt, draws, pairs, same, cuts, inv, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
None == [x \in {} |-> 0]
Init == w = None /\ cnt = None /\ draws = 0 /\ pairs = 0 /\ same = 0 /\ cuts = None /\ inv = 0 /\ l = 1
Wheel == /\ Is("Wheel")
         /\ w' = Ev /\ cnt' = [x \in Members(Ev.fits) |-> 0] /\ cuts' = [k \in 0..(Ev.l - 1) |-> 0]
         /\ draws' = 0 /\ pairs' = 0 /\ same' = 0 /\ inv' = 0
RECURSIVE TimesDrawn(_, _)
TimesDrawn(s, x) == IF s = <<>> THEN 0 ELSE (IF Head(s)[1] = x THEN Head(s)[2] ELSE 0) + TimesDrawn(Tail(s), x)
Bred == /\ Is("Bred")
        /\ StatsTell(Ev.stats, w.fits, Len(w.fits) \div 2) = TRUE
        /\ Len(Ev.alike) = Len(w.fits) \div 2
        /\ cnt' = [x \in DOMAIN cnt |-> cnt[x] + TimesDrawn(Ev.stats, x)]
        /\ draws' = draws + Len(w.fits)
        /\ pairs' = pairs + Len(Ev.alike)
        /\ same' = same + Cardinality({i \in DOMAIN Ev.alike : Ev.alike[i] = 1})
        /\ cuts' = [k \in DOMAIN cuts |-> cuts[k] + Times(Ev.cuts, k)]
        /\ UNCHANGED <<w, inv>>
RECURSIVE Squares(_)
Squares(s) == IF s = <<>> THEN 0 ELSE Head(s) * Head(s) + Squares(Tail(s))
Judge ==
    /\ Is("Judge")
    /\ LET T == Total(w.fits) IN
       \* each in the share of its fitness (equal ones together)
       /\ (\A x \in DOMAIN cnt : Plausible(cnt[x], draws, x * Times(w.fits, x), T)) = TRUE
       \* the second parent drawn independently of the first
       /\ Plausible(same, pairs, Squares(w.fits), T * T)
       \* every position as likely to be the point of exchange
       /\ (w.ends => \A k \in DOMAIN cuts : Plausible(cuts[k], Total([j \in 1..w.l |-> cuts[j - 1]]), 1, w.l)) = TRUE
    /\ UNCHANGED <<w, cnt, draws, pairs, same, cuts, inv>>
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Fresh == /\ Is("Fresh")
         /\ w' = Ev /\ cnt' = [x \in Members(Ev.valid) |-> 0] /\ cuts' = None
         /\ draws' = 0 /\ pairs' = 0 /\ same' = 0 /\ inv' = 0
Born == /\ Is("Born")
        /\ Len(Ev.codes) = w.n /\ Members(Ev.codes) \subseteq DOMAIN cnt /\ Ev.inv >= 0
        /\ cnt' = [x \in DOMAIN cnt |-> cnt[x] + Times(Ev.codes, x)]
        /\ draws' = draws + w.n /\ inv' = inv + Ev.inv
        /\ pairs' = pairs + 1 /\ same' = same + IF Ev.codes[1] = Ev.codes[w.n] THEN 1 ELSE 0
        /\ UNCHANGED <<w, cuts>>
JudgeBorn ==
    /\ Is("JudgeBorn")
    /\ LET k == Cardinality(DOMAIN cnt) IN
       \* every valid chromosome is as likely, whatever the others
       /\ (\A x \in DOMAIN cnt : Plausible(cnt[x], draws, 1, k)) = TRUE
       /\ Plausible(same, pairs, 1, k)
       \* as many rejected as there have to be
       /\ Plausible(draws, draws + inv, k, Pow2(w.l))
    /\ UNCHANGED <<w, cnt, draws, pairs, same, cuts, inv>>
Next == Wheel \/ Bred \/ Judge \/ Fresh \/ Born \/ JudgeBorn
TSpec == Init /\ [][Next]_vars
=============================================================================
