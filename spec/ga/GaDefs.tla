------------------------------- MODULE GaDefs -------------------------------
(* Notions shared by the design of the genetic algorithm (Ga) and by the       *)
(* trace specification of recorded runs (GaTrace).  A chromosome is a sequence *)
(* of genes (in traces: a string of 0 and 1); a population is a sequence of    *)
(* chromosomes; fit maps chromosomes to fitness values.                        *)
EXTENDS Integers, Sequences, FiniteSets

Members(s) == {s[i] : i \in DOMAIN s}
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Members(s) \cup Members(t) : Times(s, x) = Times(t, x)
RECURSIVE SumOver(_, _)
SumOver(fit, s) == IF s = <<>> THEN 0 ELSE fit[Head(s)] + SumOver(fit, Tail(s))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a < b THEN a ELSE b

(* c, d arise from p, q by exchanging the tails after position k *)
Cut(p, q, k) == SubSeq(p, 1, k) \o SubSeq(q, k + 1, Len(q))
IsExchange(c, d, p, q) ==
    /\ Len(p) = Len(q) /\ Len(c) = Len(p) /\ Len(d) = Len(p)
    /\ \E k \in 0..Len(p) : c = Cut(p, q, k) /\ d = Cut(q, p, k)
PairsFromParents(pre, prev) ==
    \A i \in 1..(Len(pre) \div 2) :
        \E p, q \in Members(prev) : IsExchange(pre[2 * i - 1], pre[2 * i], p, q)

(* the best k of prev (any choice among equals) are all present in pre *)
ElitePresent(pre, prev, fit, k) ==
    LET n == Min2(k, Len(prev))
        Rank(x) == Cardinality({i \in DOMAIN prev : fit[prev[i]] > fit[x]})
        Surely == {x \in Members(prev) :        \* all copies of x are among the best n
                     Cardinality({i \in DOMAIN prev : fit[prev[i]] >= fit[x]}) <= n}
        Maybe == {x \in Members(prev) : Rank(x) < n} \ Surely
        Above == Cardinality({i \in DOMAIN prev : prev[i] \in Surely})
        Kept[S \in SUBSET Maybe] ==
            IF S = {} THEN 0
            ELSE LET x == CHOOSE x \in S : TRUE
                 IN  Min2(Times(pre, x), Times(prev, x)) + Kept[S \ {x}]
    IN  /\ \A x \in Surely : Times(pre, x) >= Times(prev, x)
        /\ Kept[Maybe] >= n - Above

Stopped(g, max, best, crit) == g = max - 1 \/ best >= crit
=============================================================================
