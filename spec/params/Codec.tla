------------------------------- MODULE Codec --------------------------------
(* Chromosome encoding of bounded parameters (properties C14, C15).            *)
(*                                                                             *)
(* An integer parameter over Min..Max is encoded as the binary digits of       *)
(* value - Min, lowest first, in BitLen(Max - Min) genes.  A real parameter    *)
(* over [Min, Max] with precision P is encoded through the grid of 2^k points  *)
(* Min + i*(Max-Min)/2^k, 0 <= i < 2^k, k the least number of bits whose step  *)
(* does not exceed P.  Reals are represented here by integers: everything is   *)
(* scaled so that the grid points and the values explored are integers.        *)
(* A composite concatenates the slices of its components.                      *)
(* Bug selects deliberately wrong variants (negative controls).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxSpan,      \* integer ranges Min..Min+s, 0 <= s <= MaxSpan
          Mins0,        \* lower ends, plus 4 (configuration files have no negative numbers)
          Spans,        \* real ranges: Max - Min, in value units
          Precs,        \* requested precisions, in value units
          Fine,         \* grid steps are resolved into this many sub-units
          Bug

Mins == {m - 4 : m \in Mins0}

RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Num(_)
Num(b) == IF b = <<>> THEN 0 ELSE Head(b) + 2 * Num(Tail(b))
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE <<n % 2>> \o Digits(n \div 2, k - 1)
Strings(k) == [1..k -> {0, 1}]

\* ---- integers
IntBits(s) == IF Bug = "fewBits" THEN BitLen(IF s = 0 THEN 0 ELSE s - 1) ELSE BitLen(s)
EncInt(v, min, s) == Digits(v - min, IntBits(s))
DecInt(b, min) == min + Num(b)

IntOK(min, s) ==
    /\ \A v \in min..(min + s) : DecInt(EncInt(v, min, s), min) = v
    /\ \A v \in min..(min + s) : Len(EncInt(v, min, s)) = IntBits(s)
    /\ \A b \in Strings(IntBits(s)) :
          LET v == DecInt(b, min) IN
          v \in min..(min + s) => EncInt(v, min, s) = b
    /\ \A b, d \in Strings(IntBits(s)) : DecInt(b, min) = DecInt(d, min) => b = d

\* ---- reals.  Sub-units: one grid step = Fine * span' ... see Real
CeilDiv(a, b) == (a + b - 1) \div b
GridBits(span, prec) == LET n == CeilDiv(span, prec)
                        IN  CHOOSE k \in 0..20 : Pow2(k) >= n /\ (k = 0 \/ Pow2(k - 1) < n)
\* positions are measured in 1/Fine of a grid step: 0 .. Fine * 2^k
Quantise(p, k) ==
    LET q == IF Bug = "truncate" THEN p \div Fine
             ELSE (2 * p + Fine) \div (2 * Fine)
    IN  IF Bug = "noClamp" THEN q ELSE IF q >= Pow2(k) THEN Pow2(k) - 1 ELSE q
EncReal(p, k) == Digits(Quantise(p, k), k)
DecReal(b) == Fine * Num(b)
Abs(x) == IF x < 0 THEN -x ELSE x
RealOK(span, prec) ==
    LET k == GridBits(span, prec) IN
    /\ span <= prec * Pow2(k)                          \* the step is fine enough
    /\ \A p \in 0..(Fine * Pow2(k)) :                  \* both ends included
          Abs(DecReal(EncReal(p, k)) - p) <= Fine      \* within one step
    /\ \A b \in Strings(k) :
          /\ DecReal(b) \in 0..(Fine * Pow2(k))        \* every chromosome is valid
          /\ EncReal(DecReal(b), k) = b
          \* rounding noise of less than half a step does not change the gene string
          /\ \A e \in {-1, 1} : 3 * 1 < Fine /\ DecReal(b) + e \in 0..(Fine * Pow2(k))
                => EncReal(DecReal(b) + e, k) = b
    /\ \A b, d \in Strings(k) : DecReal(b) = DecReal(d) => b = d

\* ---- composites: two integer components
CompOK(min, s, min2, s2) ==
    \A v \in min..(min + s), w \in min2..(min2 + s2) :
        LET a == EncInt(v, min, s)
            b == EncInt(w, min2, s2)
            c == IF Bug = "overlap" /\ Len(a) > 0 THEN SubSeq(a, 1, Len(a) - 1) \o b ELSE a \o b
        IN  /\ Len(c) = IntBits(s) + IntBits(s2)
            /\ DecInt(SubSeq(c, 1, IntBits(s)), min) = v
            /\ DecInt(SubSeq(c, IntBits(s) + 1, Len(c)), min2) = w

VARIABLES case
Cases == {<<"int", m, s, 0, 0>> : m \in Mins, s \in 0..MaxSpan}
    \cup {<<"real", sp, pr, 0, 0>> : sp \in Spans, pr \in Precs}
    \cup {<<"comp", m, s, m2, s2>> : m \in Mins, s \in 0..(MaxSpan \div 3), m2 \in Mins, s2 \in 0..(MaxSpan \div 3)}
Init == case \in Cases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case
Sound == CASE case[1] = "int"  -> IntOK(case[2], case[3])
           [] case[1] = "real" -> RealOK(case[2], case[3])
           [] OTHER -> CompOK(case[2], case[3], case[4], case[5])
=============================================================================
