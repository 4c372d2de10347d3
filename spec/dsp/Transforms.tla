------------------------------ MODULE Transforms ------------------------------
(* Circular convolution and the discrete Fourier transform, as the code computes   *)
(* them (index arithmetic, conjugation, division), against their defining sums and   *)
(* the laws that tie them together, for all small integer signals.  The transforms    *)
(* of length 1, 2 and 4 are exact: the powers of the root are 1, -i, -1, i.           *)
EXTENDS Cyclic, TLC
CONSTANTS Size, Values, Imag, Bug
VARIABLES a, b, done
vars == <<a, b, done>>
Signals == [1..Size -> Values \X Imag]
Init == a \in Signals /\ b \in Signals /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_vars
\* the double loop of the code, from its own indices (0-based)
Element(s, i) == s[i + 1]
CodeConv(x, y) == [k \in 1..Size |->
    LET n == k - 1
        T(m) == CMul(Element(x, m), CASE Bug = "correlation" -> X(y, n + m)
                                       [] m <= n -> Element(y, n - m)
                                       [] Bug = "wrapsShort" -> Element(y, Size + n - m - (IF Size + n - m > 1 THEN 1 ELSE 0))
                                       [] OTHER -> Element(y, Size + n - m))
    IN  CSum(T, IF Bug = "lastTermMissing" THEN Size - 1 ELSE Size)]
Root(j) == CASE Size = 1 -> <<1, 0>>
             [] Size = 2 -> (IF j % 2 = 0 THEN <<1, 0>> ELSE <<0 - 1, 0>>)
             [] OTHER -> (CASE j % 4 = 0 -> <<1, 0>> [] j % 4 = 1 -> <<0, 0 - 1>> [] j % 4 = 2 -> <<0 - 1, 0>> [] OTHER -> <<0, 1>>)
Dft(x) == [k \in 1..Size |-> LET T(n) == CMul(Element(x, n), Root((k - 1) * n)) IN CSum(T, Size)]
Conjugate(x) == [n \in 1..Size |-> Conj(x[n])]
\* the inverse by conjugation, before the division by the size
CodeInverse(x) == IF Bug = "noConjugate" THEN Dft(x) ELSE Conjugate(Dft(Conjugate(x)))
Inverse(x) == [k \in 1..Size |-> LET T(n) == CMul(Element(x, n), Conj(Root((k - 1) * n))) IN CSum(T, Size)]
Times(c, x) == [n \in 1..Size |-> <<c * x[n][1], c * x[n][2]>>]
Exact == Size \in {1, 2, 4}
ConvIsSum == CodeConv(a, b) = Convolution(a, b)
Commutes == CodeConv(a, b) = CodeConv(b, a)
Impulse == LET d == [n \in 1..Size |-> IF n = 1 THEN <<1, 0>> ELSE <<0, 0>>] IN CodeConv(a, d) = a
ConvTheorem == Exact => Dft(CodeConv(a, b)) = [k \in 1..Size |-> CMul(Dft(a)[k], Dft(b)[k])]
RoundTrip == Exact => CodeInverse(Dft(a)) = Times(Size, a)
InverseIsSum == Exact => CodeInverse(a) = Inverse(a)
=============================================================================
