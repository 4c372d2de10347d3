------------------------------- MODULE Cyclic -------------------------------
(* Exact cyclic sums over pairs <<re, im>> of integers.  Sequences are indexed *)
(* from 0 in the definitions: X(s, n) is element n modulo the length.          *)
EXTENDS Integers, Sequences, TLC
X(s, n) == s[(n % Len(s)) + 1]
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Conj(a) == <<a[1], -a[2]>>
\* summed in halves: long signals must not nest deeply
RECURSIVE CSumOf(_, _, _)
CSumOf(f(_), a, b) == IF b - a = 1 THEN f(a) ELSE LET m == (a + b) \div 2 IN CAdd(CSumOf(f, a, m), CSumOf(f, m, b))
CSum(f(_), n) == IF n = 0 THEN <<0, 0>> ELSE CSumOf(f, 0, n)
\* (x * y)(n) = sum over m of x(m) y(n - m)
Convolution(x, y) == LET N == Len(x) IN
    [n \in 1..N |-> LET T(m) == CMul(X(x, m), X(y, n - 1 - m + N)) IN CSum(T, N)]
=============================================================================
