------------------------------- MODULE CwtDefs -------------------------------
(* The continuous wavelet transformation with exactly representable samples.      *)
(* Signals and sample rows are sequences; index 0 of the text is index 1 here.    *)
EXTENDS Integers, Sequences
At0(x, p) == IF p >= 0 /\ p < Len(x) THEN x[p + 1] ELSE 0
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
\* a small arbitrary wavelet function on the integers: real and imaginary part
Re(q) == ((q * q + 3 * q + 7 * (q \div 3)) % 9) - 4
Im(q) == ((q * q * 2 + q + 5 * (q \div 4)) % 7) - 3
\* where row i (0-based) samples the wavelet function, in units of 1 / (count * len)
\* (linear scale) or 1 / len (logarithmic scale with max / min = 2 ^ count)
Position(type, i, j, len, ratio) == IF type = "linear" THEN (2 * j - len) * (i + 1) * 4 * ratio ELSE (2 * j - len) * Pow(2, i) * 4
RECURSIVE Dot(_, _, _, _, _, _)
\* sum over j in from .. to - 1 of part(position(i, j)) * x[start + j], in halves
Dot(part(_), pos(_), x, start, from, to) ==
   IF to - from = 0 THEN 0
   ELSE IF to - from = 1 THEN LET v == At0(x, start + from) IN IF v = 0 THEN 0 ELSE part(pos(from)) * v
   ELSE LET m == (from + to) \div 2 IN Dot(part, pos, x, start, from, m) + Dot(part, pos, x, start, m, to)
\* the square of entry i of the row at sample p of signal x
Entry(type, x, p, i, len, ratio) ==
   LET pos(j) == Position(type, i, j, len, ratio)
       a == Dot(Re, pos, x, p - (len \div 2), 0, len)
       b == Dot(Im, pos, x, p - (len \div 2), 0, len)
   IN  a * a + b * b
Rows(n, step) == (n + step - 1) \div step
=============================================================================
