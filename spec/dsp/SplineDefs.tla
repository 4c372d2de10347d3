------------------------------ MODULE SplineDefs ------------------------------
(* Akima's spline in exact rational arithmetic, for integer knots x with gaps of  *)
(* one or two and integer values y (sequences of at least five).                  *)
EXTENDS Integers, Sequences
Abs(a) == IF a < 0 THEN 0 - a ELSE a
N(x) == Len(x)
\* twice the secant slope of interval i (1 .. N-1), extended by two on either side
Sec(x, y, i) == (2 * (y[i + 1] - y[i])) \div (x[i + 1] - x[i])
M(x, y, i) == LET n == N(x) IN
   CASE i = 0 -> 2 * Sec(x, y, 1) - Sec(x, y, 2)
     [] i = 0 - 1 -> 3 * Sec(x, y, 1) - 2 * Sec(x, y, 2)
     [] i = n -> 2 * Sec(x, y, n - 1) - Sec(x, y, n - 2)
     [] i = n + 1 -> 3 * Sec(x, y, n - 1) - 2 * Sec(x, y, n - 2)
     [] OTHER -> Sec(x, y, i)
\* twice the slope at knot i, as <<numerator, denominator>>
Slope(x, y, i) == LET a == M(x, y, i - 2) b == M(x, y, i - 1) c == M(x, y, i) d == M(x, y, i + 1)
                      u == Abs(d - c) w == Abs(b - a)
                  IN IF u + w = 0 THEN <<b + c, 2>> ELSE <<b * u + c * w, u + w>>
\* the value at q quarters of interval i, times 128
Weights(q) == CASE q = 0 -> <<128, 0, 0, 0>> [] q = 1 -> <<108, 20, 9, 0 - 3>> [] q = 2 -> <<64, 64, 8, 0 - 8>>
                [] q = 3 -> <<20, 108, 3, 0 - 9>> [] OTHER -> <<0, 128, 0, 0>>
\* as <<numerator, denominator>>, the denominator including the 128
At(x, y, i, q) == LET s == Slope(x, y, i) t == Slope(x, y, i + 1) w == Weights(q) h == x[i + 1] - x[i] IN
   <<(w[1] * y[i] + w[2] * y[i + 1]) * s[2] * t[2] + h * (w[3] * s[1] * t[2] + w[4] * t[1] * s[2]), 128 * s[2] * t[2]>>
Increasing(x) == \A i \in 1..(N(x) - 1) : x[i] < x[i + 1]
=============================================================================
