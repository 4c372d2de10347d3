------------------------------- MODULE NmDefs -------------------------------
(* The Nelder-Mead moves in one dimension: a simplex is two points x with values *)
(* v; hi is the vertex to replace (the second one when the values are equal),   *)
(* the other one is the centre the moves are taken about.                       *)
EXTENDS Integers
Hi(v) == IF v[1] > v[2] THEN 1 ELSE 2
Lo(v) == 3 - Hi(v)
Clip(p, lo, hi) == IF p > hi THEN hi ELSE IF p < lo THEN lo ELSE p
Reflected(x, v, lo, hi) == Clip(2 * x[Lo(v)] - x[Hi(v)], lo, hi)
Expanded(x, v, r, lo, hi) == Clip(2 * r - x[Lo(v)], lo, hi)
Put(s, i, e) == [s EXCEPT ![i] = e]
Spread(v) == IF v[1] > v[2] THEN v[1] - v[2] ELSE v[2] - v[1]
=============================================================================
