------------------------------ MODULE SweepDefs ------------------------------
(* The step of a Rosenbrock sweep along one of its directions: one that improves *)
(* the objective grows to 3/2, another one turns back at half its length, and no  *)
(* step is longer than top.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* a signed number rounded, not cut off
Over(a, b) == IF a < 0 THEN 0 - ((2 * (0 - a) + b) \div (2 * b)) ELSE (2 * a + b) \div (2 * b)
NewLength(len, better, top) == LET n == IF better THEN (3 * len) \div 2 ELSE len \div 2 IN IF n > top THEN top ELSE n
\* one coordinate d of a step of length len, and the same after the step is cut to top
Cut(d, len, top) == IF d = len THEN top ELSE IF d = 0 - len THEN 0 - top ELSE Over(d * top, len)
NewStep(d, len, better, top) ==
    IF better THEN IF 3 * len > 2 * top THEN Cut(d, len, top) ELSE Over(3 * d, 2)
    ELSE IF len > 2 * top THEN 0 - Cut(d, len, top) ELSE 0 - Over(d, 2)
=============================================================================
