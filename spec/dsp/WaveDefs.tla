------------------------------ MODULE WaveDefs ------------------------------
(* Values of the analytic wavelet functions at sixteenths, in units of 2^-15,   *)
(* with integers below 2^31: powers by repeated squaring, e^(-m/512) and the     *)
(* rotation by k * 5/16 being products over the binary digits of m and k.        *)
EXTENDS Integers, Sequences
One == 32768
Mul(a, b) == (a * b + One \div 2) \div One     \* \div rounds down, also below zero
E == <<32704, 32640, 32513, 32260, 31760, 30783, 28918, 25520, 19875, 12055, 4435, 600, 11, 0>>
C == <<31181, 26574, 10332, 0 - 26252, 9295, 0 - 27495, 13372, 0 - 21854, 0 - 3617>>
S == <<10074, 19172, 31096, 19611, 0 - 31422, 0 - 17826, 29915, 24416, 0 - 32568>>
RECURSIVE Gauss(_, _)
Gauss(m, j) == IF m = 0 \/ j > Len(E) THEN (IF m = 0 THEN One ELSE 0)
               ELSE LET r == Gauss(m \div 2, j + 1) IN IF m % 2 = 1 THEN Mul(E[j], r) ELSE r
\* e^(-k*k/512)
Bell(k) == Gauss(k * k, 1)
RECURSIVE Turn(_, _)
Turn(k, j) == IF k = 0 THEN <<One, 0>>
              ELSE LET r == Turn(k \div 2, j + 1)
                   IN  IF k % 2 = 1 THEN <<Mul(C[j], r[1]) - Mul(S[j], r[2]), Mul(C[j], r[2]) + Mul(S[j], r[1])>> ELSE r
Abs(v) == IF v < 0 THEN 0 - v ELSE v
\* Morlet at k/16: bell and rotation by 5t
Morlet(k) == LET r == Turn(Abs(k), 1)
                 b == Bell(Abs(k))
             IN  <<Mul(b, r[1]), (IF k < 0 THEN 0 - 1 ELSE 1) * Mul(b, r[2])>>
\* Mexican hat of width 3 at 3k/16 over its value at 0; |k| <= 64, then it is 0
Hat(k) == IF Abs(k) > 128 THEN 0 ELSE (Bell(Abs(k)) * (256 - k * k)) \div 256
=============================================================================
