-------------------------------- MODULE Waves --------------------------------
(* A walk over the argument, in sixteenths, that adds up the wavelet functions  *)
(* of WaveDefs: what is expected of a wavelet follows from their tables.         *)
EXTENDS WaveDefs
CONSTANTS Reach, Bug
VARIABLES k, mean, energy, morlet
vars == <<k, mean, energy, morlet>>
H(i) == IF Bug = "halfWidth" THEN Hat(i \div 2) ELSE IF Bug = "bell" THEN Bell(Abs(i)) ELSE Hat(i)
M(i) == IF Bug = "notConjugate" THEN <<Morlet(i)[1], Abs(Morlet(i)[2])>> ELSE Morlet(i)
Init == k = 0 - Reach /\ mean = 0 /\ energy = 0 /\ morlet = <<0, 0>>
Next == \/ /\ k < Reach /\ k' = k + 1
           /\ mean' = mean + H(k)
           /\ energy' = energy + Mul(H(k), H(k)) \div 16
           /\ morlet' = <<morlet[1] + M(k)[1], morlet[2] + M(k)[2]>>
        \/ k = Reach /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Near(a, b, e) == Abs(a - b) <= e
\* the sums over all sixteenths are within 1/1000 of the range of values
ZeroMean == k = Reach => Near(mean, 0, One \div 2)
\* of (1-u*u) * e^(-u*u/2): 3/4 * sqrt(pi) = 1.3293
UnitEnergy == k = Reach => Near(energy, 43560, 200)
Even == H(k) = H(0 - k)
\* one maximum, at 0; one minimum, at sqrt(3)
Shape == /\ H(k) <= H(0) /\ (k % 16 = 0 /\ Abs(k) = 16 => H(k) = 0)
         /\ (Abs(k) < 16 => H(k) > 0) /\ H(k) >= Hat(28) - 2
Conjugate == M(0 - k)[1] = M(k)[1] /\ M(0 - k)[2] = 0 - M(k)[2]
Modulus == Near(Mul(M(k)[1], M(k)[1]) + Mul(M(k)[2], M(k)[2]), Mul(Bell(Abs(k)), Bell(Abs(k))), 16)
\* with a frequency as high as 5 the mean of Morlet's function is next to nothing
MorletMean == k = Reach => Near(morlet[1], 0, 60) /\ Near(morlet[2], 0, 60)
=============================================================================
