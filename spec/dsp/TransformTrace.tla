---------------------------- MODULE TransformTrace ----------------------------
(* Results of the real convolutions and transforms on integer signals, judged by   *)
(* the defining sums: convolutions exactly, transforms of lengths up to 16 with the  *)
(* table of sines (results times 10^6), longer ones by the laws alone (err, 10^-9).   *)
EXTENDS Cyclic, DftTable, TraceLib
VARIABLES l
vars == <<l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == l = 1
Abs(v) == IF v < 0 THEN 0 - v ELSE v
Conv == /\ Is("Conv")
        /\ IF Len(Ev.a) # Len(Ev.b) THEN Ev.refused
           ELSE ~Ev.refused /\ Ev.r = Convolution(Ev.a, Ev.b)
\* exp(sign * 2 pi i j / n) times 10^6
Turn(n, j, sign) == <<CosTable[n][(j % n) + 1], IF sign < 0 THEN 0 - SinTable[n][(j % n) + 1] ELSE SinTable[n][(j % n) + 1]>>
Sum(x, k, sign) == LET n == Len(x) T(m) == CMul(X(x, m), Turn(n, k * m, sign)) IN CSum(T, n)
Tolerance(x) == 2 + 20 * Len(x)
Close(r, s, tol) == Abs(r[1] - s[1]) <= tol /\ Abs(r[2] - s[2]) <= tol
\* the inverse transform's results are multiplied by the length again
Dft == /\ Is("Dft")
       /\ Len(Ev.r) = Len(Ev.x)
       /\ \A k \in 1..Len(Ev.x) : Close(Ev.r[k], Sum(Ev.x, k - 1, IF Ev.inverse THEN 1 ELSE 0 - 1), Tolerance(Ev.x))
Laws == Is("Laws") /\ Ev.sizes /\ Ev.err <= 1000
Refuse == Is("Refuse") /\ Ev.refused = (Ev.made # Ev.given) /\ Ev.after
Next == Conv \/ Dft \/ Laws \/ Refuse
TSpec == Init /\ [][Next]_vars
=============================================================================
