------------------------------ MODULE FwtTrace ------------------------------
(* Histories on real wavelet transform objects, decided exactly: the wavelet    *)
(* functions supplied by the harness take small integer values (Psi below) and  *)
(* scales are (nearly) powers of two, so every value of a row, multiplied by the square  *)
(* root of the scale, is an integer; the harness rounds to it (near: it was     *)
(* within 1e-6).                                                               *)
(*  New  object id for signals of length n, scales 2^e, or a little more or less *)
(*       of it (d = 1, -1), for <<e, d>> in es;                                 *)
(*       tiny: its cache is too small to hold everything (a call may fail)      *)
(*  All  the whole transform;  One  one scale (2^e, or e = 99: not positive)    *)
EXTENDS Cyclic, TraceLib
VARIABLES obj, l
vars == <<obj, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == obj = [i \in {} |-> 0] /\ l = 1

Pow2(k) == 2 ^ k
\* the wavelet w at t = u / 16, exactly there (side 0) or just beside
Psi(w, u, side) == <<((u * (2 * w + 3) + w) % 11) - 5 + side * 3, IF w % 2 = 0 THEN 0 ELSE (((u * u) + w) % 7) - 3 + side>>
\* sample n of wavelet w at scale 2^e for length N: conj(psi(-(n - N/2) / 2^e)); 16 t / 2^e = (8 (2n - N)) / 2^e
Arg(n, e, N) == LET z == N - 2 * n IN IF e <= 0 THEN z * 8 * Pow2(0 - e) ELSE z * Pow2(3 - e)
\* a scale a little greater (d = 1) brings every point nearer to zero
Side(u, d) == IF u > 0 THEN 0 - d ELSE IF u < 0 THEN d ELSE 0
Samples(w, e, d, N) == TLCEval([k \in 1..N |-> LET u == Arg(k - 1, e, N) IN Conj(Psi(w, u, Side(u, d)))])
Row(x, w, e, d) == Convolution(x, Samples(w, e, d, Len(x)))
Rotated(r) == LET N == Len(r) IN [k \in 1..N |-> X(r, k - 1 + (N \div 2))]

New == /\ Is("New") /\ Ev.ok
       /\ obj' = [i \in DOMAIN obj \cup {Ev.id} |-> IF i = Ev.id THEN Ev ELSE obj[i]]
Drop == Is("Drop") /\ obj' = [i \in DOMAIN obj \ {Ev.id} |-> obj[i]]
Good == Len(Ev.x) = obj[Ev.id].n
AllScales == /\ Is("All") /\ UNCHANGED obj
             /\ Ev.ok => Good
             /\ Good => Ev.ok \/ obj[Ev.id].tiny
             /\ Ev.ok => /\ Ev.near
                         /\ Ev.rows = [i \in DOMAIN obj[Ev.id].es |-> Rotated(Row(Ev.x, Ev.w, obj[Ev.id].es[i][1], obj[Ev.id].es[i][2]))]
OneScale == /\ Is("One") /\ UNCHANGED obj
            /\ Ev.ok => Good /\ Ev.exp # 99
            /\ Good /\ Ev.exp # 99 => Ev.ok \/ obj[Ev.id].tiny
            /\ Ev.ok => Ev.near /\ Ev.row = Row(Ev.x, Ev.w, Ev.exp, Ev.d)
Next == New \/ Drop \/ AllScales \/ OneScale
TSpec == Init /\ [][Next]_vars
=============================================================================
