------------------------------ MODULE WavesTrace ------------------------------
(* Values of the real wavelet functions against the tables of WaveDefs.          *)
EXTENDS WaveDefs, TraceLib
VARIABLES l
vars == <<l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == l = 1
Near(a, b, e) == Abs(a - b) <= e
MorletValue == Is("Morlet") /\ Near(Ev.re, Morlet(Ev.k)[1], 20) /\ Near(Ev.im, Morlet(Ev.k)[2], 20)
HatValue == Is("Hat") /\ Ev.real /\ Ev.up /\ Near(Ev.v, Hat(Ev.k), 30)
\* over steps of 1, wherever they start: mean zero, energy one
Sums == Is("Sums") /\ Near(Ev.mean, 0, 2) /\ Near(Ev.energy, 1000000, 2)
Next == MorletValue \/ HatValue \/ Sums
TSpec == Init /\ [][Next]_vars
=============================================================================
