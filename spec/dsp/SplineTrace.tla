----------------------------- MODULE SplineTrace -----------------------------
(* Real Akima splines and wavelets: initialisations (accepted or refused) and      *)
(* values asked for.  v is the value times 1000, v6 times 10^6, rounded; where:     *)
(*   q      q quarters into interval i of integer knots                            *)
(*   knot   at knot i of any knots; err is then the deviation in 10^-12 of the size *)
(*   line   anywhere, when all knots are on a line; err as before                   *)
(*   out    outside of the knots, or not a number                                 *)
EXTENDS SplineDefs, TraceLib
VARIABLES x, y, set, l
vars == <<x, y, set, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == x = <<>> /\ y = <<>> /\ set = FALSE /\ l = 1
New == Is("New") /\ x' = <<>> /\ y' = <<>> /\ set' = FALSE
\* exact: the knots are the integers x, y; otherwise only their order was recorded in x
Initialize == /\ Is("Initialize")
              /\ LET good == Len(Ev.x) >= 5 /\ Ev.ny = Len(Ev.x) /\ Increasing(Ev.x) /\ ~Ev.nan IN
                 /\ Ev.ok = good
                 /\ IF good THEN x' = Ev.x /\ y' = Ev.y /\ set' = TRUE ELSE UNCHANGED <<x, y, set>>
\* |v - num/den| <= 1/1000 and rounding
Near(v, r) == Abs(v * r[2] - 1000 * r[1]) <= 2 * r[2]
Value == /\ Is("Value") /\ UNCHANGED <<x, y, set>>
         /\ CASE ~set -> Ev.refused
              [] Ev.where = "out" -> Ev.refused
              [] Ev.where = "q" -> ~Ev.refused /\ Near(Ev.v, At(x, y, Ev.i, Ev.q)) /\ (Ev.q = 0 => Ev.v6 = 1000000 * y[Ev.i])
                                   /\ (Ev.q = 4 => Abs(Ev.v6 - 1000000 * y[Ev.i + 1]) <= 1)
              [] OTHER -> ~Ev.refused /\ Ev.err <= 100000
\* a wavelet made of samples: itself at its samples, zero outside and at the end, defined everywhere
Wavelet == /\ Is("Wavelet") /\ UNCHANGED <<x, y, set>>
           /\ Ev.ok = (Ev.n >= 3)
           /\ Ev.ok => Ev.errors = 0 /\ Ev.off = 0 /\ Ev.outside = 0 /\ Ev.imag = 0
\* between its samples it is the spline through them with a zero before and after
Between == /\ Is("Between") /\ UNCHANGED <<x, y, set>>
           /\ LET n == Len(Ev.s) + 2
                  k == [i \in 1..n |-> i]
                  f == [i \in 1..n |-> IF i \in {1, n} THEN 0 ELSE Ev.s[i - 1]]
              IN Ev.real /\ Near(Ev.v, At(k, f, Ev.i + 1, Ev.q))
Next == New \/ Initialize \/ Value \/ Wavelet \/ Between
TSpec == Init /\ [][Next]_vars
=============================================================================
