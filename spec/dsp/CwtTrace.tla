------------------------------- MODULE CwtTrace -------------------------------
(* Real scales, wavelet sampling and continuous wavelet transformations.           *)
EXTENDS CwtDefs, TraceLib
VARIABLES l
vars == <<l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == l = 1
\* entries are squares; told: the progress in hundredths of a percent of the samples done
Cwt == /\ Is("Cwt")
       /\ IF Ev.step < 1 THEN Ev.refused
          ELSE /\ ~Ev.refused /\ ~Ev.offgrid
               /\ Len(Ev.rows) = Rows(Len(Ev.x), Ev.step)
               /\ \A r \in DOMAIN Ev.rows :
                     /\ Len(Ev.rows[r]) = Ev.count
                     /\ \A i \in 1..Ev.count : Ev.rows[r][i] = Entry(Ev.type, Ev.x, (r - 1) * Ev.step, i - 1, Ev.len, Ev.ratio)
               /\ Ev.callback => /\ Len(Ev.told) = Len(Ev.rows)
                                 /\ \A r \in DOMAIN Ev.told : Ev.told[r] = (10000 * (r - 1) * Ev.step) \div Len(Ev.x)
Haar == /\ Is("Haar") \* at = t in sixteenths
        /\ Ev.re = (IF Ev.at < 0 - 8 \/ Ev.at > 8 \/ Ev.at = 0 THEN 0 ELSE IF Ev.at < 0 THEN 0 - 1 ELSE 1)
        /\ Ev.im = (IF Ev.at < 0 - 4 \/ Ev.at > 12 \/ Ev.at = 4 THEN 0 ELSE IF Ev.at < 4 THEN 0 - 1 ELSE 1)
Abs(v) == IF v < 0 THEN 0 - v ELSE v
\* limits in 64ths; entry i times 1000 * 64 * (count - 1), rounded
Linear == /\ Is("Linear")
          /\ LET good == Ev.min > 0 /\ Ev.max > Ev.min /\ Ev.count >= 2 IN
             /\ Ev.ok = good
             /\ good => /\ Len(Ev.v) = Ev.count
                        /\ \A i \in 1..Ev.count : Abs(Ev.v[i] - 1000 * (Ev.min * (Ev.count - 1) + (Ev.max - Ev.min) * (i - 1))) <= 1
\* limits of any kind: err in 2^-40 of the upper limit
Wide == Is("Wide") /\ Ev.len = Ev.count /\ Ev.rising /\ Ev.err <= 1
\* entries as powers of two
Log == /\ Is("Log")
       /\ Ev.ok = (Ev.min < Ev.max)
       /\ Ev.ok => (Len(Ev.v) = Ev.max - Ev.min + 1 /\ Ev.exact /\ \A i \in DOMAIN Ev.v : Ev.v[i] = Ev.min + i - 1)
Next == Cwt \/ Haar \/ Linear \/ Wide \/ Log
TSpec == Init /\ [][Next]_vars
=============================================================================
