----------------------------- MODULE NelderMead -----------------------------
(* The bounded simplex method in one dimension on a lattice, for every function. *)
(* A contraction that leaves the lattice ends the run ("fine": too fine).        *)
EXTENDS NmDefs, FiniteSets, Sequences, TLC
CONSTANTS Max, Vals, Edge, Precision, Limit, Bug
VARIABLES f, lo, hi, x, v, visited, phase, history, iter
vars == <<f, lo, hi, x, v, visited, phase, history, iter>>
Cells == (0 - Max)..(2 * Max)
F(p) == IF p \in 0..Max THEN f[p] ELSE 9
Init == /\ f \in [0..Max -> Vals] /\ lo = 0 /\ hi \in (Edge + 1)..Max
        /\ \E s \in 0..(hi - Edge) : x = <<s, s + Edge>>
        /\ v = <<F(x[1]), F(x[2])>> /\ visited = {x[1], x[2]} /\ phase = "iterate" /\ history = {} /\ iter = 0
End(nx, nv) == iter' = Limit \/ nx \in history \/ Spread(nv) <= 2 * Precision
Replace(p, seen) == LET h == Hi(v)
                        nx == Put(x, h, p)
                        nv == Put(v, h, F(p))
                    IN  /\ x' = nx /\ v' = nv /\ visited' = visited \cup seen
                        /\ history' = history \cup {nx}
                        /\ phase' = IF End(nx, nv) THEN "done" ELSE "iterate"
Iterate == /\ phase = "iterate" /\ iter' = iter + 1
           /\ LET h == Hi(v)
                  c == x[Lo(v)]
                  best == v[Lo(v)]
                  r == IF Bug = "noProjection" THEN 2 * c - x[h] ELSE Reflected(x, v, lo, hi)
                  e == IF Bug = "noProjection" THEN 2 * r - c ELSE Expanded(x, v, r, lo, hi)
                  w == IF F(r) < v[h] THEN r ELSE x[h]
                  wv == IF F(r) < v[h] THEN F(r) ELSE v[h]
              IN  IF F(r) < best
                  THEN IF F(e) < F(r) THEN Replace(e, {r, e}) ELSE Replace(IF Bug = "alwaysExpands" THEN e ELSE r, {r, e})
                  ELSE IF F(r) <= best THEN Replace(r, {r})
                  ELSE IF (c + w) % 2 # 0 THEN phase' = "fine" /\ visited' = visited \cup {r} /\ UNCHANGED <<x, v, history>>
                  ELSE LET k == (c + w) \div 2 IN
                       IF F(k) > wv /\ Bug = "staleReduction"
                       THEN /\ x' = Put(x, h, k) /\ v' = Put(v, h, wv) /\ visited' = visited \cup {r, k}
                            /\ history' = history \cup {Put(x, h, k)}
                            /\ phase' = IF End(x', v') THEN "done" ELSE "iterate"
                       ELSE Replace(k, {r, k}) \* a contraction, or a reduction towards c
           /\ UNCHANGED <<f, lo, hi>>
Next == Iterate
Spec == Init /\ [][Next]_vars
Result == IF Bug = "returnsWorst" THEN x[Hi(v)] ELSE x[Lo(v)]
Least == CHOOSE m \in {F(p) : p \in visited} : \A q \in visited : m <= F(q)
BestReturned == phase = "done" => F(Result) = Least
BestKept == phase = "iterate" => v[Lo(v)] = Least
ValuesTrue == phase # "fine" => v = <<F(x[1]), F(x[2])>>
InBounds == \A p \in visited : p \in lo..hi
=============================================================================
