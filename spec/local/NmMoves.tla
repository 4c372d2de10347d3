------------------------------- MODULE NmMoves -------------------------------
(* Runs of the real bounded simplex method in two to four dimensions, every       *)
(* evaluation of it (coordinates rounded to 1/4096, integer values; maximizing    *)
(* runs are given the negated function).  Every evaluation must be a move that    *)
(* the simplex asks for; what to move when values are equal is left open.         *)
(*   x, v   the vertices and their values; hi the vertex being replaced           *)
(*   rp, rv the reflected point and its value; todo the vertices a reduction has  *)
(*          moved but not evaluated                                              *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib, TLC
VARIABLES r, x, v, hi, rp, rv, ph, todo, past, l
vars == <<r, x, v, hi, rp, rv, ph, todo, past, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Init == r = <<>> /\ x = <<>> /\ v = <<>> /\ hi = 0 /\ rp = <<>> /\ rv = 0 /\ ph = "none" /\ todo = {} /\ past = <<>> /\ l = 1
Run == /\ Is("Run") /\ ph = "none" /\ r' = Ev /\ x' = <<>> /\ v' = <<>> /\ ph' = "simplex" /\ past' = <<>>
       /\ UNCHANGED <<hi, rp, rv, todo>>
N == r.n
D == 1..r.n
V == 1..(r.n + 1)
\* the first evaluations are those of the first simplex, the start among them
Simplex == /\ Is("Eval") /\ ph = "simplex" /\ Len(Ev.x) = N
           /\ x' = Append(x, Ev.x) /\ v' = Append(v, Ev.v)
           /\ ph' = IF Len(x') = N + 1 THEN "reflect" ELSE "simplex"
           /\ (Len(x') = N + 1 => \E i \in V : x'[i] = r.s) = TRUE
           /\ UNCHANGED <<r, hi, rp, rv, todo, past>>
RECURSIVE SumBut(_, _, _)
SumBut(h, k, i) == IF i > N + 1 THEN 0 ELSE (IF i = h THEN 0 ELSE x[i][k]) + SumBut(h, k, i + 1)
Sum(h, k) == SumBut(h, k, 1) \* N times the centre of the others
Clip(p) == IF p > N * r.hi THEN N * r.hi ELSE IF p < N * r.lo THEN N * r.lo ELSE p
\* within the rounding of what is recorded
Tol == (2 * N) + 2
Reflected(p, h) == \A k \in D : Abs(N * p[k] - Clip(2 * Sum(h, k) - N * x[h][k])) <= Tol
Expanded(p, h) == \A k \in D : Abs(N * p[k] - Clip(2 * N * rp[k] - Sum(h, k))) <= Tol
\* halfway between the centre and w
Contracted(p, h, w) == \A k \in D : Abs(2 * N * p[k] - (Sum(h, k) + N * w[k])) <= 2 * Tol
Most(S) == CHOOSE m \in S : \A a \in S : a <= m
Least(S) == CHOOSE m \in S : \A a \in S : a >= m
Values == {v[i] : i \in V}
Others(h) == {v[i] : i \in V \ {h}}
\* the end of an iteration with vertices nx and values nv
RECURSIVE Total(_, _)
Total(f, i) == IF i > N + 1 THEN 0 ELSE f[i] + Total(f, i + 1)
Wide(nv) == LET m == Least({nv[i] : i \in V})
                d == [i \in V |-> nv[i] - m]
                big == \E i \in V : d[i] > 2000
                a == 4 * ((N + 1) * Total([i \in V |-> d[i] * d[i]], 1) - Total(d, 1) * Total(d, 1))
                b == r.prec * r.prec * (N + 1) * (N + 1)
            IN IF big THEN "yes" ELSE IF a > b THEN "yes" ELSE IF a = b THEN "either" ELSE "no"
Close(a, b) == \A i \in V, k \in D : Abs(a[i][k] - b[i][k]) <= 1
Keep(nx) == IF Len(past) >= 10 THEN Append(SubSeq(past, 2, Len(past)), nx) ELSE Append(past, nx)
Ends(nx, nv) == (IF Wide(nv) = "no" THEN {"ended"} ELSE IF Wide(nv) = "either" THEN {"ended", "reflect"}
                 ELSE IF \E i \in DOMAIN past : Close(past[i], nx) THEN {"ended", "reflect"} ELSE {"reflect"})
Done(nx, nv) == /\ x' = nx /\ v' = nv /\ past' = Keep(nx) /\ ph' \in Ends(nx, nv) /\ UNCHANGED <<r, hi, rp, rv, todo>>
Put(f, i, e) == [f EXCEPT ![i] = e]
Reflect == /\ Is("Eval") /\ ph = "reflect"
           /\ \E h \in V : /\ v[h] = Most(Values) /\ Reflected(Ev.x, h)
                           /\ CASE Ev.v < Least(Values) -> /\ ph' = "expand" /\ hi' = h /\ rp' = Ev.x /\ rv' = Ev.v
                                                           /\ UNCHANGED <<r, x, v, todo, past>>
                                [] Ev.v >= Least(Values) /\ Ev.v <= Most(Others(h)) -> Done(Put(x, h, Ev.x), Put(v, h, Ev.v))
                                [] OTHER -> /\ ph' = "contract" /\ hi' = h
                                            /\ IF Ev.v < v[h] THEN x' = Put(x, h, Ev.x) /\ v' = Put(v, h, Ev.v) ELSE UNCHANGED <<x, v>>
                                            /\ UNCHANGED <<r, rp, rv, todo, past>>
Expand == /\ Is("Eval") /\ ph = "expand" /\ Expanded(Ev.x, hi)
          /\ IF Ev.v < rv THEN Done(Put(x, hi, Ev.x), Put(v, hi, Ev.v)) ELSE Done(Put(x, hi, rp), Put(v, hi, rv))
Contract == /\ Is("Eval") /\ ph = "contract" /\ Contracted(Ev.x, hi, x[hi])
            /\ IF Ev.v <= v[hi] THEN Done(Put(x, hi, Ev.x), Put(v, hi, Ev.v))
               ELSE \* a reduction towards a best vertex
                    /\ \E m \in V : v[m] = Least(Values) /\ rp' = x[m] /\ todo' = V \ {m} /\ rv' = m
                    /\ ph' = "reduce" /\ UNCHANGED <<r, x, v, hi, past>>
Halved(p, i) == \A k \in D : Abs(2 * p[k] - (rp[k] + x[i][k])) <= 3
Reduce == /\ Is("Eval") /\ ph = "reduce"
          /\ \E i \in todo : /\ Halved(Ev.x, i)
                             /\ LET nx == Put(x, i, Ev.x) nv == Put(v, i, Ev.v) IN
                                IF todo = {i}
                                THEN x' = nx /\ v' = nv /\ past' = Keep(nx) /\ ph' \in Ends(nx, nv) /\ todo' = {}
                                ELSE x' = nx /\ v' = nv /\ todo' = todo \ {i} /\ UNCHANGED <<ph, past>>
          /\ UNCHANGED <<r, hi, rp, rv>>
\* evaluating a vertex again changes nothing
Again == /\ Is("Eval") /\ ph \notin {"none", "simplex"}
         /\ \E i \in V \ todo : Ev.x = x[i] /\ Ev.v = v[i]
         /\ UNCHANGED <<r, x, v, hi, rp, rv, ph, todo, past>>
End == /\ Is("End") /\ ph = "ended" /\ Ev.ok
       /\ \E i \in V : Ev.x = x[i] /\ v[i] = Least(Values)
       /\ ph' = "none" /\ UNCHANGED <<r, x, v, hi, rp, rv, todo, past>>
Budget == Is("Budget") /\ ph # "none" /\ ph' = "none" /\ UNCHANGED <<r, x, v, hi, rp, rv, todo, past>>
Next == Run \/ Simplex \/ Reflect \/ Expand \/ Contract \/ Reduce \/ Again \/ End \/ Budget
TSpec == Init /\ [][Next]_vars
=============================================================================
