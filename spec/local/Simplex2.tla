------------------------------ MODULE Simplex2 ------------------------------
(* The bounded simplex method in the plane, evaluation by evaluation, against     *)
(* every function: values are chosen when a point is evaluated for the first      *)
(* time.  Points are on a lattice; a point that is not ends the run ("fine").     *)
(*   x, v   the vertices and their values, h the vertex being replaced            *)
(*   rp     the reflected point, cp the point evaluated next, m the vertex a      *)
(*          reduction goes towards, todo the vertices it has yet to evaluate      *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Lo, Hi, Vals, Side, Limit, Bug
VARIABLES x, v, known, ph, h, rp, cp, m, todo, iter
vars == <<x, v, known, ph, h, rp, cp, m, todo, iter>>
V == 1..3
D == 1..2
F(p) == known[p]
Values(w) == {w[i] : i \in V}
Most(S) == CHOOSE a \in S : \A b \in S : b <= a
Least(S) == CHOOSE a \in S : \A b \in S : b >= a
Put(f, i, e) == [f EXCEPT ![i] = e]
Sum(k) == x[1][k] + x[2][k] + x[3][k] - x[h][k] \* twice the centre of the others
Clip(p) == IF Bug = "noProjection" THEN p ELSE [k \in D |-> IF p[k] > Hi THEN Hi ELSE IF p[k] < Lo THEN Lo ELSE p[k]]
Even(p, d) == \A k \in D : p[k] % d = 0
By(p, d) == [k \in D |-> p[k] \div d]
Fine == ph' = "fine" /\ UNCHANGED <<x, v, known, h, rp, cp, m, todo, iter>>
\* the next iteration replaces a worst vertex
Ready == ph = "choose"
Choose == /\ Ready
          /\ \E i \in V : /\ v[i] = (IF Bug = "replacesBest" THEN Least(Values(v)) ELSE Most(Values(v)))
                          /\ h' = i
                          /\ cp' = Clip([k \in D |-> x[1][k] + x[2][k] + x[3][k] - 2 * x[i][k]])
          /\ ph' = "reflect" /\ iter' = iter + 1 /\ UNCHANGED <<x, v, known, rp, m, todo>>
Eval == /\ ph \notin {"choose", "done", "fine"} /\ cp \notin DOMAIN known
        /\ \E w \in Vals : known' = known @@ (cp :> w)
        /\ UNCHANGED <<x, v, ph, h, rp, cp, m, todo, iter>>
Known == ph \notin {"choose", "done", "fine"} /\ cp \in DOMAIN known
EndOr(nv) == IF Cardinality(Values(nv)) = 1 \/ iter = Limit THEN "done" ELSE "choose"
Take(p, w) == x' = Put(x, h, p) /\ v' = Put(v, h, w) /\ ph' = EndOr(v') /\ UNCHANGED <<known, h, rp, cp, m, todo, iter>>
Others == {v[i] : i \in V \ {h}}
Reflect == /\ Known /\ ph = "reflect"
           /\ IF F(cp) < Least(Values(v))
              THEN LET e == [k \in D |-> 4 * cp[k] - Sum(k)] IN
                   IF Even(e, 2) THEN ph' = "expand" /\ rp' = cp /\ cp' = Clip(By(e, 2)) /\ UNCHANGED <<x, v, known, h, m, todo, iter>>
                   ELSE Fine
              ELSE IF F(cp) <= Most(Others) THEN Take(cp, F(cp))
              ELSE LET w == IF F(cp) < v[h] THEN cp ELSE x[h]
                       c == [k \in D |-> Sum(k) + 2 * w[k]]
                   IN IF Even(c, 4) THEN /\ ph' = "contract" /\ x' = Put(x, h, w) /\ v' = Put(v, h, F(w)) /\ cp' = By(c, 4)
                                         /\ UNCHANGED <<known, h, rp, m, todo, iter>>
                      ELSE Fine
Expand == /\ Known /\ ph = "expand"
          /\ IF F(cp) < F(rp) \/ Bug = "alwaysExpands" THEN Take(cp, F(cp)) ELSE Take(rp, F(rp))
Contract == /\ Known /\ ph = "contract"
            /\ IF F(cp) <= v[h] THEN Take(cp, F(cp))
               ELSE \E i \in V : /\ v[i] = (IF Bug = "towardsWorst" THEN Most(Values(v)) ELSE Least(Values(v)))
                                 /\ LET nx == [j \in V |-> [k \in D |-> x[i][k] + x[j][k]]] IN
                                    IF \A j \in V : Even(nx[j], 2)
                                    THEN /\ x' = [j \in V |-> By(nx[j], 2)] /\ m' = i /\ todo' = V \ {i} /\ ph' = "reduce"
                                         /\ \E j \in V \ {i} : cp' = x'[j]
                                         /\ UNCHANGED <<v, known, h, rp, iter>>
                                    ELSE Fine
Reduce == /\ Known /\ ph = "reduce"
          /\ LET seen == {j \in todo : x[j] = cp} left == todo \ seen IN
             /\ todo' = left
             /\ IF left = {} THEN /\ v' = IF Bug = "staleReduction" THEN v ELSE [j \in V |-> F(x[j])]
                                  /\ ph' = EndOr(v') /\ UNCHANGED cp
                ELSE (\E j \in left : cp' = x[j]) /\ UNCHANGED <<v, ph>>
          /\ UNCHANGED <<x, known, h, rp, m, iter>>
Next == Choose \/ Eval \/ Reflect \/ Expand \/ Contract \/ Reduce
Starts == {p \in [D -> {Lo, Lo + Side, Hi - Side}] : TRUE}
Init == /\ \E p \in Starts : x = <<p, Put(p, 1, p[1] + Side), Put(p, 2, p[2] + Side)>>
        /\ \E w \in [V -> Vals] : v = [i \in V |-> w[i]] /\ known = [p \in {x[1], x[2], x[3]} |-> v[CHOOSE i \in V : x[i] = p]]
        /\ ph = "choose" /\ h = 1 /\ rp = x[1] /\ cp = x[1] /\ m = 1 /\ todo = {} /\ iter = 0
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Settled == ph \in {"choose", "done"}
ValuesTrue == Settled => \A i \in V : v[i] = F(x[i])
\* the best point ever evaluated remains a vertex
BestKept == Settled => Least(Values(v)) = Least({F(p) : p \in DOMAIN known})
Result == x[CHOOSE i \in V : v[i] = IF Bug = "returnsWorst" THEN Most(Values(v)) ELSE Least(Values(v))]
BestReturned == ph = "done" => F(Result) = Least({F(p) : p \in DOMAIN known})
InBounds == \A p \in DOMAIN known : \A k \in D : p[k] \in Lo..Hi
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Area(t) == Abs((t[2][1] - t[1][1]) * (t[3][2] - t[1][2]) - (t[3][1] - t[1][1]) * (t[2][2] - t[1][2]))
\* a vertex replaced is a worst one, unless the simplex shrinks around a best one
WorstGoes == [][x' # x /\ ph # "contract" => \E i \in V : v[i] = Most(Values(v)) /\ \A j \in V \ {i} : x'[j] = x[j]]_vars
Shrinks == [][ph' = "reduce" /\ ph # "reduce" => 4 * Area(x') = Area(x)]_vars
Terminates == <>(ph \in {"done", "fine"})
=============================================================================
