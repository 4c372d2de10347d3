-------------------------------- MODULE Spline --------------------------------
(* What Akima's interpolation promises, checked for every small set of knots; and  *)
(* the look-up of the interval of an argument as the code makes it.               *)
EXTENDS SplineDefs, FiniteSets, TLC
CONSTANTS Knots, Values, Bug
VARIABLES x, y, done
vars == <<x, y, done>>
Gaps == [1..(Knots - 1) -> 1..2]
RECURSIVE Pos(_, _)
Pos(g, i) == IF i = 1 THEN 0 ELSE Pos(g, i - 1) + g[i - 1]
Init == /\ \E g \in Gaps : x = [i \in 1..Knots |-> Pos(g, i)]
        /\ y \in [1..Knots -> Values] /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_vars
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a - b * (a \div b))
Lowest(r) == LET g == Gcd(r[2], Abs(r[1])) IN <<IF r[1] < 0 THEN 0 - (Abs(r[1]) \div g) ELSE r[1] \div g, r[2] \div g>>
Same(a, b) == Lowest(a) = Lowest(b)
I == 1..(Knots - 1)
MirrorX == [i \in 1..Knots |-> x[Knots] - x[Knots + 1 - i]]
MirrorY == [i \in 1..Knots |-> y[Knots + 1 - i]]
ThroughKnots == \A i \in I : Same(At(x, y, i, 0), <<y[i], 1>>) /\ Same(At(x, y, i, 4), <<y[i + 1], 1>>)
OnLine == \A i \in I : (y[i + 1] - y[i]) * (x[2] - x[1]) = (y[2] - y[1]) * (x[i + 1] - x[i])
Lines == OnLine => \A i \in I, q \in 0..4 : Same(At(x, y, i, q), <<4 * y[i] + q * (y[i + 1] - y[i]), 4>>)
\* on even knots a parabola is reproduced
Even == \A i \in I : x[i + 1] - x[i] = x[2] - x[1]
Parabola == \A i \in 1..(Knots - 2) : (y[i + 2] - 2 * y[i + 1] + y[i]) = (y[3] - 2 * y[2] + y[1])
Parabolas == (Even /\ Parabola) =>
   \A i \in I : Same(At(x, y, i, 2), <<4 * (y[i] + y[i + 1]) - (y[3] - 2 * y[2] + y[1]), 8>>)
Mirror == \A i \in I, q \in 0..4 : Same(At(x, y, i, q), At(MirrorX, MirrorY, Knots - i, 4 - q))
\* the slope at a knot lies between the neighbouring secants
Inner(a, b, s) == (a * s[2] <= s[1] /\ s[1] <= b * s[2]) \/ (b * s[2] <= s[1] /\ s[1] <= a * s[2])
Between(a, b, s) == s[2] > 0 /\ Inner(a, b, s)
SlopesBetween == \A i \in 1..Knots : Between(M(x, y, i - 1), M(x, y, i), Slope(x, y, i))
\* the look-up; argument a in halves from beyond the first to beyond the last knot; 99 is not a number
Args == (0 - 1)..(2 * x[Knots] + 1) \cup {99}
Less(a, b) == a # 99 /\ b # 99 /\ a < b
Knot(i) == 2 * x[i]
UpperBound(a) == LET S == {i \in 1..Knots : Less(a, Knot(i))} IN IF S = {} THEN Knots + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
LowerBound(a) == LET S == {i \in 1..Knots : ~Less(Knot(i), a)} IN IF S = {} THEN Knots + 1 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* 0 stands for refused
Find(a) == LET u == UpperBound(a) w == LowerBound(a) IN
   IF u = 1 THEN 0
   ELSE IF u = Knots + 1
        THEN IF w = Knots + 1 \/ (Bug # "nanReadsBefore" /\ Knot(w) # a) THEN 0
             ELSE IF Bug = "lastKnotMissing" THEN 0 ELSE w - 1
        ELSE IF Bug = "nextInterval" /\ u <= Knots - 1 THEN u ELSE u - 1
Inside(a) == a # 99 /\ Knot(1) <= a /\ a <= Knot(Knots)
LookUp == \A a \in Args : IF Inside(a) THEN Find(a) \in I /\ Knot(Find(a)) <= a /\ a <= Knot(Find(a) + 1)
                          ELSE Find(a) = 0 /\ (Bug = "nanReadsBefore" => UpperBound(a) = 1 \/ LowerBound(a) = Knots + 1)
=============================================================================
