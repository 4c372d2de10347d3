--------------------------------- MODULE Ga ---------------------------------
(* Design of the genetic algorithm: one optimizer object, several runs, each   *)
(* with its own objective function.  All random choices (initial population,   *)
(* parents, crossover point, mutation) are nondeterministic.  Bug selects a     *)
(* deliberately wrong action (negative controls).                              *)
EXTENDS GaDefs, TLC
CONSTANTS L,        \* genes
          N,        \* population size (even)
          Elite,    \* pairs kept
          MaxGen, Crit, Top, Runs, UseCache, Bug
Chrom == [1..L -> {0, 1}]
Valid(c) == ~ \A i \in 1..L : c[i] = 1      \* the constraint: not all ones
ValidChrom == {c \in Chrom : Valid(c)}
Func == [ValidChrom -> 0..Top]
None == [c \in {} |-> 0]

VARIABLES run, f, g, pop, fit, cache, best, bestc, phase, pre, prev, prevfit, seen, shown, done
vars == <<run, f, g, pop, fit, cache, best, bestc, phase, pre, prev, prevfit, seen, shown, done>>

Init == /\ run = 0 /\ f \in {[c \in ValidChrom |-> 0]} /\ g = 0 /\ pop = <<>> /\ fit = <<>>
        /\ cache = None /\ best = -1 /\ bestc = <<>> /\ phase = "idle" /\ pre = <<>> /\ prev = <<>>
        /\ prevfit = None /\ seen = {} /\ shown = <<>> /\ done = FALSE

Start == /\ phase = "idle" /\ run < Runs
         /\ run' = run + 1 /\ f' \in Func /\ g' = 0
         /\ pop' \in [1..N -> IF Bug = "invalidStart" THEN Chrom ELSE ValidChrom]
         /\ cache' = IF Bug = "staleCache" THEN cache ELSE None
         /\ best' = -1 /\ bestc' = <<>> /\ phase' = "eval" /\ seen' = {} /\ shown' = <<>>
         /\ done' = FALSE /\ fit' = <<>> /\ pre' = <<>> /\ prev' = <<>> /\ prevfit' = None

\* the whole population gets its fitness: from the cache where it is known
Value(c) == IF UseCache /\ c \in DOMAIN cache THEN cache[c]
            ELSE IF c \in ValidChrom THEN f[c] ELSE 0
Evaluate ==
    /\ phase = "eval"
    /\ fit' = [i \in 1..N |-> Value(pop[i])]
    /\ seen' = seen \cup Members(pop)
    /\ cache' = IF UseCache THEN [c \in DOMAIN cache \cup Members(pop) |-> Value(c)] ELSE cache
    /\ LET m == MaxOf({fit'[i] : i \in 1..N})
           k == CHOOSE k \in 1..N : fit'[k] = m
       IN  IF m > best \/ Bug = "bestOfGeneration"
           THEN best' = m /\ bestc' = pop[k]
           ELSE UNCHANGED <<best, bestc>>
    /\ shown' = Append(shown, <<g, best'>>)
    /\ phase' = "counted"
    /\ UNCHANGED <<run, f, g, pop, pre, prev, prevfit, done>>

StopNow == IF Bug = "lateStop" THEN g = MaxGen - 1 \/ (best >= Crit /\ g > 0)
           ELSE Stopped(g, MaxGen, best, Crit)
Stop == /\ phase = "counted" /\ StopNow
        /\ phase' = "idle" /\ done' = TRUE
        /\ UNCHANGED <<run, f, g, pop, fit, cache, best, bestc, pre, prev, prevfit, seen, shown>>

\* positions of the population sorted by fitness, best first: any such order
Orders == {o \in [1..N -> 1..N] : /\ \A i, j \in 1..N : i # j => o[i] # o[j]
                                  /\ \A i \in 1..(N - 1) :
                                        IF Bug = "worstElite" THEN fit[o[i]] <= fit[o[i + 1]]
                                                              ELSE fit[o[i]] >= fit[o[i + 1]]}
Couples == {<<Cut(p, q, k), Cut(q, p, IF Bug = "twoPoints" THEN (k + 1) % (L + 1) ELSE k)>> :
                p, q \in Members(pop), k \in 0..(L - 1)}
GoodCouples == {c \in Couples : Valid(c[1]) /\ Valid(c[2])}
ElitePairs == Min2(Elite, N \div 2)
Breed ==
    /\ phase = "counted" /\ ~StopNow
    /\ \E o \in Orders : \E cs \in [1..(N \div 2 - ElitePairs) -> GoodCouples] :
          pre' = [i \in 1..N |->
                    IF i <= 2 * ElitePairs THEN pop[o[i]]
                    ELSE cs[(i + 1) \div 2 - ElitePairs][IF i % 2 = 1 THEN 1 ELSE 2]]
    /\ prev' = pop /\ prevfit' = [c \in Members(pop) |-> fit[CHOOSE i \in 1..N : pop[i] = c]]
    /\ phase' = "bred"
    /\ UNCHANGED <<run, f, g, pop, fit, cache, best, bestc, seen, shown, done>>
Mutate ==
    /\ phase = "bred"
    /\ pop' \in [1..N -> IF Bug = "invalidMutant" THEN Chrom ELSE ValidChrom]
    /\ g' = g + 1 /\ phase' = "eval"
    /\ UNCHANGED <<run, f, fit, cache, best, bestc, pre, prev, prevfit, seen, shown, done>>

Next == Start \/ Evaluate \/ Stop \/ Breed \/ Mutate \/ (phase = "idle" /\ run = Runs /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C08
FitnessIsCurrent == phase = "counted" => \A i \in 1..N : pop[i] \in ValidChrom => fit[i] = f[pop[i]]
\* C09
BestIsMaximum == phase = "counted" \/ done => /\ best = MaxOf({f[c] : c \in seen \cap ValidChrom})
                                              /\ bestc \in seen /\ f[bestc] = best
\* C10
AllValid == /\ \A i \in DOMAIN pop : Valid(pop[i]) /\ Len(pop[i]) = L
            /\ \A i \in DOMAIN pre : Valid(pre[i])
\* C11
Inherit == phase = "bred" => /\ Len(pre) = N
                             /\ ElitePresent(pre, prev, prevfit, 2 * Elite)
                             /\ PairsFromParents(pre, prev)
\* C12
ShownOnce == \A i \in DOMAIN shown : /\ shown[i][1] = i - 1
                                     /\ i > 1 => shown[i][2] >= shown[i - 1][2]
                                     /\ i < Len(shown) => ~Stopped(i - 1, MaxGen, shown[i][2], Crit)
StopsRight == done => Stopped(Len(shown) - 1, MaxGen, best, Crit)
Terminates == <>(run = Runs /\ phase = "idle")
=============================================================================
