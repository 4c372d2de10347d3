----------------------------- MODULE DescentDefs -----------------------------
(* What the results of runs allowed 0, 1, 2 ... iterations say about a gradient  *)
(* method.  near[k + 1]: is the gradient at the k-th result within the precision *)
(* (1 yes, 0 no, 2 cannot tell); far[k]: is the k-th result another point than    *)
(* the one before; fall[k]: is it not higher.                                    *)
EXTENDS Integers, Sequences
Stops(near, far) == \A k \in DOMAIN far : near[k] = 1 => far[k] = 0
GoesOn(near, far) == \A k \in DOMAIN far : near[k] = 0 => far[k] = 1
NeverUphill(fall) == \A k \in DOMAIN fall : fall[k] = 1
Arrives(near) == near[Len(near)] # 0
\* a quadratic function of n variables needs n conjugate steps
Conjugate(near, n) == Len(near) > n => near[n + 1] # 0
=============================================================================
