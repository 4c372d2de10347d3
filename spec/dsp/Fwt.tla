-------------------------------- MODULE Fwt --------------------------------
(* The wavelet transform over sampled wavelets, with a cache of samples that    *)
(* may lose entries at any time.  Signals, wavelets and scales are abstract:    *)
(* a row is determined by the triple it was computed from.                     *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Wavelets, Scales, Signals, Bug
VARIABLES cache, out, req
vars == <<cache, out, req>>
Key(w, s) == CASE Bug = "keyWithoutScale" -> <<w>>
               [] Bug = "keyWithoutWavelet" -> <<s>>
               [] OTHER -> <<w, s>>
Nothing == [k \in {} |-> 0]
Init == cache = Nothing /\ out = <<>> /\ req = <<>>
\* a sample is the pair it was computed from and whether it has been rotated
Use(w, s) == IF Key(w, s) \in DOMAIN cache THEN cache[Key(w, s)] ELSE <<w, s, 0>>
One == \E x \in Signals, w \in Wavelets, s \in Scales :
    /\ req' = <<x, w, s>>
    /\ out' = <<x, Use(w, s)>>
    /\ \E keep \in SUBSET (DOMAIN cache) :
          cache' = [k \in keep \cup {Key(w, s)} |->
                      IF k = Key(w, s)
                      THEN (IF Bug = "rotatesCached" THEN <<Use(w, s)[1], Use(w, s)[2], 1>> ELSE Use(w, s))
                      ELSE cache[k]]
Next == One
Spec == Init /\ [][Next]_vars
ValueOfRequest == req # <<>> => out = <<req[1], <<req[2], req[3], 0>>>>
=============================================================================
