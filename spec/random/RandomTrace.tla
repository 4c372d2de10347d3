----------------------------- MODULE RandomTrace -----------------------------
(* Draws of the real random source from a scripted generator.                    *)
(*  Range  draws from [lo, hi] at generator outputs covering the ends, small      *)
(*         numbers and an even spread: vals the distinct values minus lo (for     *)
(*         ranges of n <= 64 values), in: all inside                             *)
(*  Real   real draws: in: all inside;  len/want: size of a random vector         *)
(*  Event  an event of probability p/1000 over N evenly spread outputs: yes times *)
(*  Prob   a probability outside [0, 1]: refused                                 *)
(*  Word   the booleans taken from one generator output (as a string); flips:     *)
(*         the same with each single bit of the output changed                   *)
(*  Sequence  outputs (named by ids) one after another, with repetitions: the       *)
(*         booleans each of them decided depend on that output only               *)
(*  Vector a long random vector of the range [-3, 5]: its components are drawn     *)
(*         independently, so (but for a chance of 2^-31 per pair) all differ; a    *)
(*         very long one reaches every eighth of the range                         *)
EXTENDS Integers, TraceLib, FiniteSets
VARIABLES l
vars == <<l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == l = 1
Rng == /\ Is("Range") /\ Ev.in
       /\ Ev.n <= 64 => Range(Ev.vals) = 0..(Ev.n - 1)
       /\ Ev.n = 0 => TRUE
Real == Is("Real") /\ Ev.in /\ Ev.len = Ev.want
Event == /\ Is("Event")
         /\ Ev.p = 0 => Ev.yes = 0
         /\ Ev.p = 1000 => Ev.yes = Ev.n
         /\ Ev.yes * 1000 <= Ev.p * Ev.n + 2000 /\ Ev.yes * 1000 >= Ev.p * Ev.n - 2000
Prob == Is("Prob") /\ Ev.refused = ~Ev.valid
Differ(s, t) == {i \in 1..Len(s) : SubSeq(s, i, i) # SubSeq(t, i, i)}
Word == /\ Is("Word")
        /\ Len(Ev.bools) >= 1 /\ Len(Ev.bools) <= 31
        /\ \A k \in DOMAIN Ev.flips : Len(Ev.flips[k]) = Len(Ev.bools)
        \* a bit of the output decides at most one boolean, every boolean is decided by one bit
        /\ \A k \in DOMAIN Ev.flips : Cardinality(Differ(Ev.bools, Ev.flips[k])) <= 1
        /\ \A i \in 1..Len(Ev.bools) : \E k \in DOMAIN Ev.flips : Differ(Ev.bools, Ev.flips[k]) = {i}
Sequence == /\ Is("Sequence")
            /\ Len(Ev.bools) = Len(Ev.ids)
            /\ \A i, k \in DOMAIN Ev.ids : Ev.ids[i] = Ev.ids[k] => Ev.bools[i] = Ev.bools[k]
Vector == /\ Is("Vector")
          /\ Ev.len = Ev.want
          /\ Ev.distinct >= Ev.want - 1
          /\ Range(Ev.parts) \subseteq 0..8
          /\ Ev.want >= 300 => 0..7 \subseteq Range(Ev.parts)
Next == Sequence \/ Vector \/ Rng \/ Real \/ Event \/ Prob \/ Word
TSpec == Init /\ [][Next]_vars
=============================================================================
