------------------------------- MODULE MutTrace -------------------------------
(* Calls of the real mutation operators with a scripted generator.               *)
(*  Make   kind, valid arguments, ok: constructed                                *)
(*  Linear probability at generation g of max from a/D to b/D: num is it times    *)
(*         D (max-1) (D if max <= 1), near an integer; inside: between a/D and    *)
(*         b/D; flips of `genes` genes at evenly spread outputs                  *)
(*  Flip   a flip-bit operator of probability 1/inv (floor), the positions in the *)
(*         sequence of all genes it was shown where it flipped, total genes       *)
(*  Gaps   distinct distances between flips over many outputs                    *)
(*  Reach  a small probability and about 500 flips: least and greatest distance    *)
(*         (of 500 even draws all miss an end's tenth with probability 10^-23)    *)
EXTENDS Integers, TraceLib
VARIABLES l
vars == <<l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == l = 1
Make == Is("Make") /\ Ev.ok = Ev.valid
Num(a, b, g, max) == IF max <= 1 THEN a ELSE a * (max - 1) + (b - a) * g
Den(d, max) == IF max <= 1 THEN d ELSE d * (max - 1)
Linear == /\ Is("Linear") /\ Ev.near /\ Ev.inside
          /\ LET p == Num(Ev.a, Ev.b, Ev.g, Ev.max)
                 q == Den(Ev.d, Ev.max)
             IN  /\ Ev.num = p
                 /\ Ev.len = Ev.genes
                 \* where rounding leaves 10^-16 of the schedule's last value, the generator's end may tell
                 /\ p = 0 => (Ev.flips = 0 \/ (Ev.flips = 1 /\ ~Ev.sure))
                 /\ p = q => (Ev.flips = Ev.genes \/ (Ev.flips = Ev.genes - 1 /\ ~Ev.sure))
                 /\ (p = 0 /\ (Ev.g = 0 \/ Ev.a = Ev.b)) => Ev.sure
                 /\ (p = q /\ (Ev.g = 0 \/ Ev.a = Ev.b)) => Ev.sure
                 /\ Ev.flips * q <= p * Ev.genes + 3 * q
                 /\ Ev.flips * q >= p * Ev.genes - 3 * q
Flip == /\ Is("Flip") /\ Ev.len
        /\ Ev.at # <<>> => Ev.at[1] <= Ev.inv
        /\ \A i \in 1..(Len(Ev.at) - 1) : Ev.at[i + 1] - Ev.at[i] \in 1..Ev.inv
        /\ Ev.total - (IF Ev.at = <<>> THEN 0 ELSE Ev.at[Len(Ev.at)]) < Ev.inv
Gaps == Is("Gaps") /\ Range(Ev.gaps) = 1..Ev.inv
Reach == Is("Reach") /\ Ev.most <= Ev.inv /\ 10 * Ev.most >= 9 * Ev.inv /\ 10 * Ev.least <= Ev.inv + 10
         /\ Ev.flips * Ev.inv >= Ev.genes - Ev.inv /\ Ev.flips * Ev.inv <= 3 * Ev.genes
Next == Make \/ Linear \/ Flip \/ Gaps \/ Reach
TSpec == Init /\ [][Next]_vars
=============================================================================
