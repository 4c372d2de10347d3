-------------------------------- MODULE Bits --------------------------------
(* Random booleans taken one after the other from the Bits bits of a generator's *)
(* outputs: every boolean is a bit of its own of an output of its own draw.      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bits, Batches, Bug
VARIABLES draw, pos, used
vars == <<draw, pos, used>>
Limit == IF Bug = "reusesBits" THEN Bits + 1 ELSE Bits
Init == draw = 0 /\ pos = Limit /\ used = <<>>
Bool == /\ Len(used) < Batches * Bits + 2
        /\ IF pos >= Limit
           THEN draw' = draw + 1 /\ pos' = 1 /\ used' = Append(used, <<draw + 1, 0>>)
           ELSE draw' = draw /\ pos' = pos + 1
                /\ used' = Append(used, <<draw, IF pos >= Bits THEN 0 ELSE pos>>)
Spec == Init /\ [][Bool]_vars
Once == \A i, j \in DOMAIN used : (used[i] = used[j]) => (i = j)
AllBits == \A d \in 1..(draw - 1) : \A b \in 0..(Bits - 1) : \E i \in DOMAIN used : used[i] = <<d, b>>
=============================================================================
