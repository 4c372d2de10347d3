----------------------------- MODULE CodecTrace -----------------------------
(* Encoding and decoding performed by the real parameter classes (C14).        *)
(* Nothing is assumed about which gene string stands for which value: the map   *)
(* is learned from the trace (dec: valid gene string -> value) and has to be a  *)
(* function and injective, of constant string length.                          *)
(*  Range : a new parameter (kind, bounds), with its chromosome size            *)
(*  Set   : v assigned (inside the bounds); bits read; decoded elsewhere: back; *)
(*          err = |back - v| in thousandths of the precision (0 / large for int)*)
(*  Dec   : bits decoded; value, constraint check, re-encoded bits              *)
EXTENDS Integers, TraceLib
VARIABLES size, dec, enc, kind, l
vars == <<size, dec, enc, kind, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == size = 0 /\ dec = [x \in {} |-> ""] /\ enc = [x \in {} |-> ""] /\ kind = "" /\ l = 1
Range0 == Is("Range") /\ Ev.ok /\ size' = Ev.size /\ kind' = Ev.kind
       /\ dec' = [x \in {} |-> ""] /\ enc' = [x \in {} |-> ""]
Learn(b, v) ==
    /\ b \in DOMAIN dec => dec[b] = v
    /\ v \in DOMAIN enc => enc[v] = b
    /\ dec' = IF b \in DOMAIN dec THEN dec ELSE (b :> v) @@ dec
    /\ enc' = IF v \in DOMAIN enc THEN enc ELSE (v :> b) @@ enc
Set == /\ Is("Set") /\ UNCHANGED <<size, kind>>
       /\ Ev.chk /\ Ev.backchk
       /\ Ev.size = size /\ Len(Ev.bits) = size
       /\ IF kind = "int" THEN Ev.back = Ev.v ELSE Ev.err <= 1000
       /\ Ev.again = Ev.bits
       /\ Learn(Ev.bits, Ev.back)
Dec == /\ Is("Dec") /\ UNCHANGED <<size, kind>>
       /\ Ev.size = size /\ Len(Ev.bits) = size
       /\ Ev.chk = Ev.in
       /\ IF Ev.chk THEN Ev.again = Ev.bits /\ Learn(Ev.bits, Ev.v)
          ELSE UNCHANGED <<dec, enc>>
\* a gene string of another length is refused and changes nothing
Bad == Is("Bad") /\ Ev.n # size /\ Ev.refused /\ Ev.same /\ UNCHANGED <<size, dec, enc, kind>>
Next == Range0 \/ Set \/ Dec \/ Bad
TSpec == Init /\ [][Next]_vars
=============================================================================
