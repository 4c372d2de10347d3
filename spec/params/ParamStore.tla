----------------------------- MODULE ParamStore -----------------------------
(* A store of parameter objects (C15, C16): bounded integers "I", arrays of    *)
(* bounded values "A" (assignment refused when out of bounds) and composites   *)
(* "C" of integers (two-state: not initialised / initialised).  Operations:    *)
(* assign, decode, clone, initialise, each either performed or refused.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ids, Hi, Vals0, Bug
\* every value has bounds 0..Hi; Vals (Vals0 minus 1) are the values tried (some outside)
Vals == {v - 1 : v \in Vals0}
Width == IF Hi = 0 THEN 0 ELSE IF Hi < 2 THEN 1 ELSE IF Hi < 4 THEN 2 ELSE 3
In(v) == v >= 0 /\ v <= Hi
Codes == 0..(2^Width - 1)
None == [k |-> "none"]
VARIABLES obj,   \* id -> object
          refused, last
vars == <<obj, refused, last>>

IntObj(v) == [k |-> "I", v |-> v]
ArrObj(s) == [k |-> "A", v |-> s]
CompObj(s) == [k |-> "C", init |-> s # <<>>, v |-> s]    \* <<>>: not initialised

Satisfied(o) == IF o.k = "I" THEN In(o.v) ELSE \A i \in DOMAIN o.v : In(o.v[i])

Init == obj = [i \in Ids |-> None] /\ refused = FALSE /\ last = 0

Do(i, o) == obj' = [obj EXCEPT ![i] = o] /\ refused' = FALSE /\ last' = i
Refuse(i, o) == obj' = [obj EXCEPT ![i] = IF Bug = "refusalWrites" THEN o ELSE @]
                /\ refused' = TRUE /\ last' = i

NewI(i) == obj[i] = None /\ \E v \in Vals : Do(i, IntObj(v))
NewA(i) == obj[i] = None /\ Do(i, ArrObj(IF Bug = "startOutside" THEN <<-1, -1>> ELSE <<0, 0>>))
NewC(i) == obj[i] = None /\ Do(i, CompObj(<<>>))
SetI(i) == obj[i].k = "I" /\ \E v \in Vals : Do(i, IntObj(v))
SetA(i) == obj[i].k = "A" /\ \E a, b \in Vals :
    IF In(a) /\ In(b) THEN Do(i, ArrObj(<<a, b>>)) ELSE Refuse(i, ArrObj(<<a, b>>))
DecI(i) == obj[i].k = "I" /\ \E c \in Codes : Do(i, IntObj(c))
DecC(i) == obj[i].k = "C" /\ \E a, b \in Codes :
    IF obj[i].init THEN Do(i, [obj[i] EXCEPT !.v = <<a, b>>]) ELSE Refuse(i, obj[i])
InitC(i) == obj[i].k = "C" /\ \E j, m \in Ids :
    /\ obj[j].k = "I" /\ obj[m].k = "I"
    /\ IF obj[i].init THEN Refuse(i, CompObj(<<obj[j].v, obj[m].v>>))
       ELSE Do(i, CompObj(<<obj[j].v, obj[m].v>>))
\* assignment through the component handed out by a composite
SetPart(i) == obj[i].k = "C" /\ \E p \in 1..2, v \in Vals :
    IF obj[i].init THEN Do(i, [obj[i] EXCEPT !.v[p] = v]) ELSE Refuse(i, obj[i])
Clone(i) == obj[i] # None /\ \E j \in Ids : obj[j] = None /\
    IF obj[i].k = "C" /\ ~obj[i].init THEN Refuse(i, obj[i])
    ELSE Do(j, obj[i])
Drop(i) == obj[i] # None /\ Do(i, None)
Next == \E i \in Ids : NewI(i) \/ NewA(i) \/ NewC(i) \/ SetI(i) \/ SetA(i) \/ DecI(i)
                    \/ DecC(i) \/ InitC(i) \/ SetPart(i) \/ Clone(i) \/ Drop(i)
Spec == Init /\ [][Next]_vars

\* an array can never hold a value outside its bounds
ArraysInside == \A i \in Ids : obj[i].k = "A" => Satisfied(obj[i])
RefusalFrame == [][refused' => obj' = obj]_vars
OthersFrame == [][\A i \in Ids : i # last' => obj'[i] = obj[i]]_vars
OnceInit == [][\A i \in Ids : (obj[i].k = "C" /\ obj'[i].k = "C" /\ obj[i].init) => obj'[i].init]_vars
=============================================================================
