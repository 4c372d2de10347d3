----------------------------- MODULE StoreTrace -----------------------------
(* Histories of operations on a store of real parameter objects (C14-C16):     *)
(* after every operation all live objects are observed.  Observation o:        *)
(*   kind I integer, D real, A array of reals, V unbounded array, C composite,  *)
(*        U a composite not initialised yet                                     *)
(*   val  values held, chk what CheckConstraints says, in whether the values    *)
(*        held are inside the bounds, size and bits of the chromosome, parts    *)
(*        the components of a composite                                         *)
EXTENDS Integers, TraceLib, SequencesExt
VARIABLES st, l
vars == <<st, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == st = [i \in {} |-> 0] /\ l = 1

Obs(i) == Ev.all[CHOOSE k \in DOMAIN Ev.all : Ev.all[k].id = i].o
Seen == {Ev.all[k].id : k \in DOMAIN Ev.all}
Observed == [i \in Seen |-> Obs(i)]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN "" ELSE Head(s).bits \o Concat(Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).size + Sum(Tail(s))

\* what every observation satisfies
RECURSIVE Consistent(_)
Consistent(o) ==
    CASE o.kind = "I" -> o.chk = o.in /\ Len(o.bits) = o.size
      [] o.kind = "D" -> (o.chk => o.in) /\ Len(o.bits) = o.size
      [] o.kind = "A" -> (o.chk => o.in) /\ Len(o.bits) = o.size
      [] o.kind = "V" -> o.chk
      [] o.kind = "U" -> o.used = ""          \* every use is refused
      [] OTHER -> /\ o.n = Len(o.parts)
                  /\ \A i \in DOMAIN o.parts : Consistent(o.parts[i])
                  /\ o.size = Sum(o.parts)
                  /\ o.bits = Concat(o.parts)
                  /\ o.chk = (\A i \in DOMAIN o.parts : o.parts[i].chk)
                  /\ o.beyond                 \* component n is out of range
AllConsistent == \A i \in Seen : Consistent(Observed[i])

\* only object i may change, to o
Frame(i) == /\ Seen = DOMAIN st
            /\ \A j \in Seen \ {i} : Observed[j] = st[j]
            /\ AllConsistent
            /\ st' = Observed
Same == Seen = DOMAIN st /\ Observed = st /\ UNCHANGED st
Added(i) == /\ i \notin DOMAIN st /\ Seen = DOMAIN st \cup {i}
            /\ \A j \in DOMAIN st : Observed[j] = st[j]
            /\ AllConsistent
            /\ st' = Observed

\* construction: valid arguments give an object holding the wanted value
NewObj ==
    /\ Is("New")
    /\ Ev.ok = Ev.valid
    /\ IF ~Ev.ok THEN Same
       ELSE /\ Added(Ev.id)
            /\ LET o == Observed[Ev.id] IN
               /\ o.kind = Ev.kind
               /\ o.kind = "I" => o.val = Ev.want
               /\ o.kind = "D" => o.chk /\ Ev.err <= 1000
               /\ o.kind = "A" => o.chk
               /\ o.kind = "V" => o.val = Ev.want

\* assignment of Ev.want to a simple object: o before, p after, done or refused
Assigned(o, p, ok) ==
    CASE o.kind = "I" -> ok /\ p.val = Ev.want /\ p.chk = Ev.inb /\ p.size = o.size
      [] o.kind = "D" -> /\ ok /\ p.size = o.size
                         /\ Ev.inb => p.chk /\ Ev.err <= 1000
                         /\ Ev.far => ~p.chk
      [] o.kind = "A" -> /\ ok = (Ev.inb /\ Len(Ev.want) = Len(o.val))
                         /\ IF ok THEN p.val = Ev.want /\ p.chk /\ p.size = o.size ELSE p = o
      [] o.kind = "V" -> /\ ok = (Len(Ev.want) = Len(o.val))
                         /\ IF ok THEN p.val = Ev.want ELSE p = o
      [] OTHER -> FALSE
SetObj == Is("Set") /\ Frame(Ev.id) /\ Assigned(st[Ev.id], Observed[Ev.id], Ev.ok)

\* through the component handed out by a composite
SetPart ==
    /\ Is("SetPart") /\ Frame(Ev.id)
    /\ LET o == st[Ev.id]
           p == Observed[Ev.id]
       IN  IF Ev.at > Len(o.parts) THEN ~Ev.ok /\ p = o
           ELSE /\ Len(p.parts) = Len(o.parts)
                /\ \A i \in DOMAIN o.parts : i # Ev.at => p.parts[i] = o.parts[i]
                /\ Assigned(o.parts[Ev.at], p.parts[Ev.at], Ev.ok)

\* decoding: p's valid parts carry exactly the genes given
RECURSIVE Carries(_, _, _)
Carries(o, p, bits) ==
    /\ p.kind = o.kind /\ p.size = o.size
    /\ IF o.kind = "C"
       THEN /\ Len(p.parts) = Len(o.parts)
            /\ \A i \in DOMAIN o.parts :
                  LET from == Sum(SubSeq(o.parts, 1, i - 1))
                  IN  Carries(o.parts[i], p.parts[i], SubSeq(bits, from + 1, from + o.parts[i].size))
       ELSE /\ p.chk => p.bits = bits
            /\ p.chk = p.in
Decode ==
    /\ Is("Dec") /\ Frame(Ev.id)
    /\ LET o == st[Ev.id]
           p == Observed[Ev.id]
       IN  IF o.kind = "U" \/ Len(Ev.bits) # o.size THEN ~Ev.ok /\ p = o
           ELSE Ev.ok /\ Carries(o, p, Ev.bits)

\* writing into a buffer of another length is refused, the buffer is untouched
BadEnc == Is("BadEnc") /\ ~Ev.ok /\ Ev.untouched /\ Same

Clone ==
    /\ Is("Clone")
    /\ IF st[Ev.id].kind = "U" THEN ~Ev.ok /\ Same
       ELSE /\ Ev.ok /\ Added(Ev.new)
            /\ Observed[Ev.new] = st[Ev.id]
            /\ Ev.meta                      \* same bounds and representation

\* used at the same time in two threads, objects do not disturb each other
Both == Is("Both") /\ Same /\ Ev.ok

\* meta-parameters compared: equal exactly when the construction parameters are
Meta == Is("Meta") /\ Same /\ Ev.r = Ev.expected

\* initialisation of a composite with the listed objects (clones of them)
InitComp ==
    /\ Is("Init")
    /\ IF st[Ev.id].kind # "U"
       THEN ~Ev.ok /\ Same
       ELSE /\ Ev.ok /\ Frame(Ev.id)
            /\ Observed[Ev.id].kind = "C"
            /\ Len(Observed[Ev.id].parts) = Len(Ev.from)
            /\ \A i \in DOMAIN Ev.from : Observed[Ev.id].parts[i] = st[Ev.from[i]]
Drop == Is("Drop") /\ Seen = DOMAIN st \ {Ev.id} /\ Observed = [j \in Seen |-> st[j]] /\ st' = Observed
Reset == Is("Reset") /\ st' = [i \in {} |-> 0]

Next == NewObj \/ SetObj \/ SetPart \/ Decode \/ BadEnc \/ Clone \/ Both \/ Meta \/ InitComp \/ Drop \/ Reset
TSpec == Init /\ [][Next]_vars
=============================================================================
