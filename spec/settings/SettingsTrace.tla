---------------------------- MODULE SettingsTrace ----------------------------
(* Sequences of operations on real settings objects, every reading judged.        *)
EXTENDS SettingsDefs, TraceLib
VARIABLES t, l
vars == <<t, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
Init == t = Empty /\ l = 1
RECURSIVE WriteAll(_, _, _)
WriteAll(a, ws, i) == IF i > Len(ws) THEN a ELSE WriteAll(Write(a, ws[i].p, ws[i].v), ws, i + 1)
New == Is("New") /\ t' = WriteAll(Empty, Ev.sets, 1)
Args == Is("Args") /\ t' = WriteAll(t, Ev.sets, 1)
File == Is("File") /\ t' = (IF Ev.ok THEN WriteAll(Empty, Ev.sets, 1) ELSE t) /\ Ev.ok = Ev.good
\* ok: what the operation told its caller; good: whether the harness' file/value is well-formed
Put == Is("Put") /\ Ev.ok = Ev.good /\ t' = (IF Ev.good THEN Write(t, Ev.p, Ev.v) ELSE t)
Table(ty) == CASE ty = "int" -> IntOf [] ty = "bool" -> BoolOf [] OTHER -> HalvesOf
Readable(ty, p) == Present(t, p) /\ (ty # "string" => t[p] \in DOMAIN Table(ty))
Value(ty, p) == IF ty = "string" THEN t[p] ELSE Table(ty)[t[p]]
Get == /\ Is("Get") /\ UNCHANGED t
       /\ IF Readable(Ev.ty, Ev.p) THEN Ev.got = "value" /\ Ev.v = Value(Ev.ty, Ev.p)
          ELSE IF Ev.hasdef THEN Ev.got = "value" /\ Ev.v = Ev.def
          ELSE Ev.got = "refused"
Tree(s) == [p \in {x.p : x \in Range(s)} |-> (CHOOSE x \in Range(s) : x.p = p).v]
Merge == /\ Is("Merge") /\ UNCHANGED t
         /\ Ev.ok /\ Len(Ev.m) = Cardinality({x.p : x \in Range(Ev.m)})
         /\ Tree(Ev.m) = MergeLaw(Tree(Ev.a), Tree(Ev.b))
Next == New \/ Args \/ File \/ Put \/ Get \/ Merge
TSpec == Init /\ [][Next]_vars
=============================================================================
