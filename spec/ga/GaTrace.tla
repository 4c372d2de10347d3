------------------------------ MODULE GaTrace ------------------------------
(* Recorded runs of the real genetic algorithm, replayed on the notions of      *)
(* GaDefs.  Events (order in which they happened):                             *)
(*   Create  valid: sensible settings, made: an algorithm was returned          *)
(*   Run     a call of Optimize: n, elite, max, crit, cache, cb (observer set), *)
(*           min (asked to minimise), bad (its initial population is malformed),*)
(*           known/rows: the initial population it must start from             *)
(*   Eval    the objective applied to parameters with genes b, value f, v:      *)
(*           constraints satisfied, s: equal to what b decodes to, t: it throws *)
(*   Gen     what the observer is shown;  Pop: the population it saved          *)
(*   Ctx, Mut the mutation operator's context and calls                         *)
(*   End, Throw  the outcome of the run                                         *)
(* Checks: the properties to decide; conditions of others are not enforced.    *)
EXTENDS SelectDefs, TraceLib
CONSTANT Checks
VARIABLES st, l
vars == <<st, l>>
Ev == Trace[l]
Is(e) == l <= TraceLen /\ Ev.e = e /\ l' = l + 1
On(P) == P \cap Checks # {}
Empty == [x \in {} |-> 0]
Idle == [ph |-> "idle"]
Init == st = Idle /\ l = 1

Bits(rows) == [i \in DOMAIN rows |-> rows[i].b]
InRun == st.ph # "idle"

Create == Is("Create") /\ (On({"C12"}) => Ev.made = Ev.valid) /\ UNCHANGED st

Run == /\ Is("Run") /\ ~InRun
       /\ st' = [ph |-> "eval", r |-> Ev, g |-> 0, evs |-> <<>>, fits |-> Empty, best |-> -1,
                 pop |-> Ev.rows, known |-> Ev.known, thrown |-> FALSE, sum |-> -1,
                 prev |-> <<>>, pre |-> <<>>, muts |-> <<>>, cur |-> <<>>, ctx |-> FALSE, n |-> 0, rej |-> 0]

\* the mutation phase is over: the new generation's population is known
Complete(s) == Len(s.pre) = s.r.n /\ Len(s.muts) = s.r.n /\ s.cur = <<>>
AllEvaluated(s, p) == Members(p) \subseteq DOMAIN s.fits
Inherited(s) ==
    AllEvaluated(s, s.prev) =>
        /\ ElitePresent(s.pre, s.prev, s.fits, 2 * s.r.elite)
        /\ PairsFromParents(s.pre, s.prev)
Advance(s) == [s EXCEPT !.ph = "eval", !.g = s.g + 1, !.evs = <<>>, !.pop = s.muts, !.known = TRUE]
InEval == IF st.ph = "mut" THEN Advance(st) ELSE st
MayAdvance ==
    st.ph = "mut" =>
        /\ On({"C11"}) => (Complete(st) /\ Inherited(st)) = TRUE
        /\ On({"C12"}) => ~Stopped(st.g, st.r.max, st.best, st.r.crit)

\* a generation has been counted; e: the genes evaluated for it
Counted(s) == [s EXCEPT !.ph = "counted", !.n = s.n + 1,
                 !.pop = IF s.known THEN s.pop ELSE s.evs,
                 !.known = s.known \/ Len(s.evs) = s.r.n,
                 !.prev = <<>>, !.pre = <<>>, !.muts = <<>>, !.cur = <<>>, !.ctx = FALSE, !.rej = 0]
CountOK(s) ==
    /\ On({"C11", "C12"}) => /\ Len(s.evs) <= s.r.n
                             /\ ~s.r.cache => Len(s.evs) = s.r.n
    /\ On({"C08", "C10"}) => /\ s.known => Members(s.evs) \subseteq Members(s.pop)
                             /\ s.known => AllEvaluated(s, s.pop)
                             /\ s.known /\ ~s.r.cache => SameBag(s.evs, s.pop)
    \* the first generation is the given one
    /\ On({"C13"}) => ((s.g = 0 /\ s.known) => (AllEvaluated(s, s.pop) /\ Members(s.evs) = Members(s.pop)))
    /\ On({"C08"}) => ~s.thrown

Eval ==
    /\ Is("Eval") /\ InRun
    /\ On({"C10"}) => Ev.v /\ Ev.s
    /\ On({"C13"}) => ~st.r.bad
    /\ On({"C12"}) => ~st.r.min
    /\ MayAdvance
    /\ On({"C12"}) => st.ph # "counted"
    /\ LET s == InEval IN
       IF Ev.t THEN st' = [s EXCEPT !.thrown = TRUE]
       ELSE LET a == [s EXCEPT !.evs = Append(s.evs, Ev.b),
                               !.fits = [x \in DOMAIN s.fits \cup {Ev.b} |-> IF x = Ev.b THEN Ev.f ELSE s.fits[x]],
                               !.best = IF Ev.f > s.best THEN Ev.f ELSE s.best]
            IN  IF ~s.r.cb /\ Len(a.evs) = s.r.n /\ ~a.thrown
                THEN CountOK(a) /\ st' = Counted(a)
                ELSE st' = a

\* what is told about the individuals this generation was bred from
Told(s) ==
    LET n == s.r.n
        pairs == n \div 2 - Min2(s.r.elite, n \div 2)
        fits == [i \in 1..n |-> s.fits[s.prev[i]]]
        drawn == ChosenFitness(Ev.stats)
    IN  (Len(s.prev) = n /\ AllEvaluated(s, s.prev)) =>
            /\ StatsTell(Ev.stats, fits, pairs + Ev.inv - s.rej)
            /\ Ev.inv >= s.rej
            /\ Cardinality({i \in 1..(n \div 2) :
                   \E p, q \in {x \in Members(s.prev) : s.fits[x] \in drawn} :
                       IsExchange(s.pre[2 * i - 1], s.pre[2 * i], p, q)}) >= pairs

Gen ==
    /\ Is("Gen") /\ InRun
    /\ MayAdvance
    /\ On({"C12"}) => st.ph # "counted"
    /\ LET s == InEval IN
       /\ CountOK(s)
       /\ On({"C12"}) => /\ Ev.g = s.g
                         /\ Ev.hits = s.r.n - Len(s.evs)
                         /\ s.known /\ AllEvaluated(s, s.pop) => Ev.sum = SumOver(s.fits, s.pop)
                         /\ Ev.best = s.best
                         /\ Ev.bb \in DOMAIN s.fits /\ s.fits[Ev.bb] = Ev.best
       /\ On({"C09"}) => /\ Ev.best = s.best
                         /\ Ev.bb \in DOMAIN s.fits /\ s.fits[Ev.bb] = Ev.best
       /\ On({"C08"}) => (Ev.bb \in DOMAIN s.fits => s.fits[Ev.bb] = Ev.best)
       /\ On({"C10"}) => Ev.bv /\ Ev.bs
       /\ On({"C35"}) => ((s.g > 0 /\ Len(s.pre) = s.r.n) => Told(s)) = TRUE
       /\ st' = [Counted(s) EXCEPT !.sum = Ev.sum]

Pop ==
    /\ Is("Pop") /\ InRun
    /\ On({"C11", "C13"}) => Len(Ev.rows) = st.r.n
    /\ On({"C13"}) => (st.known => SameBag(Bits(Ev.rows), st.pop))
    /\ On({"C08"}) => \A i \in DOMAIN Ev.rows : Ev.rows[i].b \in DOMAIN st.fits => Ev.rows[i].f = st.fits[Ev.rows[i].b]
    /\ On({"C08"}) => \A i \in DOMAIN Ev.rows : Ev.rows[i].b \in DOMAIN st.fits
    /\ On({"C10"}) => \A i \in DOMAIN Ev.rows : Ev.rows[i].v
    /\ On({"C12"}) => (AllEvaluated(st, Bits(Ev.rows)) => st.sum = SumOver(st.fits, Bits(Ev.rows)))
    /\ st' = IF st.known THEN st ELSE [st EXCEPT !.pop = Bits(Ev.rows), !.known = TRUE]

Ctx ==
    /\ Is("Ctx") /\ InRun
    /\ On({"C21"}) => st.ph = "counted" /\ Ev.g = st.g /\ Ev.max = st.r.max
    /\ st' = [st EXCEPT !.ctx = TRUE]

Mut ==
    /\ Is("Mut") /\ InRun
    /\ LET s == IF st.ph = "counted"
                THEN [st EXCEPT !.ph = "mut", !.prev = IF st.known THEN st.pop ELSE <<>>,
                                !.rej = IF Ev.ov THEN 0 ELSE 1]
                ELSE [st EXCEPT !.rej = @ + IF Ev.ov THEN 0 ELSE 1]
       IN  /\ On({"C11", "C12"}) => s.ph = "mut"
           /\ On({"C12"}) => ~ s.best >= s.r.crit
           /\ On({"C21"}) => s.ctx /\ Len(Ev.out) = Len(Ev.in)
           /\ IF s.cur = <<>>
              THEN /\ On({"C10"}) => Ev.iv
                   /\ On({"C11"}) => Len(s.pre) < s.r.n
                   /\ st' = [s EXCEPT !.pre = Append(s.pre, Ev.in),
                                      !.muts = IF Ev.ov THEN Append(s.muts, Ev.out) ELSE s.muts,
                                      !.cur = IF Ev.ov THEN <<>> ELSE <<Ev.in, Ev.out>>]
              ELSE /\ On({"C10"}) => Ev.in \in Members(s.cur)
                   /\ st' = [s EXCEPT !.muts = IF Ev.ov THEN Append(s.muts, Ev.out) ELSE s.muts,
                                      !.cur = IF Ev.ov THEN <<>> ELSE <<s.cur[1], Ev.out>>]

End ==
    /\ Is("End") /\ InRun
    /\ On({"C13"}) => ~st.r.bad
    /\ On({"C08"}) => ~st.thrown
    /\ On({"C12"}) => /\ ~st.r.min
                      /\ st.ph \in {"counted", "mut"}
                      /\ Stopped(st.g, st.r.max, st.best, st.r.crit)
    /\ On({"C09"}) => Ev.b \in DOMAIN st.fits /\ st.fits[Ev.b] = st.best
    /\ On({"C10"}) => Ev.v /\ Ev.s
    /\ st' = Idle

Throw ==
    /\ Is("Throw") /\ InRun
    /\ On({"C08", "C12", "C13"}) => st.thrown \/ st.r.bad \/ st.r.min
    /\ On({"C13"}) => (st.r.bad => st.n = 0 /\ st.evs = <<>>)
    /\ On({"C12"}) => (st.r.min => st.n = 0 /\ st.evs = <<>>)
    /\ st' = Idle

\* parameters, or a function, of another kind are refused
Foreign == /\ Is("Foreign") /\ UNCHANGED st
           /\ On({"C12"}) => Ev.parameters /\ Ev.function /\ Ev.direct /\ Ev.evals = 0
Next == Create \/ Foreign \/ Run \/ Eval \/ Gen \/ Pop \/ Ctx \/ Mut \/ End \/ Throw
TSpec == Init /\ [][Next]_vars
=============================================================================
