------------------------------ MODULE Transfer ------------------------------
(* What travels between the master and the workers (property C30).            *)
(* A task is a function, parameters, an optimiser with two settings and a     *)
(* direction; it is sent field by field over a FIFO channel that knows only   *)
(* the type of a field, received field by field into a copy of a prototype,   *)
(* performed, and the found parameters travel back the same way: their kind   *)
(* first (polled for by the master), then their value (received at once).     *)
(* A distributed run must give what performing every task in place gives.     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NW, NT, Bug
Workers == 1..NW
Tasks == 1..NT
\* the settings of the prototypes the receivers start from
Proto == [fn |-> "f", par |-> 0, s1 |-> 0, s2 |-> 0, max |-> FALSE]

VARIABLES
    task,    \* what the user asked for
    next,    \* the next task to send
    down,    \* per worker: fields on their way to it
    up,      \* per worker: fields on their way back
    given,   \* per worker: the task it is busy with, 0: none
    wpc,     \* per worker: how many fields it has received (99: performed)
    held,    \* per worker: the task as received so far
    proto,   \* per worker: its prototype
    mpc,     \* per worker: "id" "value": what the master waits for from it
    res,     \* per task: the outcome, <<>>: none yet
    done     \* what the workers performed: set of <<task number, task as performed>>
vars == <<task, next, down, up, given, wpc, held, proto, mpc, res, done>>

Outcome(t) == [par |-> t.par * 10 + t.s1 * 4 + t.s2, max |-> t.max]   \* any injective function

Opts == {<<1, 2>>, <<2, 1>>, <<1, 1>>}
Init ==
    /\ task \in [Tasks -> {[fn |-> "f", par |-> p, s1 |-> o[1], s2 |-> o[2], max |-> m] :
                             p \in 1..2, o \in Opts, m \in BOOLEAN}]
    /\ next = 1
    /\ down = [w \in Workers |-> <<>>] /\ up = [w \in Workers |-> <<>>]
    /\ given = [w \in Workers |-> 0] /\ wpc = [w \in Workers |-> 0]
    /\ held = [w \in Workers |-> Proto] /\ proto = [w \in Workers |-> Proto]
    /\ mpc = [w \in Workers |-> "id"]
    /\ res = [t \in Tasks |-> <<>>] /\ done = {}

F(type, v) == [type |-> type, v |-> v]
Fields(t) == << F("id", t.fn), F("vec", t.par),
                F("num", IF Bug = "swapped" THEN t.s2 ELSE t.s1),
                F("num", IF Bug = "swapped" THEN t.s1 ELSE t.s2) >>
             \o (IF Bug = "noDirection" THEN <<>> ELSE << F("flag", t.max) >>)
NF == IF Bug = "noDirection" THEN 4 ELSE 5

Send(w) ==
    /\ next <= NT /\ given[w] = 0
    /\ given' = [given EXCEPT ![w] = next]
    /\ down' = [down EXCEPT ![w] = @ \o Fields(task[next])]
    /\ next' = next + 1
    /\ UNCHANGED <<task, up, wpc, held, proto, mpc, res, done>>

Recv(w) ==
    /\ wpc[w] < NF /\ down[w] # <<>>
    /\ LET f == Head(down[w]) IN
       /\ held' = [held EXCEPT ![w] =
            CASE wpc[w] = 0 -> [proto[w] EXCEPT !.fn = f.v]
              [] wpc[w] = 1 -> [@ EXCEPT !.par = f.v]
              [] wpc[w] = 2 -> [@ EXCEPT !.s1 = f.v]
              [] wpc[w] = 3 /\ Bug # "notRead" -> [@ EXCEPT !.s2 = f.v]
              [] wpc[w] = 3 /\ Bug = "notRead" -> @
              [] OTHER -> [@ EXCEPT !.max = f.v]]
       /\ down' = [down EXCEPT ![w] = IF wpc[w] = 3 /\ Bug = "notRead" THEN @ ELSE Tail(@)]
    /\ wpc' = [wpc EXCEPT ![w] = @ + 1]
    /\ UNCHANGED <<task, next, up, given, proto, mpc, res, done>>

Perform(w) ==
    /\ wpc[w] = NF
    /\ done' = done \cup {<<given[w], held[w]>>}
    /\ LET o == Outcome(held[w])
           o2 == IF Bug = "answersStart" THEN [o EXCEPT !.par = held[w].par] ELSE o IN
       up' = [up EXCEPT ![w] = @ \o << F("id", "p"), F("vec", o2) >>]
    /\ wpc' = [wpc EXCEPT ![w] = 0]
    /\ UNCHANGED <<task, next, down, given, held, proto, mpc, res>>

\* the master sees that the kind has arrived ...
GotId(w) ==
    /\ given[w] # 0 /\ mpc[w] = "id" /\ up[w] # <<>>
    /\ up' = [up EXCEPT ![w] = Tail(@)]
    /\ mpc' = [mpc EXCEPT ![w] = "value"]
    /\ UNCHANGED <<task, next, down, given, wpc, held, proto, res, done>>
\* ... and receives the value
GotValue(w) ==
    /\ mpc[w] = "value"
    /\ \E v \in (IF Bug = "anySource" THEN Workers ELSE {w}) :
       /\ up[v] # <<>>
       /\ Head(up[v]).type = "vec" \/ Bug # "anySource"
       /\ res' = [res EXCEPT ![given[w]] = Head(up[v]).v]
       /\ up' = [up EXCEPT ![v] = Tail(@)]
    /\ mpc' = [mpc EXCEPT ![w] = "id"]
    /\ given' = [given EXCEPT ![w] = 0]
    /\ UNCHANGED <<task, next, down, wpc, held, proto, done>>

Finished == next > NT /\ \A w \in Workers : given[w] = 0
Next == \E w \in Workers : Send(w) \/ Recv(w) \/ Perform(w) \/ GotId(w) \/ GotValue(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every field is read as what it was sent as
Typed == \A w \in Workers : down[w] # <<>> /\ wpc[w] < NF =>
    Head(down[w]).type = << "id", "vec", "num", "num", "flag" >>[wpc[w] + 1]
PerformedAsGiven == \A d \in done : d[2] = task[d[1]]
Right == \A t \in Tasks : res[t] # <<>> => res[t] = Outcome(task[t])
NothingLeft == Finished => \A w \in Workers : down[w] = <<>> /\ up[w] = <<>> /\ wpc[w] = 0
AllDone == Finished => \A t \in Tasks : res[t] # <<>>
Ends == <>Finished
=============================================================================
