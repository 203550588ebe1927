---------------------------- MODULE WasmSessions ----------------------------
(***************************************************************************)
(* Several decodings at once.  Every session has a machine and an input of *)
(* its own; a schedule lets them take turns.  In its turn a session        *)
(* consumes some bytes (the end of the input counts as one more), and a    *)
(* turn may end with its reader giving up the session altogether (it       *)
(* panics), or failing.  Independent says that a session is always where   *)
(* its own bytes alone put it.                                             *)
(*                                                                         *)
(* Each maximal behaviour is a schedule to be carried out by the           *)
(* implementation: on threads that take turns, and, if the turns nest      *)
(* properly, on a single thread whose readers decode the other inputs.     *)
(* After MaxTurns the sessions are finished one after the other.           *)
(***************************************************************************)
EXTENDS WasmDecoder, Integers

CONSTANTS Groups, MaxTurns, FreeTurns, Endings

\* sess: the machines; sched: the turns <<session, bytes, ending>>;
\* open: the sessions begun and not finished, outermost first;
\* nests: no session has been resumed from within another
VARIABLES group, sess, sched, open, nests, gone
vars == << group, sess, sched, open, nests, gone >>

Sessions == 1 .. Len(group)
LeftOf(s) == Len(group[s]) - sess[s].pos

Init == /\ group \in Groups
        /\ sess = [s \in 1 .. Len(group) |-> Start]
        /\ sched = << >> /\ open = << >> /\ nests = TRUE /\ gone = {}

Alive(s) == Running(sess[s]) /\ s \notin gone
LastTurn == sched[Len(sched)][1]

\* an ending: "" the turn is over, "panic" the reader panics, else it fails
Consumed(s, k) == FeedAll(sess[s], SubSeq(group[s], sess[s].pos + 1, sess[s].pos + k), 1)
AfterTurn(s, k, e) ==
  IF k > LeftOf(s) THEN LET c == Consumed(s, LeftOf(s)) IN IF Running(c) THEN Eof(c) ELSE c
  ELSE LET c == Consumed(s, k) IN IF e \notin { "", "panic" } /\ Running(c) THEN Fault(c, e \o "!") ELSE c

\* within the preamble only one place is tried
Amounts(s) == IF Len(sched) < FreeTurns
              THEN { k \in 1 .. LeftOf(s) + 1 : sess[s].pos + k = 5 \/ sess[s].pos + k >= 8 } ELSE { LeftOf(s) + 1 }

\* the open sessions once those that are done are gone
StillOpen == SelectSeq(open, Alive)

Turn(s, k, e) ==
  /\ Alive(s)
  /\ Len(sched) < MaxTurns
  /\ sched # << >> => (LastTurn # s \/ ~Alive(LastTurn))
  /\ e # "" => k <= LeftOf(s)
  /\ sess' = [sess EXCEPT ![s] = AfterTurn(s, k, e)]
  /\ gone' = IF e = "panic" /\ Running(sess'[s]) THEN gone \cup { s } ELSE gone
  /\ sched' = Append(sched, << s, k, e >>)
  /\ open' = IF sess[s] = Start /\ ~ \E n \in 1 .. Len(open) : open[n] = s THEN Append(StillOpen, s) ELSE StillOpen
  /\ nests' = (nests /\ open'[Len(open')] = s)
  /\ UNCHANGED group

Next == \E s \in Sessions : \E k \in Amounts(s), e \in Endings : Turn(s, k, e)
Spec == Init /\ [][Next]_vars

Alone(s) == FeedAll(Start, SubSeq(group[s], 1, sess[s].pos), 1)
Independent == \A s \in Sessions : Running(sess[s]) => sess[s] = Alone(s)
RunAlone    == \A s \in Sessions : ~Running(sess[s]) /\ (\A n \in 1 .. Len(sched) : sched[n][1] = s => sched[n][3] = "") => sess[s] = Run(group[s])

Full == Len(sched) = MaxTurns \/ \A s \in Sessions : ~Alive(s)
Ended(s) == IF s \in gone THEN << "abandoned" >>
            ELSE IF Running(sess[s]) THEN Run(group[s]).out ELSE sess[s].out
Others(s) == IF s \in gone THEN {} ELSE IF Running(sess[s]) THEN Run(group[s]).pend ELSE sess[s].pend
EmitSchedule == Full => PrintT(ToJson([i |-> group, p |-> sched, n |-> nests,
                                       o |-> [s \in Sessions |-> Ended(s)], a |-> [s \in Sessions |-> Others(s)]]))

(***************************************************************************)
(* Inputs that bring the decoder into states worth disturbing.             *)
(***************************************************************************)
Sect(n, b) == << n, Len(b) >> \o b
Body(b) == Preamble \o << 3, 2, 1, 0 >> \o Sect(10, << 1, Len(b) + 2, 0 >> \o b \o << 11 >>)
Blocks   == Body(<< 2, 64, 4, 64, 5, 11, 11 >>)
BadBlock == Body(<< 2, 64, 3, 64, 6 >>)
LocalsIn == Preamble \o << 3, 2, 1, 0 >> \o Sect(10, << 1, 6, 2, 2, 127, 1, 126, 11 >>)
DataUse  == Preamble \o << 3, 2, 1, 0, 12, 1, 1 >> \o Sect(10, << 1, 5, 0, 252, 9, 0, 11 >>) \o << 11, 3, 1, 1, 0 >>
NoCount  == Preamble \o << 3, 2, 1, 0 >> \o Sect(10, << 1, 5, 0, 252, 9, 0, 11 >>)
NamesIn  == Preamble \o Sect(2, << 1, 2, 195, 169, 1, 97, 3, 127, 0 >>)
RecTypes == Preamble \o Sect(1, << 1, 78, 2, 80, 0, 94, 127, 1, 96, 0, 0 >>)
TwoSame  == Preamble \o << 5, 1, 0, 5, 1, 0 >>
Overlong == Preamble \o << 5, 133, 128, 128, 128, 16 >>
CustomIn == Preamble \o << 0, 3, 1, 97, 9, 5, 3, 1, 0, 1 >>
ShortTop == Preamble \o << 5, 3, 1, 0 >>
Missing  == Preamble \o << 3, 2, 1, 0 >>

Disturbing == { Blocks, BadBlock, LocalsIn, DataUse, NoCount, NamesIn, RecTypes, TwoSame, Overlong, CustomIn, ShortTop, Missing }
FewPairs == { << a, b >> : a \in { Blocks, DataUse, NamesIn }, b \in { Blocks, BadBlock, LocalsIn, TwoSame } }
AllPairs == { << a, b >> : a \in Disturbing, b \in Disturbing }
Triples  == { << a, b, c >> : a \in { Blocks, DataUse }, b \in { BadBlock, CustomIn, NoCount }, c \in { LocalsIn, ShortTop } }
SomeTriples == { << Blocks, BadBlock, LocalsIn >>, << DataUse, NoCount, CustomIn >> }
=============================================================================
