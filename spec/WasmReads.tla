------------------------------ MODULE WasmReads ------------------------------
(***************************************************************************)
(* Trace validation at the interface to the reader.  A record lists, in    *)
(* order, what every single call of read() gave:                           *)
(*                                                                         *)
(*    n > 0   n bytes                  0   the end of the input            *)
(*    -1      an interruption         -2   a failure                       *)
(*                                                                         *)
(* followed by the outcome.  Each read is one action:                      *)
(*                                                                         *)
(*   GiveByte     the machine consumes n bytes; it must still be running   *)
(*                before each of them (the implementation asks for nothing *)
(*                beyond its verdict)                                      *)
(*   Interrupted  nothing happens, the read is repeated                    *)
(*   EndOfInput, ReaderFails   the machine's own                           *)
(*   Return       the outcome is reported                                  *)
(*                                                                         *)
(* Fields: id, b, ev, f (kind of the failure), o, and r, the outcome of    *)
(* the same bytes delivered at once (or "" if it is not to be compared).   *)
(* l = "once" judges r alone, "reads" the discipline of the reads.         *)
(***************************************************************************)
EXTENDS WasmDecoder, IOUtils, Integers

Cases == ndJsonDeserialize(IOEnv.CASES)

\* of the current event's bytes, `taken' have been taken by the machine
\* (variables must not be called like bound variables elsewhere: TLC would
\* no longer take the grammar for a constant)
VARIABLES cid, m, at, taken, verdict
vars == << cid, m, at, taken, verdict >>

Case  == Cases[cid]
Event == Case.ev[at]

Init == cid \in 1 .. Len(Cases) /\ m = Start /\ at = 1 /\ taken = 0 /\ verdict = ""

Beyond == IF Case.l = "reads" THEN "beyond" ELSE ""
Pending == verdict = "" /\ at <= Len(Case.ev)

GiveByte == /\ Pending /\ Event > 0 /\ Running(m)
            /\ m' = Step(m, Case.b[m.pos + 1])
            /\ at' = IF taken + 1 = Event THEN at + 1 ELSE at
            /\ taken' = IF taken + 1 = Event THEN 0 ELSE taken + 1
            /\ UNCHANGED << cid, verdict >>

\* bytes that were given although nothing was to be decided any more
GiveVainly == /\ Pending /\ Event > 0 /\ ~Running(m)
              /\ verdict' = Beyond
              /\ at' = at + 1 /\ taken' = 0
              /\ UNCHANGED << cid, m >>

Interrupted == Pending /\ Event = 0 - 1 /\ at' = at + 1 /\ UNCHANGED << cid, m, taken, verdict >>

\* once the input has ended it stays so
EndOfInput == /\ Pending /\ Event = 0
              /\ m' = IF Running(m) THEN Eof(m) ELSE m
              /\ verdict' = IF Running(m) \/ Case.ev[at - 1] = 0 THEN "" ELSE Beyond
              /\ at' = at + 1 /\ UNCHANGED << cid, taken >>

ReaderFails == /\ Pending /\ Event = 0 - 2
               /\ m' = IF Running(m) THEN Fault(m, Case.f) ELSE m
               /\ verdict' = IF Running(m) \/ Case.ev[at - 1] = 0 - 2 THEN "" ELSE Beyond
               /\ at' = at + 1 /\ UNCHANGED << cid, taken >>

IsErr(o) == Len(o) >= 7 /\ SubSeq(o, 1, 7) = "[\"err\","

\* an execution that died has no complete trace: C16 and C17 judge it
Gone == Case.o = "[\"crash\"]" \/ Case.o = "[\"hang\"]"
Report == /\ verdict = "" /\ at = Len(Case.ev) + 1
          /\ verdict' =
               CASE Gone -> "ok"
                 [] Case.l = "once"  -> IF Case.o = Case.r THEN "ok" ELSE "differs"
                 [] Case.l = "reads" ->
                      \* a verdict may come before the machine's, never after;
                      \* an acceptance only once the end has been seen
                      IF Running(m) THEN (IF IsErr(Case.o) THEN "ok" ELSE "early") ELSE "ok"
          /\ at' = at + 1 /\ UNCHANGED << cid, m, taken >>

Done == /\ verdict # ""
          /\ at <= Len(Case.ev) + 2
          /\ at' = Len(Case.ev) + 3
          /\ PrintT(<< "VERDICT", Case.id, IF verdict = "ok" THEN "ok" ELSE "mismatch", m.pos, verdict >>)
        /\ UNCHANGED << cid, m, taken, verdict >>

Next == GiveByte \/ GiveVainly \/ Interrupted \/ EndOfInput \/ ReaderFails \/ Report \/ Done
Spec == Init /\ [][Next]_vars
View == << cid, at, taken, m.pos, verdict >>
=============================================================================
