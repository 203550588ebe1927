------------------------------ MODULE WasmTrace ------------------------------
(***************************************************************************)
(* Trace validation: executions recorded from the implementation are       *)
(* checked against the machine.  A record is                               *)
(*                                                                         *)
(*   id    its number                                                      *)
(*   b     the bytes the reader delivered, or would have delivered         *)
(*   f     "" or the kind of the failure that follows the bytes            *)
(*   o     the observed outcome (JSON of the projected result)             *)
(*   r     an outcome observed before, to which this one must be equal     *)
(*   got   the number of bytes the implementation took from the reader     *)
(*   l     what is required of the outcome:                                *)
(*         "full"     it is the machine's, whole diagnosis included        *)
(*         "verdict"  a rejection needs no particular diagnosis            *)
(*         "accept"   accepted or rejected as by the machine, no more      *)
(*         "io"       the failure of the reader is reported                *)
(*         "cut"      a truncation is diagnosed as one                     *)
(*         "frozen"   nothing after the verdict is asked for or matters    *)
(*                                                                         *)
(* Every step of the machine is one step of the behaviour (in inputs of    *)
(* 2000 bytes or more: every 256 steps are).                               *)
(***************************************************************************)
EXTENDS WasmDecoder, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, m, verdict
vars == << cid, m, verdict >>

Case == Cases[cid]

Init == /\ cid \in 1 .. Len(Cases)
        /\ m = Start
        /\ verdict = ""

Consume == /\ Running(m)
           /\ m.pos < Len(Case.b)
           /\ m' = StepOn(m, Case.b)
           /\ UNCHANGED << cid, verdict >>

EndOfInput == /\ Running(m)
              /\ m.pos = Len(Case.b)
              /\ Case.f = ""
              /\ m' = Eof(m)
              /\ UNCHANGED << cid, verdict >>

ReaderFails == /\ Running(m)
               /\ m.pos = Len(Case.b)
               /\ Case.f # ""
               /\ m' = Fault(m, Case.f)
               /\ UNCHANGED << cid, verdict >>

IsOk(o)  == Len(o) >= 5 /\ SubSeq(o, 1, 5) = "[\"ok\""
IsErr(o) == Len(o) >= 7 /\ SubSeq(o, 1, 7) = "[\"err\","
EndsWith(o, s) == Len(o) >= Len(s) /\ SubSeq(o, Len(o) - Len(s) + 1, Len(o)) = s
Tail5(kind) == "\"io:" \o kind \o "\"]]"

Same == Case.o = OutJson(m) \/ Case.o \in AltJsons(m)
Explained ==
  CASE Case.l = "full"    -> Same
    [] Case.l = "verdict" -> Same \/ (m.st = "err" /\ IsErr(Case.o))
    [] Case.l = "accept"  -> IF m.st = "ok" THEN IsOk(Case.o) ELSE IsErr(Case.o)
    [] Case.l = "io"      ->
         IF EndsWith(OutJson(m), Tail5(Case.f))
         THEN IsErr(Case.o) /\ (EndsWith(Case.o, Tail5(Case.f)) \/ Case.o \in AltJsons(m))
         ELSE IF m.st = "ok" THEN IsOk(Case.o) ELSE IsErr(Case.o)
    [] Case.l = "cut"     ->
         IF EndsWith(OutJson(m), Tail5("UnexpectedEof"))
         THEN IsErr(Case.o) /\ (EndsWith(Case.o, Tail5("UnexpectedEof")) \/ Case.o \in AltJsons(m))
         ELSE IF m.st = "ok" THEN IsOk(Case.o) ELSE IsErr(Case.o)
    [] Case.l = "frozen"  ->
         IF m.st = "ok" THEN IsOk(Case.o) /\ Case.got = Len(Case.b)
         ELSE Case.o = Case.r /\ Case.got <= m.pos

\* killed for want of memory, or of time
Gone == Case.o = "[\"crash\"]" \/ Case.o = "[\"hang\"]"
Judge == /\ ~Running(m)
         /\ verdict = ""
         /\ verdict' = IF Gone /\ (Bomb(m) \/ m.many) THEN "bomb" ELSE IF Explained THEN "ok" ELSE "mismatch"
         /\ PrintT(<< "VERDICT", Case.id, verdict', m.pos, IF verdict' # "mismatch" THEN "" ELSE OutJson(m) >>)
         /\ UNCHANGED << cid, m >>

Next == Consume \/ EndOfInput \/ ReaderFails \/ Judge

Spec == Init /\ [][Next]_vars

View == << cid, m.pos, m.st, verdict >>
=============================================================================
