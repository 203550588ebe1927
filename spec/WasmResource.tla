---------------------------- MODULE WasmResource ----------------------------
(***************************************************************************)
(* Trace validation of quantities: what an execution cost is checked       *)
(* against what its input allowed it to cost.  A record is                 *)
(*                                                                         *)
(*   id     its number                                                     *)
(*   b      the bytes (or << >> for an input too large to be run again     *)
(*          here, which then declares few locals)                          *)
(*   o      the first characters of the observed outcome                   *)
(*   got    bytes taken from the reader, intr interruptions met            *)
(*   reads  calls of read(), allocs allocations made                       *)
(*   peak   KiB allocated at the same time at most                         *)
(*   must   TRUE if it is to be judged although it declares many locals    *)
(*   l      "returns", "memory"                                            *)
(*                                                                         *)
(* A decoder that stores every declared local takes as much memory as the  *)
(* declarations ask for (the listed finding on C17); records of inputs     *)
(* that declare many locals are therefore told apart.                      *)
(***************************************************************************)
EXTENDS WasmDecoder, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, m, verdict
vars == << cid, m, verdict >>

Case == Cases[cid]

Init == cid \in 1 .. Len(Cases) /\ m = Start /\ verdict = ""

Consume == /\ Running(m) /\ m.pos < Len(Case.b)
           /\ m' = StepOn(m, Case.b)
           /\ UNCHANGED << cid, verdict >>

End == /\ Running(m) /\ m.pos = Len(Case.b)
       /\ m' = Eof(m)
       /\ UNCHANGED << cid, verdict >>

IsOk(o)  == Len(o) >= 5 /\ SubSeq(o, 1, 5) = "[\"ok\""
IsErr(o) == Len(o) >= 7 /\ SubSeq(o, 1, 7) = "[\"err\","

Returned == IsOk(Case.o) \/ IsErr(Case.o)
\* the decoder's work, as seen at its two interfaces
Work   == Case.reads <= 64 + 4 * Case.got + Case.intr /\ Case.allocs <= 256 + 16 * Case.got
\* an input four times as large takes about four times as long (microseconds;
\* the constants leave room for noise)
Scales == Case.t4 <= 10 * Case.t1 + 60000
Memory == Case.peak <= 4096 + Case.got

Verdict == IF m.many /\ ~Case.must THEN "bomb"
           ELSE IF ~Returned THEN "noreturn"
           ELSE IF Case.l = "returns" /\ ~Work THEN "work"
           ELSE IF Case.l = "scaling" /\ ~Scales THEN "time"
           ELSE IF Case.l = "memory" /\ ~Memory THEN "memory" ELSE "ok"

Judge == /\ ~Running(m) /\ verdict = ""
         /\ verdict' = Verdict
         /\ PrintT(<< "VERDICT", Case.id, verdict', m.pos, "" >>)
         /\ UNCHANGED << cid, m >>

Next == Consume \/ End \/ Judge
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

\* every input is decided in finitely many steps
Decided == <>(verdict # "")
View == << cid, m.pos, m.st, verdict >>
=============================================================================
