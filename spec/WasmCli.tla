------------------------------- MODULE WasmCli -------------------------------
(***************************************************************************)
(* The command-line tool.  An invocation is a configuration                *)
(*                                                                         *)
(*   way      "file" a path is given, "dash" '-' is, "none" nothing is     *)
(*   source   "bytes" there is an input, else the reason why there is none *)
(*   verbose  0 no, 1 the flag comes before the path, 2 after it           *)
(*   via      how the bytes come: "regular" file, "pipe", or in "pieces"   *)
(*                                                                         *)
(* and runs through the stages  args -> open -> decode -> report -> done,  *)
(* "decode" being the machine at work on the input, byte by byte.          *)
(* Plans enumerates the configurations for the implementation (EmitConfig);*)
(* Trace judges recorded invocations: with the configuration                *)
(*                                                                         *)
(*   id, b            the input                                            *)
(*   status           exit status (128 and more: killed)                   *)
(*   stdout, stderr   the standard output; the lines of the standard error *)
(*   chain, pretty    what the library says of b: the messages of its      *)
(*                    error and of all the causes; or the module's text    *)
(*   reason           the system's words for why there is no input         *)
(***************************************************************************)
EXTENDS WasmDecoder, IOUtils

Ways    == { "file", "dash", "none" }
Reasons == { "missing", "directory", "notdir", "loop", "toolong" }
Vias    == { "regular", "pipe", "pieces" }
Configs == { [way |-> w, source |-> s, verbose |-> v, via |-> d] :
             w \in Ways, s \in { "bytes" } \cup Reasons, v \in { 0, 1, 2 }, d \in Vias }
Sensible(c) == /\ c.source # "bytes" => c.via = "regular"
               /\ c.way # "file" => c.source \in { "bytes", "directory" }
               /\ (c.way = "none" => c.verbose # 2)

VARIABLES cid, m, stage, verdict
vars == << cid, m, stage, verdict >>

Cases == ndJsonDeserialize(IOEnv.CASES)
Case == Cases[cid]

(***************************************************************************)
(* Configurations.                                                         *)
(***************************************************************************)
PlanInit == cid \in { c \in Configs : Sensible(c) } /\ m = Start /\ stage = "plan" /\ verdict = ""
Plans == PlanInit /\ [][FALSE]_vars
EmitConfig == PrintT(ToJson(cid))

(***************************************************************************)
(* The tool.                                                               *)
(***************************************************************************)
Init == cid \in 1 .. Len(Cases) /\ m = Start /\ stage = "args" /\ verdict = ""

Args == stage = "args" /\ stage' = "open" /\ UNCHANGED << cid, m, verdict >>
\* a directory can be opened but not read
Open == /\ stage = "open"
        /\ IF Case.source \in { "bytes", "directory" } THEN stage' = "decode" ELSE stage' = "refused"
        /\ UNCHANGED << cid, m, verdict >>
Decode == /\ stage = "decode" /\ Running(m)
          /\ m' = IF Case.source = "directory" THEN Fault(m, "IsADirectory")
                  ELSE IF m.pos < Len(Case.b) THEN StepOn(m, Case.b) ELSE Eof(m)
          /\ UNCHANGED << cid, stage, verdict >>
Decoded == stage = "decode" /\ ~Running(m) /\ stage' = (IF m.st = "ok" THEN "accepted" ELSE "refused") /\ UNCHANGED << cid, m, verdict >>

(***************************************************************************)
(* What is reported.                                                       *)
(***************************************************************************)
EndsWith(l, s) == Len(l) >= Len(s) /\ SubSeq(l, Len(l) - Len(s) + 1, Len(l)) = s
Contains(l, s) == \E k \in 0 .. Len(l) - Len(s) : SubSeq(l, k + 1, k + Len(s)) = s
Tells(l) == \E k \in 1 .. Len(Case.chain) : EndsWith(l, Case.chain[k])
Telling == SelectSeq(Case.stderr, Tells)

\* in order, each message ends a line of its own
RECURSIVE Follows(_, _, _, _)
Follows(ls, ms, i, k) == IF k > Len(ms) THEN TRUE ELSE IF i > Len(ls) THEN FALSE
                         ELSE IF EndsWith(ls[i], ms[k]) THEN Follows(ls, ms, i + 1, k + 1) ELSE Follows(ls, ms, i + 1, k)
Chained == IF Case.verbose = 0 THEN Len(Telling) = Len(Case.chain) /\ Follows(Telling, Case.chain, 1, 1)
           ELSE Follows(Case.stderr, Case.chain, 1, 1)
Quiet == Case.stdout = "" /\ Case.stderr = << >>

Complaint ==
  IF stage = "accepted"
  THEN CASE Case.status # 0 -> "the module is decodable, yet the status is not zero"
         [] Case.verbose = 0 /\ ~Quiet -> "something is printed for a decodable module"
         [] Case.verbose # 0 /\ Case.stdout # Case.pretty \o "\n" -> "it is not the decoded module that is printed"
         [] OTHER -> ""
  ELSE CASE Case.status = 0 -> "there is nothing decodable, yet the status is zero"
         [] Case.status >= 128 -> "the tool is killed"
         [] Case.stdout # "" -> "something is printed to the standard output"
         [] Case.source = "bytes" /\ ~Chained -> "the error and its causes are not reported"
         [] Case.source # "bytes" /\ ~(\E k \in 1 .. Len(Case.stderr) : Contains(Case.stderr[k], Case.reason)) -> "the reason is not reported"
         [] OTHER -> ""

Judge == /\ stage \in { "accepted", "refused" } /\ verdict = ""
         /\ verdict' = IF Complaint = "" THEN "ok" ELSE "mismatch"
         /\ PrintT(<< "VERDICT", Case.id, verdict', m.pos, Complaint >>)
         /\ UNCHANGED << cid, m, stage >>

Next == Args \/ Open \/ Decode \/ Decoded \/ Judge
Spec == Init /\ [][Next]_vars
View == << cid, m.pos, m.st, stage, verdict >>
=============================================================================
