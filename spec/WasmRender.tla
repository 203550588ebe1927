----------------------------- MODULE WasmRender -----------------------------
(***************************************************************************)
(* Trace validation of rendered diagnoses.  A record holds                 *)
(*                                                                         *)
(*   id     its number                                                     *)
(*   path   the error as a path from the outside in: <<"s", label>>,       *)
(*          <<"n", number>> (decimal digits), <<"b", n1, n2, ...>> (bytes) *)
(*   msgs   the messages of the error and of its chain of causes, each cut *)
(*          into words and numbers (numbers in decimal, however written)   *)
(*   debug  sizes of the two debug representations                         *)
(*   ends   whether the chain ended                                        *)
(*                                                                         *)
(* The path is read word by word (variable p) and the messages are read    *)
(* along with it (variable k): an element position has to be mentioned in  *)
(* a message of its own, in order; the values after any other label in one *)
(* message, each of them, and not in another's place.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES cid, p, k, verdict
vars == << cid, p, k, verdict >>

Case == Cases[cid]
Path == Case.path
Msgs == Case.msgs

Init == cid \in 1 .. Len(Cases) /\ p = 1 /\ k = 1 /\ verdict = ""

Mentions(msg, w) == \E x \in 1 .. Len(msg) : msg[x] = w
Places(msg, w)   == { x \in 1 .. Len(msg) : msg[x] = w }
First(S)         == CHOOSE x \in S : \A y \in S : x <= y
Digits           == { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-" }
IsNumber(w)      == SubSeq(w, 1, 1) \in Digits
\* the number that follows the first mention of a word, or ""
NumberAfter(msg, w) ==
  IF Places(msg, w) = {} THEN ""
  ELSE LET ns == { x \in 1 .. Len(msg) : x > First(Places(msg, w)) /\ IsNumber(msg[x]) } IN IF ns = {} THEN "" ELSE msg[First(ns)]

(* Where several values stand together, what each of them is called.       *)
Names(label) ==
  CASE label = "SectionSizeMismatch"        -> << "declared", "got" >>
    [] label = "EntrySizeMismatch"          -> << "declared", "leftover", "consumed" >>
    [] label = "DataCountDatasLenMismatch"  -> << "got", "declared" >>
    [] label = "DataCountMismatch"          -> << "got", "declared" >>
    [] label = "LocalsCountOutOfBound"      -> << "most", "got" >>
    [] OTHER                                -> << "got" >>

\* a message that calls a value by its name must give it there
Attributed(msg, label, vals) ==
  \A v \in 1 .. Len(vals) :
     LET ns == Names(label) IN
     v <= Len(ns) => LET n == NumberAfter(msg, ns[v]) IN n = "" \/ n = vals[v]

\* the labels and values still to come
RECURSIVE Run(_)
Run(q) == IF q > Len(Path) \/ Path[q][1] # "n" THEN << >> ELSE << Path[q][2] >> \o Run(q + 1)

Text(q) == Path[q][2]
Word == p <= Len(Path)

(* An element position.                                                    *)
Position == /\ verdict = "" /\ Word /\ Path[p][1] = "s" /\ Text(p) = "ParseElement"
            /\ LET ms == { x \in k .. Len(Msgs) : Mentions(Msgs[x], Text(p + 1)) } IN
               IF ms = {} THEN verdict' = "position" /\ UNCHANGED k
               ELSE k' = First(ms) + 1 /\ UNCHANGED verdict
            /\ p' = p + 2 /\ UNCHANGED cid

(* Two sections in the wrong order, or one twice.                          *)
Order == /\ verdict = "" /\ Word /\ Text(p) \in { "SectionOutOfOrder", "DuplicateSection", "SectionSizeMismatch" } /\ Path[p][1] = "s"
         /\ LET ok(msg) ==
                  /\ Mentions(msg, Text(p + 1))
                  /\ Text(p) = "SectionOutOfOrder" =>
                       /\ Mentions(msg, Text(p + 2))
                       /\ Places(msg, "after") # {} =>
                            LET a == First(Places(msg, "after")) IN
                            /\ \E x \in Places(msg, Text(p + 1)) : x < a
                            /\ \E x \in Places(msg, Text(p + 2)) : x > a
                  /\ LET vals == Run(p + 2) IN Attributed(msg, Text(p), vals) /\ \A v \in 1 .. Len(vals) : Mentions(msg, vals[v])
                ms == { x \in k .. Len(Msgs) : ok(Msgs[x]) }
            IN  IF ms = {} THEN verdict' = "sections" /\ UNCHANGED k
                ELSE k' = First(ms) /\ UNCHANGED verdict
         /\ p' = Len(Path) + 1 /\ UNCHANGED cid

(* A label followed by offending values, or by none.                       *)
Values == /\ verdict = "" /\ Word /\ Path[p][1] = "s"
          /\ Text(p) \notin { "ParseElement", "SectionOutOfOrder", "DuplicateSection", "SectionSizeMismatch" }
          /\ LET vals == Run(p + 1)
                 ok(msg) == Attributed(msg, Text(p), vals) /\ \A v \in 1 .. Len(vals) : Mentions(msg, vals[v])
                 ms == { x \in k .. Len(Msgs) : ok(Msgs[x]) }
             IN  IF vals = << >> THEN UNCHANGED << verdict, k >>
                 ELSE IF ms = {} THEN verdict' = "values" /\ UNCHANGED k
                 ELSE k' = First(ms) /\ UNCHANGED verdict
          /\ p' = p + 1 + Len(Run(p + 1)) /\ UNCHANGED cid

(* A run of bytes is mentioned in order and without a gap.                 *)
Bytes == /\ verdict = "" /\ Word /\ Path[p][1] = "b"
         /\ LET bs == Tail(Path[p])
                ok(msg) == LET s == SelectSeq(msg, IsNumber) IN
                           \E x \in 0 .. Len(s) - Len(bs) : \A y \in 1 .. Len(bs) : s[x + y] = bs[y]
            IN  verdict' = IF \E x \in k .. Len(Msgs) : ok(Msgs[x]) THEN "" ELSE "bytes"
         /\ p' = p + 1 /\ UNCHANGED << cid, k >>

Report == /\ (verdict = "" /\ ~Word) \/ (verdict # "" /\ p <= Len(Path) + 10)
          /\ p' = Len(Path) + 11
          /\ verdict' = IF verdict # "" THEN verdict
                        ELSE IF ~Case.ends THEN "endless"
                        ELSE IF Len(Msgs) = 0 \/ \E x \in 1 .. Len(Msgs) : Msgs[x] = << >> THEN "empty"
                        ELSE IF Case.debug = 0 THEN "debug"
                        ELSE IF Case.carry # "" /\ ~\E x \in 1 .. Len(Msgs) : Mentions(Msgs[x], Case.carry) THEN "cause"
                        ELSE "ok"
          /\ PrintT(<< "VERDICT", Case.id, IF verdict' = "ok" THEN "ok" ELSE "mismatch", p, verdict' >>)
          /\ UNCHANGED << cid, k >>

Next == Position \/ Order \/ Values \/ Bytes \/ Report
Spec == Init /\ [][Next]_vars
View == vars
=============================================================================
