----------------------------- MODULE WasmHyper ------------------------------
(***************************************************************************)
(* Relations between two decodings (C24, C25).  A record is a pair of      *)
(* inputs and the two observed outcomes:                                   *)
(*                                                                         *)
(*   id, x, y    the inputs                                                *)
(*   ox, oy      the observed outcomes, parsed, and their texts tx, ty     *)
(*   l           "custom"   y is x with the custom sections ins inserted,  *)
(*                          each at the offset `at' of x; the result must  *)
(*                          be that of x with just these sections added    *)
(*               "recode"   y is x with integers encoded otherwise and     *)
(*                          sizes adjusted; the result must be that of x   *)
(*                          but for the sizes                              *)
(*   ins         sequence of [at |-> offset, name |-> bytes, data |-> ]    *)
(*                                                                         *)
(* Both inputs are run through the machine, one byte at a time; that the   *)
(* machine's own outcomes are so related is the theorem (spec), that the   *)
(* observed ones are is the verdict.                                       *)
(***************************************************************************)
EXTENDS WasmDecoder, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

\* marks are the states of mx between two sections: <<offset, headers, customs>>
VARIABLES cid, mx, my, marks, verdict
vars == << cid, mx, my, marks, verdict >>

Case == Cases[cid]

Mark(m) == << m.pos, Len(m.mod.headers), Len(m.mod.customs) >>

Init == /\ cid \in 1 .. Len(Cases)
        /\ mx = Start /\ my = Start /\ marks = << >> /\ verdict = ""

Advance(m, b) == IF m.pos < Len(b) THEN Step(m, b[m.pos + 1]) ELSE Eof(m)

StepX == /\ Running(mx)
         /\ mx' = Advance(mx, Case.x)
         /\ marks' = IF AtBoundary(mx) THEN Append(marks, Mark(mx)) ELSE marks
         /\ UNCHANGED << cid, my, verdict >>

StepY == /\ ~Running(mx) /\ Running(my)
         /\ my' = Advance(my, Case.y)
         /\ UNCHANGED << cid, mx, marks, verdict >>

(***************************************************************************)
(* Outcomes without what may differ.  An accepted one is                   *)
(* <<"ok", <<version, kinds, headers, customs, types, ...>>>>.             *)
(***************************************************************************)
Rest(o, drop) == << o[1], [n \in 1 .. Len(o[2]) |-> IF n \in drop THEN 0 ELSE o[2][n]] >>
HeaderKinds(o) == [n \in 1 .. Len(o[2][3]) |-> o[2][3][n][1]]

(* Sizes that a diagnosis mentions.                                        *)
SizeLabels == { "SectionSizeMismatch", "EntrySizeMismatch" }
LabelAt(p) == { n \in 1 .. Len(p) : \E s \in SizeLabels : ToJson(p[n]) = ToJson(s) }
WithoutSizes(p) == IF LabelAt(p) = {} THEN p ELSE SubSeq(p, 1, CHOOSE n \in LabelAt(p) : \A k \in LabelAt(p) : n <= k)

Same(a, b) == ToJson(a) = ToJson(b)

(* Insertion into headers and customs, at the marks of the offsets.        *)
MarkAt(at) == marks[CHOOSE n \in 1 .. Len(marks) : marks[n][1] = at]
Insertable == \A n \in 1 .. Len(Case.ins) : \E k \in 1 .. Len(marks) : marks[k][1] = Case.ins[n].at
RECURSIVE Woven(_, _, _, _, _)
\* base with, before its element number pos[n] + 1, the elements extra[n]
Woven(base, pos, extra, n, k) ==
  IF n <= Len(pos) /\ pos[n] = k THEN << extra[n] >> \o Woven(base, pos, extra, n + 1, k)
  ELSE IF k < Len(base) THEN << base[k + 1] >> \o Woven(base, pos, extra, n, k + 1)
  ELSE << >>

LebLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE 3
CustomSize(c) == LebLen(Len(c.name)) + Len(c.name) + Len(c.data)

Headers(o) == o[2][3]
Customs(o) == o[2][4]
HeaderPos == [n \in 1 .. Len(Case.ins) |-> MarkAt(Case.ins[n].at)[2]]
CustomPos == [n \in 1 .. Len(Case.ins) |-> MarkAt(Case.ins[n].at)[3]]
WithCustoms(ox, oy) ==
  /\ ox[1] = oy[1]
  /\ IF ox[1] = "ok"
     THEN /\ Same(Rest(ox, { 3, 4 }), Rest(oy, { 3, 4 }))
          /\ Same(Headers(oy), Woven(Headers(ox), HeaderPos, [n \in 1 .. Len(Case.ins) |-> << "Custom", Case.ins[n].size >>], 1, 0))
          /\ Same(Customs(oy), Woven(Customs(ox), CustomPos, [n \in 1 .. Len(Case.ins) |-> << Case.ins[n].name, Case.ins[n].data >>], 1, 0))
     ELSE Same(ox, oy)

Recoded(ox, oy) ==
  /\ ox[1] = oy[1]
  /\ IF ox[1] = "ok" THEN Same(Rest(ox, { 3 }), Rest(oy, { 3 })) /\ Same(HeaderKinds(ox), HeaderKinds(oy))
     ELSE Same(WithoutSizes(ox[2]), WithoutSizes(oy[2]))

Related(ox, oy) == IF Case.l = "custom" THEN WithCustoms(ox, oy) ELSE Recoded(ox, oy)

\* a diagnosis that the machine would also allow, of the same verdict
Allowed(m, text) == text = OutJson(m) \/ text \in AltJsons(m)
Gone(t) == t = "[\"crash\"]" \/ t = "[\"hang\"]"

Judge == /\ ~Running(mx) /\ ~Running(my) /\ verdict = ""
         /\ verdict' = IF Case.l = "custom" /\ ~Insertable THEN "outside"
                       ELSE IF (Bomb(mx) /\ Gone(Case.tx)) \/ (mx.many /\ Gone(Case.tx)) \/ (my.many /\ Gone(Case.ty)) THEN "bomb"
                       ELSE IF ~Related(mx.out, my.out) THEN "theorem"
                       ELSE IF Gone(Case.tx) \/ Gone(Case.ty) THEN "mismatch"
                       ELSE IF Related(Case.ox, Case.oy) THEN "ok"
                       ELSE IF Case.ox[1] = "err" /\ Case.oy[1] = "err" /\ Allowed(mx, Case.tx) /\ Allowed(my, Case.ty) THEN "ok"
                       ELSE "mismatch"
         /\ PrintT(<< "VERDICT", Case.id, verdict', my.pos, IF verdict' \in { "mismatch", "theorem" } THEN ToJson(<< mx.out, my.out >>) ELSE "" >>)
         /\ UNCHANGED << cid, mx, my, marks >>

Next == StepX \/ StepY \/ Judge
Spec == Init /\ [][Next]_vars
View == << cid, mx.pos, mx.st, my.pos, my.st, verdict >>
=============================================================================
