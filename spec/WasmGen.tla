------------------------------- MODULE WasmGen -------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of the machine, and test generation.     *)
(*                                                                         *)
(* A scenario fixes a prefix of the input and, for every place of the      *)
(* grammar at which the machine may stand, the bytes to be tried there     *)
(* (numbers from 256 on stand for several bytes, see Macro).               *)
(* TLC visits every machine state reachable with at most max further       *)
(* choices; every visited state becomes a test for the implementation: the   *)
(* bytes so far followed by the end of the input (or placed in a module    *)
(* whose declared sizes fit them, when the scenario names a wrapping).     *)
(*                                                                         *)
(*   [name |-> , pre |-> bytes, max |-> n, wrap |-> "" or a wrapping,      *)
(*    menu |-> [place |-> set of bytes, ..., default |-> set of bytes]]    *)
(***************************************************************************)
EXTENDS WasmDecoder

CONSTANT Scenarios

VARIABLES scn, m, inp, taken
vars == << scn, m, inp, taken >>

Macro(c) == CASE c = 256 -> << 2, 64 >>
              [] c = 257 -> << 3, 64 >>
              [] c = 258 -> << 4, 64 >>
              [] c = 259 -> << 31, 64, 0 >>
              [] c = 260 -> << 31, 64, 1, 2, 0 >>
              [] c = 261 -> << 252, 9, 0 >>
              [] c = 262 -> << 14, 0, 0 >>
              [] c = 263 -> << 65, 128, 0 >>
Choice(c) == IF c < 256 THEN << c >> ELSE Macro(c)

(***************************************************************************)
(* The names of the place at which the machine stands, most specific first.*)
(***************************************************************************)
Parent(mm) == mm.fs[Len(mm.fs) - 1]
Places(mm) ==
  LET f == Top(mm) IN
  CASE f.k = "leb" /\ Len(mm.fs) > 1 ->
         LET p == Parent(mm)
             base == CASE p.k = "mod"   -> IF p.i = 1 THEN << "size", "u32" >> ELSE << f.nt, "idx" >>
                       [] p.k = "code"  -> << "codesize", "u32" >>
                       [] p.k = "list"  -> IF p.i = 0 THEN << p.nt, "count", "u32" >> ELSE << f.nt, "idx" >>
                       [] p.k = "bytes" -> << "len", "u32" >>
                       [] p.k = "name"  -> << "len", "u32" >>
                       [] p.k = "udisp" -> << p.nt, "sel" >>
                       [] p.k = "memarg" -> << "memarg", "u32" >>
                       [] p.k = "custom" -> << "len", "u32" >>
                       [] OTHER         -> << f.nt, "idx" >>
         IN  IF f.a # << >> THEN << "more" >> \o base ELSE base
    [] f.k \in { "expr", "ctl" } -> << "op" >>
    [] f.k = "mod"    -> << "id" >>
    [] f.k = "bytes"  -> << "byte" >>
    [] f.k = "name"   -> << "char", "byte" >>
    [] f.k = "custom" -> << "byte" >>
    [] f.k = "raw"    -> << "raw", "byte" >>
    [] f.k = "pre"    -> << "pre" >>
    [] OTHER          -> << f.nt >>

Menu(s, mm) ==
  LET ps   == Places(mm)
      hits == { i \in 1 .. Len(ps) : ps[i] \in DOMAIN s.menu }
  IN  IF hits = {} THEN s.menu["default"]
      ELSE s.menu[ps[CHOOSE i \in hits : \A j \in hits : i <= j]]

Init == /\ scn \in Scenarios
        /\ m = FeedAll(Start, scn.pre, 1)
        /\ inp = << >>
        /\ taken = 0

Choose(c) == /\ m' = FeedAll(m, Choice(c), 1)
           /\ inp' = inp \o SubSeq(Choice(c), 1, m'.pos - m.pos)
           /\ taken' = taken + 1
           /\ UNCHANGED scn

Next == /\ Running(m)
        /\ taken < scn.max
        /\ \E c \in Menu(scn, m) : Choose(c)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The complete input of a visited state, and its outcome.                 *)
(***************************************************************************)
(* Wrappings leave all declared sizes to be computed; sizes stay < 128.    *)
Wrapped(w, e) ==
  CASE w = ""       -> scn.pre \o e
    \* a function body without locals
    [] w = "func"   -> Preamble \o << 3, 2, 1, 0, 10, Len(e) + 4, 1, Len(e) + 2, 0 >> \o e \o << 11 >>
    \* the initialiser of an i32 global
    [] w = "global" -> Preamble \o << 6, Len(e) + 4, 1, 127, 0 >> \o e \o << 11 >>
    \* a type section of one group
    [] w = "type"   -> Preamble \o << 1, Len(e) + 1, 1 >> \o e
    [] w = "import" -> Preamble \o << 2, Len(e) + 3, 1, 0, 0 >> \o e
    [] w = "table"  -> Preamble \o << 4, Len(e) + 1, 1 >> \o e
    [] w = "mem"    -> Preamble \o << 5, Len(e) + 1, 1 >> \o e
    [] w = "elem"   -> Preamble \o << 9, Len(e) + 1, 1 >> \o e
    [] w = "data"   -> Preamble \o << 11, Len(e) + 1, 1 >> \o e
    [] w = "tag"    -> Preamble \o << 13, Len(e) + 1, 1 >> \o e
    [] w = "export" -> Preamble \o << 7, Len(e) + 1, 1 >> \o e
    [] w = "start"  -> Preamble \o << 8, Len(e) >> \o e
    [] w = "gtype"  -> Preamble \o << 6, Len(e) + 3, 1 >> \o e \o << 0, 11 >>
    [] w = "locals" -> Preamble \o << 3, 2, 1, 0, 10, Len(e) + 3, 1, Len(e) + 1 >> \o e \o << 11 >>
    [] w = "custom" -> Preamble \o << 0, Len(e) >> \o e

Input == Wrapped(scn.wrap, inp)
Final == IF scn.wrap # "" THEN Run(Input)
         ELSE IF Running(m) THEN Eof(m) ELSE m

EmitCase(in, fin) ==
  Bomb(fin) \/ PrintT(ToJson([i |-> in, o |-> fin.out, a |-> fin.pend]))
Emit == EmitCase(Input, Final)

(***************************************************************************)
(* Invariants of the machine itself.                                       *)
(***************************************************************************)
FrameKinds == { "leb", "seq", "list", "bytes", "name", "disp", "udisp", "byte", "raw",
                "expr", "ctl", "memarg", "code", "custom", "pre", "mod" }

StackOK(mm) ==
  /\ Running(mm) => /\ Len(mm.fs) >= 1
                    /\ mm.fs[1].k \in { "pre", "mod" }
                    /\ \A i \in 2 .. Len(mm.fs) : mm.fs[i].k \notin { "pre", "mod" }
  /\ \A i \in 1 .. Len(mm.fs) : mm.fs[i].k \in FrameKinds

OutcomeOK(mm) ==
  CASE mm.st = "run" -> mm.out = << >>
    [] mm.st = "ok"  -> mm.out[1] = "ok" /\ mm.fs = << >> /\ mm.pend = << >>
    [] mm.st = "err" -> mm.out[1] = "err" /\ Len(mm.out[2]) >= 1 /\ mm.fs = << >>

(* Content is never taken from beyond an enclosing declared size. *)
BudgetOK(mm) ==
  Running(mm) =>
    /\ mm.lim >= 0 => mm.used < mm.lim
    /\ mm.clim >= 0 => mm.cused < mm.clim
    /\ mm.clim # NoLim => mm.lim # NoLim /\ mm.cused <= mm.used
    /\ InSection(mm) => mm.fs[1].i = 2

RankOf(kind) == LET i == CHOOSE i \in 1 .. Len(Sections) : Sections[i][1] = kind IN Sections[i][2]
SectionsOK(mm) ==
  LET o == mm.mod IN
  /\ \A i \in 1 .. Len(o.kinds) - 1 : RankOf(o.kinds[i]) < RankOf(o.kinds[i + 1])
  /\ Len(o.headers) = Len(o.kinds) + Len(o.customs)
  /\ \A i \in 1 .. Len(o.headers) : o.headers[i][1] \in { "Custom" } \cup { o.kinds[j] : j \in 1 .. Len(o.kinds) }

(* An end of input is acceptable only between two sections. *)
BoundaryOK(mm) == Running(mm) /\ Eof(mm).st = "ok" => AtBoundary(mm)

(* What has to be remembered is bounded by the bytes that have arrived,    *)
(* whatever lengths they announce; so is the work of a single step, which  *)
(* opens a bounded number of constructs and closes open ones.              *)
RECURSIVE Held(_, _)
Held(mm, i) == IF i = 0 THEN 0 ELSE Held(mm, i - 1) + Len(mm.fs[i].a) + Len(mm.fs[i].h)
Bounded == /\ Len(m.fs) <= 4 * m.pos + 2
           /\ Held(m, Len(m.fs)) <= m.pos + Len(m.fs)
OpensFew == [][Len(m'.fs) <= Len(m.fs) + 6 * (m'.pos - m.pos)]_m

MachineOK == Bounded /\ StackOK(m) /\ OutcomeOK(m) /\ BudgetOK(m) /\ SectionsOK(m) /\ BoundaryOK(m)

(* A reader failure while bytes are wanted is reported as that failure. *)
FaultReported == Running(m) => LET e == Fault(m, "Other").out IN e[1] = "err" /\ e[2][Len(e[2])] = "io:Other"

(* Every step consumes a byte, so that the machine stops.                  *)
Progress == [][m'.pos > m.pos]_m
=============================================================================
