----------------------------- MODULE WasmSource -----------------------------
(***************************************************************************)
(* The machine together with the reader that feeds it.  The decoder asks   *)
(* for up to Want(m) bytes; the reader may be interrupted, and gives any   *)
(* number from 1 to what was asked for.  Whatever it does, the machine is  *)
(* where the bytes alone put it (Confluent), and the end of every          *)
(* behaviour is a delivery plan to be carried out in the implementation.   *)
(*                                                                         *)
(* plan is the sequence of <<interruptions, size>> of the reads so far.    *)
(***************************************************************************)
EXTENDS WasmDecoder, Integers

CONSTANTS Inputs, MaxIntr

VARIABLES input, m, plan
vars == << input, m, plan >>

Left == Len(input) - m.pos

(* How many bytes the construct on top can make use of at once.            *)
Want ==
  LET f == Top(m) IN
  CASE f.k = "pre"   -> 8 - Len(f.a)
    [] f.k = "bytes" -> f.n - Len(f.a)
    [] f.k = "name"  -> f.n - Len(f.a)
    [] f.k = "raw"   -> G[f.nt].n - Len(f.a)
    [] f.k = "custom" -> m.lim - m.used
    [] OTHER         -> 1
Room == IF m.lim >= 0 /\ m.lim - m.used < Want THEN m.lim - m.used ELSE Want
Most == IF Left < Room THEN Left ELSE Room

Init == input \in Inputs /\ m = Start /\ plan = << >>

\* long inputs get their preamble at once, so that plans stay enumerable
Sizes == IF Top(m).k = "pre" /\ Len(input) > 20 THEN { Most } ELSE { 1, 2, Most - 1, Most } \cap 1 .. Most
GiveBytes == /\ Running(m) /\ Left > 0
           /\ \E n \in Sizes : \E k \in 0 .. MaxIntr :
                /\ m' = FeedAll(m, SubSeq(input, m.pos + 1, m.pos + n), 1)
                /\ plan' = Append(plan, << k, n >>)
           /\ UNCHANGED input

End == /\ Running(m) /\ Left = 0
       /\ m' = Eof(m)
       /\ UNCHANGED << input, plan >>

Next == GiveBytes \/ End
Spec == Init /\ [][Next]_vars

Confluent == m = IF Running(m) \/ Left > 0 THEN FeedAll(Start, SubSeq(input, 1, m.pos), 1) ELSE Run(input)

EmitPlan == ~Running(m) => PrintT(ToJson([i |-> input, o |-> m.out, a |-> m.pend, p |-> plan]))
TinyInputs == { Preamble, SubSeq(Preamble, 1, 5), << 0, 97, 115, 108, 1 >>, << >> }
Sec(i, b) == << i, Len(b) >> \o b
Fn(b) == Preamble \o << 3, 2, 1, 0 >> \o Sec(10, << 1, Len(b) + 2, 0 >> \o b \o << 11 >>)
SmallInputs == {
  Preamble, Preamble \o << 0, 4, 2, 97, 98, 99 >>, Preamble \o << 0, 3, 2, 97 >>, Preamble \o << 0, 0 >>,
  Preamble \o Sec(11, << 1, 1, 3, 7, 8, 9 >>), Preamble \o Sec(11, << 1, 1, 4, 7, 8, 9 >>), Preamble \o << 11, 9, 1, 1, 4, 7, 8 >>,
  Preamble \o Sec(7, << 1, 3, 226, 130, 172, 0, 0 >>), Preamble \o Sec(7, << 1, 3, 226, 130, 0, 0, 0 >>),
  SubSeq(Preamble, 1, 6), << 0, 97, 115, 109, 1, 0, 0, 1 >>, << 0, 97, 115, 109, 2 >>, << >> }
ConstInputs == { Fn(<< 67, 0, 0, 128, 127 >>), Fn(<< 68, 1, 2, 3, 4, 5, 6, 7, 8 >>), SubSeq(Fn(<< 67, 0, 0, 128, 127 >>), 1, 21) }
WideInputs == { Fn(<< 253, 12 >> \o [i \in 1 .. 16 |-> i]), Fn(<< 253, 13 >> \o [i \in 1 .. 16 |-> 255 - i]), SubSeq(Fn(<< 253, 12 >> \o [i \in 1 .. 16 |-> i]), 1, 30) }
=============================================================================
