----------------------------- MODULE WasmNum -----------------------------
(***************************************************************************)
(* Integers of the binary format, up to 64 bits wide.                      *)
(*                                                                         *)
(* TLC's integers are 32 bits wide, so wide values are kept as four 16-bit *)
(* limbs (least significant first) of their 64-bit two's complement.  The  *)
(* canonical form of a value is a plain integer when it lies in            *)
(* 0 .. 2^30-1 and the tagged tuple <<"n", l0, l1, l2, l3>> otherwise.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Pow2T == TLCEval([i \in 1 .. 31 |-> 2 ^ (i - 1)])   \* Pow2T[i+1] = 2^i, i <= 30
P2(i) == Pow2T[i + 1]

SmallLimit == P2(30)

(* A decoded integer: v is the canonical (printable) value, n is the same  *)
(* value as a TLC integer or -1 when it does not fit 0 .. 2^30-1.          *)
Big == 0 - 1

IntToLimbs(n) == << n % 65536, n \div 65536, 0, 0 >>
Tagged(l)     == << "n", l[1], l[2], l[3], l[4] >>
LimbsOf(v, n) == IF n >= 0 THEN IntToLimbs(n) ELSE << v[2], v[3], v[4], v[5] >>
LimbsSmall(l) == l[4] = 0 /\ l[3] = 0 /\ l[2] < 16384
LimbsInt(l)   == IF LimbsSmall(l) THEN l[1] + 65536 * l[2] ELSE Big
Canon(l)      == IF LimbsSmall(l) THEN l[1] + 65536 * l[2] ELSE Tagged(l)
LimbsNeg(l)   == l[4] >= 32768

AddLimbs(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + (s1 \div 65536)
      s3 == a[3] + b[3] + (s2 \div 65536)
      s4 == a[4] + b[4] + (s3 \div 65536)
  IN  << s1 % 65536, s2 % 65536, s3 % 65536, s4 % 65536 >>

(* a - b for a >= b *)
SubLimbs(a, b) ==
  LET d1 == a[1] + 65536 - b[1]
      d2 == a[2] + 65535 - b[2] + (d1 \div 65536)
      d3 == a[3] + 65535 - b[3] + (d2 \div 65536)
      d4 == a[4] + 65535 - b[4] + (d3 \div 65536)
  IN  << d1 % 65536, d2 % 65536, d3 % 65536, d4 % 65536 >>

MaxU32Limbs == << 65535, 65535, 0, 0 >>
LimbsExceedU32(l) == l[3] > 0 \/ l[4] > 0

(***************************************************************************)
(* LEB128.  g is the sequence of 7-bit groups read so far.                 *)
(***************************************************************************)
LebMax(kind) == CASE kind = "u32" -> 5 [] kind = "i32" -> 5 [] kind = "s33" -> 5
                  [] kind = "u64" -> 10 [] kind = "i64" -> 10
LebSigned(kind) == kind = "i32" \/ kind = "i64" \/ kind = "s33"

(* Why the terminating group `p` is not acceptable as the last group of an *)
(* encoding that uses the maximum number of bytes; "" if it is acceptable. *)
LebLastFault(kind, p) ==
  CASE kind = "u32" -> IF p < 16 THEN "" ELSE "TooLarge"
    [] kind = "u64" -> IF p < 2 THEN "" ELSE "TooLarge"
    [] kind = "i32" -> IF p < 8 \/ p >= 120 THEN "" ELSE "TooLarge"
    [] kind = "s33" -> IF p < 16 \/ p >= 112 THEN "" ELSE "IncorrectSignExtension"
    [] kind = "i64" -> IF p = 0 \/ p = 127 THEN "" ELSE "IncorrectSignExtension"

(* Bits 16(j-1) .. 16j-1 contributed by group i (both counted from 1). *)
LimbPart(gi, i, j) ==
  LET d == 7 * (i - 1) - 16 * (j - 1)
  IN  IF d >= 16 \/ d <= 0 - 7 THEN 0
      ELSE IF d >= 0 THEN (gi * P2(d)) % 65536
      ELSE gi \div P2(0 - d)

RECURSIVE LimbSum(_, _, _)
LimbSum(g, i, j) == IF i = 0 THEN 0 ELSE LimbPart(g[i], i, j) + LimbSum(g, i - 1, j)

LebLimbs(g, signed) ==
  LET k   == Len(g)
      neg == signed /\ g[k] >= 64
      gg  == IF k < 10 THEN [i \in 1 .. 10 |-> IF i <= k THEN g[i] ELSE IF neg THEN 127 ELSE 0]
                       ELSE g
  IN  << LimbSum(gg, 10, 1), LimbSum(gg, 10, 2), LimbSum(gg, 10, 3), LimbSum(gg, 10, 4) >>

LebVal(g, kind) ==
  LET k == Len(g) IN
  IF ~LebSigned(kind) \/ g[k] < 64
  THEN IF k = 1 THEN [v |-> g[1], n |-> g[1]]
       ELSE IF k = 2 THEN LET x == g[1] + 128 * g[2] IN [v |-> x, n |-> x]
       ELSE LET l == LebLimbs(g, FALSE) IN [v |-> Canon(l), n |-> LimbsInt(l)]
  ELSE LET l == LebLimbs(g, TRUE) IN [v |-> Tagged(l), n |-> Big]

(***************************************************************************)
(* UTF-8 as an automaton (RFC 3629): 0 is the accepting state, 9 the trap. *)
(***************************************************************************)
Utf8Bad == 9
Utf8Step(s, b) ==
  LET cont == b >= 128 /\ b <= 191 IN
  CASE s = 0 -> CASE b <= 127              -> 0
                  [] b >= 194 /\ b <= 223  -> 1
                  [] b = 224               -> 4
                  [] b = 237               -> 5
                  [] b >= 225 /\ b <= 239  -> 2
                  [] b = 240               -> 6
                  [] b >= 241 /\ b <= 243  -> 3
                  [] b = 244               -> 7
                  [] OTHER                 -> Utf8Bad
    [] s = 1 -> IF cont THEN 0 ELSE Utf8Bad
    [] s = 2 -> IF cont THEN 1 ELSE Utf8Bad
    [] s = 3 -> IF cont THEN 2 ELSE Utf8Bad
    [] s = 4 -> IF b >= 160 /\ b <= 191 THEN 1 ELSE Utf8Bad
    [] s = 5 -> IF b >= 128 /\ b <= 159 THEN 1 ELSE Utf8Bad
    [] s = 6 -> IF b >= 144 /\ b <= 191 THEN 2 ELSE Utf8Bad
    [] s = 7 -> IF b >= 128 /\ b <= 143 THEN 2 ELSE Utf8Bad
    [] OTHER -> Utf8Bad
=============================================================================
