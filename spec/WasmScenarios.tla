---------------------------- MODULE WasmScenarios ----------------------------
(***************************************************************************)
(* Scenarios for WasmGen, one group per topic, and for each topic what the *)
(* decoder owes its user, stated declaratively over the bytes and without  *)
(* reference to the machine.                                               *)
(***************************************************************************)
EXTENDS WasmGen, FiniteSets, Integers

CONSTANT Depth     \* bound of the exploration, set per tier
\* TLC computes every set of scenarios beforehand, used or not: the largest
\* ones are only there when asked for
Low == IF Depth > 4 THEN 0 ELSE Depth

Bytes == 0 .. 255
S(name, pre, max, wrap, menu) == [name |-> name, pre |-> pre, max |-> max, wrap |-> wrap, menu |-> menu]

FuncPre   == Preamble \o << 3, 2, 1, 0, 10, 127, 1, 120, 0 >>
GlobalPre == Preamble \o << 6, 127, 1, 127, 0 >>
SecPre(id) == Preamble \o << id, 127 >>
ItemPre(id) == Preamble \o << id, 127, 1 >>
DataIn == inp \* the bytes chosen after the prefix

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE s[1] + SumSeq(SubSeq(s, 2, Len(s)))

(***************************************************************************)
(* Preamble.                                                               *)
(***************************************************************************)
PreambleScenarios ==
  { S("preamble", << >>, 9, "", [pre |-> { 0, 1, 97, 115, 109 }, default |-> { 0, 14 }]) }
PreambleScenariosQ ==
  { S("preamble", SubSeq(Preamble, 1, k), 9, "", [pre |-> { 0, 1, Preamble[k + 1] }, default |-> { 0, 14 }]) : k \in 4 .. 7 }
  \cup { S("preambleflip", [i \in 1 .. 7 |-> IF i = j THEN x ELSE Preamble[i]], 2, "", [pre |-> { 0, 1 }, default |-> { 0 }])
         : j \in 1 .. 7, x \in { 0, 1, 98, 255 } }
PreambleTheorem == m.st = "ok" => SubSeq(Input, 1, 8) = Preamble

(***************************************************************************)
(* C02: sections.  Every section holds the single byte 0: an empty vector, *)
(* function 0, a data count of 0 or a custom section named "".             *)
(***************************************************************************)
SectionScenarios ==
  { S("sections", Preamble, 3 * Depth, "", [id |-> 0 .. 14, size |-> { 1 }, default |-> { 0 }]) }

SectionIds == [i \in 1 .. Len(inp) \div 3 |-> inp[3 * (i - 1) + 1]]
NonCustom(ids) == SelectSeq(ids, LAMBDA x : x # 0)
Prescribed == << 1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11 >>
PlaceOf(id) == CHOOSE p \in 1 .. 13 : Prescribed[p] = id
WellOrdered(ids) ==
  /\ \A i \in 1 .. Len(ids) : ids[i] \in 0 .. 13
  /\ LET nc == NonCustom(ids) IN \A i \in 1 .. Len(nc) - 1 : PlaceOf(nc[i]) < PlaceOf(nc[i + 1])
SectionTheorem ==
  LET whole == Len(inp) % 3 = 0
      fin   == Final
  IN  scn.name = "sections" =>
        (fin.st = "ok") <=> (whole /\ WellOrdered(SectionIds))

(***************************************************************************)
(* C03: sizes.                                                             *)
(***************************************************************************)
SizeScenarios ==
  { S("size", Preamble \o << id >>, 6, "",
      [size |-> 0 .. 5, default |-> { 0, 1 }, op |-> { 11, 1 }]) : id \in 0 .. 13 }
  \cup
  { S("codesize", Preamble \o << 3, 2, 1, 0, 10, s >>, s + 1, "",
      [count |-> { 1, 0 }, codesize |-> 0 .. 6, l_local |-> { 0, 1 }, u32 |-> { 0, 1 }, valtype |-> { 127 },
       op |-> { 11, 1, 2 }, blocktype |-> { 64 }, id |-> { 11 }, default |-> { 0, 1 }]) : s \in 1 .. (4 + Depth) }

(* The contents of the first section end exactly where its size says.      *)
SizeTheorem ==
  scn.name = "codesize" /\ Final.st = "ok" =>
     /\ Len(inp) = scn.pre[14]
     /\ inp[1] = 1 => inp[2] = Len(inp) - 2

(***************************************************************************)
(* C04: function declarations and code entries.  A code entry is           *)
(* << size, 0, body..., 11 >>.                                             *)
(***************************************************************************)
CountScenarios ==
  { S("counts", Preamble \o (IF nf = 4 THEN << >> ELSE << 3, nf + 1, nf >> \o [i \in 1 .. nf |-> i * 3])
        \o (IF nc = 4 THEN << >> ELSE << 10, sz, nc >>), Depth * 4, "",
      [codesize |-> { 2, 3 }, l_local |-> { 0 }, op |-> { 11, 1, 26 }, id |-> { }, default |-> { 0 }])
    : nf \in { 0, 1, 2, 3, 4 }, nc \in { 0, 1, 2, 3, 4 }, sz \in 1 .. 12 }
CountTheorem ==
  scn.name = "counts" /\ Final.st = "ok" =>
    LET fs == Final.out[2][6]
        nf == IF Len(scn.pre) > 8 /\ scn.pre[9] = 3 THEN scn.pre[11] ELSE 0
    IN  /\ Len(fs) = nf
        /\ nf > 0 => \E k \in 9 .. Len(scn.pre) - 2 : scn.pre[k] = 10 /\ scn.pre[k + 2] = nf
        /\ \A i \in 1 .. nf : fs[i][2] = 3 * i

(***************************************************************************)
(* C05: data counts and data indices.  A prefix with function and data     *)
(* count sections; the bodies are explored.                                *)
(***************************************************************************)
DataCountPre(dc) == IF dc < 0 THEN << >> ELSE << 12, 1, dc >>
DataPost(nd)     == IF nd < 0 THEN << >> ELSE << 11, 1 + 2 * nd, nd >> \o [i \in 1 .. 2 * nd |-> i % 2]
DataBodies == {
  << >>, << 1 >>,
  << 252, 9, 0 >>, << 252, 8, 0, 0 >>, << 251, 9, 0, 0 >>, << 251, 18, 0, 0 >>,
  << 251, 10, 0, 0 >>, << 251, 19, 0, 0 >>, << 252, 10, 0, 0 >>, << 252, 12, 0, 0 >>, << 252, 13, 0 >>,
  << 2, 64, 252, 9, 0, 11 >>, << 3, 64, 252, 9, 0, 11 >>, << 4, 64, 252, 9, 0, 11 >>,
  << 4, 64, 5, 252, 9, 0, 11 >>, << 31, 64, 0, 252, 9, 0, 11 >>,
  << 2, 64, 3, 64, 4, 64, 5, 31, 64, 0, 252, 8, 0, 0, 11, 11, 11, 11 >>,
  << 4, 64, 2, 64, 251, 9, 0, 0, 11, 5, 1, 11 >>,
  << 2, 64, 11, 252, 9, 0, 26 >>, << 252, 9, 0, 1, 1 >>, << 31, 64, 0, 4, 64, 5, 251, 18, 1, 2, 11, 11 >> }
UsesData(b) == \E i \in 1 .. Len(b) - 1 : << b[i], b[i + 1] >> \in
                  { << 252, 9 >>, << 252, 8 >>, << 251, 9 >>, << 251, 18 >> }
Entry(b) == << Len(b) + 2, 0 >> \o b \o << 11 >>
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE ss[1] \o Concat(SubSeq(ss, 2, Len(ss)))
CodeSec(bs) == LET c == Concat([i \in 1 .. Len(bs) |-> Entry(bs[i])]) IN
               << 3, Len(bs) + 1, Len(bs) >> \o [i \in 1 .. Len(bs) |-> 0]
CodeTail(bs) == LET c == Concat([i \in 1 .. Len(bs) |-> Entry(bs[i])]) IN << 10, Len(c) + 1, Len(bs) >> \o c

(* here the whole module is chosen initially: dc, nd in -1 (absent) .. 2   *)
DataModule(dc, nd, bs) == Preamble \o CodeSec(bs) \o DataCountPre(dc) \o CodeTail(bs) \o DataPost(nd)
DataScenarios ==
  { [name |-> "data", pre |-> DataModule(dc, nd, bs), max |-> 0, wrap |-> "", menu |-> [default |-> { 0 }],
     dc |-> dc, nd |-> nd, bs |-> bs]
    : dc \in -1 .. 2, nd \in -1 .. 2,
      bs \in { << b >> : b \in DataBodies } \cup { << << 1 >>, b, << >> >> : b \in DataBodies }
             \cup { << b, << 1, 1 >> >> : b \in DataBodies } }
DataTheorem ==
  scn.name = "data" =>
    ((Final.st = "ok") <=>
       /\ scn.dc >= 0 => scn.dc = (IF scn.nd < 0 THEN 0 ELSE scn.nd)
       /\ (\E i \in 1 .. Len(scn.bs) : UsesData(scn.bs[i])) => scn.dc >= 0)

(***************************************************************************)
(* C06: integers, in places of all five kinds.                             *)
(***************************************************************************)
LebPre(kind) ==
  CASE kind = "u32" -> SecPre(8)
    [] kind = "u64" -> ItemPre(5) \o << 0 >>
    [] kind = "s33" -> ItemPre(6) \o << 99 >>
    [] kind = "i32" -> GlobalPre \o << 65 >>
    [] kind = "i64" -> GlobalPre \o << 66 >>
LebFinals == { 0, 1, 2, 7, 8, 15, 16, 32, 63, 64, 65, 111, 112, 119, 120, 126, 127 }
LebScenarios ==
  LET Sc(kind, w, head, conts) ==
        [name |-> "leb", pre |-> LebPre(kind), max |-> LebMax(kind) + 1 + Len(head), wrap |-> w,
         kind |-> kind, menu |-> [default |-> LebFinals \cup conts, op |-> { }, mutbyte |-> { }, id |-> { }, idx |-> LebFinals \cup conts,
                                  ht_idx |-> { }, heaptype |-> ((0 .. 98) \cap (LebFinals \cup conts)) \cup { 64, 127 } \cup conts]]
  IN  { [Sc("u32", "start", << >>, { 128, 129, 255 }) EXCEPT !.pre = SecPre(8)],
        Sc("u64", "mem", << >>, { 128, 255 }),
        Sc("s33", "gtype", << >>, { 128, 129, 255 }),
        Sc("i32", "global", << >>, { 128, 192, 255 }),
        Sc("i64", "global", << >>, { 128, 255 }) }

(* The wrappings of LEB scenarios put the integer behind its own prefix.   *)
LebHead(kind) == CASE kind = "u64" -> << 0 >> [] kind = "s33" -> << 99 >> [] kind = "i32" -> << 65 >>
                   [] kind = "i64" -> << 66 >> [] OTHER -> << >>
LebInput == Wrapped(scn.wrap, LebHead(scn.kind) \o inp)
EmitLeb  == scn.name = "leb" /\ inp # << >> => EmitCase(LebInput, Run(LebInput))

(* Bits of a sequence of groups, as a function from 0 .. 7*Len(g)-1.       *)
BitOf(g, i) == (g[i \div 7 + 1] \div P2(i % 7)) % 2
Groups == [i \in 1 .. Len(inp) |-> inp[i] % 128]
Width(kind) == CASE kind = "u32" -> 32 [] kind = "i32" -> 32 [] kind = "s33" -> 33 [] OTHER -> 64
CeilDiv(a, b) == (a + b - 1) \div b
Terminated == inp # << >> /\ inp[Len(inp)] < 128 /\ \A i \in 1 .. Len(inp) - 1 : inp[i] >= 128
(* A value fits when all bits from the width on repeat the sign (or are 0).*)
Fits(kind, g) ==
  LET w == Width(kind)  n == 7 * Len(g) IN
  IF LebSigned(kind)
  THEN \A i \in w .. n - 1 : BitOf(g, i) = BitOf(g, w - 1)
  ELSE \A i \in w .. n - 1 : BitOf(g, i) = 0
LebAccepted(kind, g) == Len(g) <= CeilDiv(Width(kind), 7) /\ Fits(kind, g)
(* Bit i of the 64-bit two's complement of the value.                      *)
ExtBit(kind, g, i) ==
  IF i < 7 * Len(g) THEN BitOf(g, i) ELSE IF LebSigned(kind) THEN BitOf(g, 7 * Len(g) - 1) ELSE 0
RECURSIVE BitsVal(_, _, _, _)
BitsVal(kind, g, lo, n) == IF n = 0 THEN 0 ELSE ExtBit(kind, g, lo) + 2 * BitsVal(kind, g, lo + 1, n - 1)
LebValue(kind, g) ==
  LET l == << BitsVal(kind, g, 0, 16), BitsVal(kind, g, 16, 16), BitsVal(kind, g, 32, 16), BitsVal(kind, g, 48, 16) >>
  IN  Canon(l)
LebTheorem ==
  scn.name = "leb" /\ Terminated =>
    LET g == Groups
        r == LebVal(g, scn.kind)
        lone == Len(g) < LebMax(scn.kind) \/ (Len(g) = LebMax(scn.kind) /\ LebLastFault(scn.kind, g[Len(g)]) = "")
    IN  /\ lone <=> LebAccepted(scn.kind, g)
        /\ lone => ToJson(r.v) = ToJson(LebValue(scn.kind, g))

(***************************************************************************)
(* C07: every opcode and sub-opcode, followed by small immediates.         *)
(***************************************************************************)
OpMenu == [op |-> Bytes, sel |-> 0 .. 127, more |-> { 0, 1, 2, 3 }, xFD |-> 0 .. 255, xFC |-> (0 .. 20) \cup { 128, 255 },
           xFB |-> (0 .. 32) \cup { 128, 255 },
           blocktype |-> { 64 }, byte |-> { 3 }, raw |-> { 5 }, heaptype |-> { 112, 3 }, valtype |-> { 127 }, count |-> { 0, 1 },
           memarg |-> { 2 }, castop |-> { 0, 3, 4 }, lane |-> { 7 }, catch |-> { 2 }, default |-> { 3 }, idx |-> { 3 }]
OpScenarios ==
  { S("ops", FuncPre, 1, "func", OpMenu), S("ops", FuncPre \o << 251 >>, 4, "func", [OpMenu EXCEPT !["op"] = { }]),
    S("ops", FuncPre \o << 252 >>, 4, "func", [OpMenu EXCEPT !["op"] = { }]),
    S("ops", FuncPre \o << 253 >>, 4, "func", [OpMenu EXCEPT !["op"] = { }]) }
OpScenarios1 ==  \* one-byte opcodes with their immediates
  { S("ops1", FuncPre \o << b >>, 20, "func", [OpMenu EXCEPT !["op"] = { }]) : b \in Bytes \ { 251, 252, 253 } }
OpScenariosFB == { S("opsx", FuncPre \o << 251, b >>, 20, "func", [OpMenu EXCEPT !["op"] = { }]) : b \in 0 .. 127 }
OpScenariosFC == { S("opsx", FuncPre \o << 252, b >>, 20, "func", [OpMenu EXCEPT !["op"] = { }]) : b \in 0 .. 127 }
OpScenariosFD == { S("opsx", FuncPre \o << 253, b >>, 20, "func", [OpMenu EXCEPT !["op"] = { }]) : b \in 0 .. 127 }
                 \cup { S("opsx", FuncPre \o << 253, b, c >>, 20, "func", [OpMenu EXCEPT !["op"] = { }]) : b \in 128 .. 255, c \in 1 .. 3 }
OpAll == OpScenarios1 \cup OpScenariosFB \cup OpScenariosFC \cup OpScenariosFD
(* The prefix already contains the opcode.                                 *)
OpInput == Wrapped("func", SubSeq(scn.pre, Len(FuncPre) + 1, Len(scn.pre)) \o inp)
EmitOp  == EmitCase(OpInput, Run(OpInput))
(* An expression of one instruction never yields more than one.            *)
OpTheorem == LET r == Run(OpInput) IN
             r.st = "ok" => Len(r.out[2][6][1][4]) <= 1 + Len(inp)

(***************************************************************************)
(* C08: nesting.  Tokens: block 2, loop 3, if 4, try_table 31, else 5,     *)
(* end 11, nop 1.  One scenario explores every string of tokens.           *)
(***************************************************************************)
NestScenarios ==
  { S("nest", FuncPre, Depth, "func", [op |-> { 256, 258, 5, 11 }, default |-> { }]),
    S("nest", FuncPre, Depth - 1, "func", [op |-> { 1, 257, 258, 5, 11 }, default |-> { }]),
    S("nest", FuncPre, Depth - 1, "func", [op |-> { 258, 259, 262, 5, 11 }, default |-> { }]),
    S("nest", FuncPre, Depth, "func",
      [op |-> { 1, 2, 4, 5, 11 }, blocktype |-> { 64 }, count |-> { 0 }, default |-> { }]),
    S("nest", FuncPre, Depth, "func",
      [op |-> { 3, 4, 31, 5, 11 }, blocktype |-> { 64 }, count |-> { 0 }, default |-> { }]) }

(* Tokens of a body: openers carry their block type, try_table its list.   *)
RECURSIVE Tokens(_, _)
Tokens(b, i) == IF i > Len(b) THEN << >>
                ELSE IF b[i] \in { 2, 3, 4 } THEN (IF i + 1 > Len(b) THEN << 0 >> ELSE << b[i] >> \o Tokens(b, i + 2))
                ELSE IF b[i] = 31 THEN (IF i + 2 > Len(b) THEN << 0 >> ELSE << 31 >> \o Tokens(b, i + 3))
                ELSE IF b[i] = 14 THEN << 1 >> \o Tokens(b, i + 3)
                ELSE << b[i] >> \o Tokens(b, i + 1)
Opens(t)  == t \in { 2, 3, 4, 31 }
Level(ts, i) == Cardinality({ j \in 1 .. i : Opens(ts[j]) }) - Cardinality({ j \in 1 .. i : ts[j] = 11 })
(* the opener to which position i belongs *)
Opener(ts, i) == LET c == { j \in 1 .. i - 1 : Opens(ts[j]) /\ Level(ts, j) = Level(ts, i - 1)
                                              /\ \A k \in j .. i - 1 : Level(ts, k) >= Level(ts, j) }
                 IN  IF c = {} THEN 0 ELSE CHOOSE j \in c : \A k \in c : j <= k
Balanced(ts) ==
  /\ \A i \in 1 .. Len(ts) : ts[i] # 0
  /\ \A i \in 1 .. Len(ts) - 1 : Level(ts, i) >= 0
  /\ Level(ts, Len(ts)) = -1
  /\ \A i \in 1 .. Len(ts) : ts[i] = 5 =>
        /\ Opener(ts, i) # 0
        /\ ts[Opener(ts, i)] = 4
        /\ \A j \in 1 .. i - 1 : ts[j] = 5 => Opener(ts, j) # Opener(ts, i)
NestTheorem ==
  scn.name = "nest" =>
    ((Run(Input).st = "ok") <=> Balanced(Tokens(inp \o << 11 >>, 1)))

(***************************************************************************)
(* C09: types.                                                             *)
(***************************************************************************)
TypeMenu == [count |-> { 0, 1, 2 }, l_subtype |-> { 0, 1, 2 }, rectype |-> { 78, 79, 80, 94, 95, 96, 64 },
             subtype |-> { 79, 80, 94, 95, 96, 78 }, comptype |-> { 94, 95, 96, 93 },
             storagetype |-> { 127, 123, 119, 120, 121, 99, 112 }, valtype |-> { 127, 124, 122, 99, 100, 105, 116, 117 },
             vt_ref |-> { 112 }, heaptype |-> { 104, 105, 116, 0, 63, 64 }, ftmut |-> { 0, 1, 2 }, default |-> { 0, 1 },
             idx |-> { 0, 3 }, reftype |-> { 112 } ]
TypeScenarios == { S("types", ItemPre(1), Depth, "type", TypeMenu) }
(* every marker at every place of a type *)
TypeByteScenarios ==
  { S("typebytes", ItemPre(1) \o p, 2, "type2", [default |-> { 0 }, heaptype |-> Bytes, valtype |-> Bytes, storagetype |-> Bytes,
       ftmut |-> Bytes, comptype |-> Bytes, subtype |-> Bytes, rectype |-> Bytes, more |-> { 0, 1 }, count |-> { 0 }, idx |-> { 0 }])
    : p \in { << >>, << 96, 1 >>, << 96, 0, 1 >>, << 94 >>, << 95, 1 >>, << 94, 127 >>, << 94, 99 >>, << 94, 100 >>,
              << 78, 1 >>, << 79, 0 >>, << 80, 1, 5 >>, << 96, 1, 99 >>, << 96, 1, 100 >> } }
TypeInput == Wrapped("type", SubSeq(scn.pre, Len(ItemPre(1)) + 1, Len(scn.pre)) \o inp)
EmitType  == EmitCase(TypeInput, Run(TypeInput))

(***************************************************************************)
(* C10: names.  The name of a custom section.                              *)
(***************************************************************************)
CharClasses == { 0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255 }
NameScenarios ==
  { S("names", Preamble \o << 0, 100, n >>, n, "custom0", [char |-> CharClasses, default |-> { }]) : n \in 0 .. 3 }
  \cup { S("names", Preamble \o << 0, 100, 4 >>, 4, "custom0",
           [char |-> { 65, 128, 143, 144, 191, 224, 237, 240, 241, 244 }, default |-> { }]) }
NameInput == Preamble \o << 0, Len(inp) + 1, scn.pre[11] >> \o inp
EmitName  == EmitCase(NameInput, Run(NameInput))
(* By code points: s is UTF-8 iff it is a concatenation of encodings.      *)
Scalar(c) == c \in 0 .. 1114111 /\ ~(c \in 55296 .. 57343)
IsChar(s) ==
  LET k == Len(s)
      tail == \A i \in 2 .. k : s[i] \in 128 .. 191
  IN  CASE k = 1 -> s[1] < 128
        [] k = 2 -> tail /\ s[1] \in 192 .. 223 /\ LET c == (s[1] - 192) * 64 + (s[2] - 128) IN Scalar(c) /\ c >= 128
        [] k = 3 -> tail /\ s[1] \in 224 .. 239 /\
                    LET c == (s[1] - 224) * 4096 + (s[2] - 128) * 64 + (s[3] - 128) IN Scalar(c) /\ c >= 2048
        [] k = 4 -> tail /\ s[1] \in 240 .. 247 /\
                    LET c == (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + (s[4] - 128)
                    IN Scalar(c) /\ c >= 65536
        [] OTHER -> FALSE
RECURSIVE IsUtf8(_)
IsUtf8(s) == s = << >> \/ \E k \in 1 .. 4 : k <= Len(s) /\ IsChar(SubSeq(s, 1, k)) /\ IsUtf8(SubSeq(s, k + 1, Len(s)))
NameTheorem ==
  scn.name = "names" =>
     ((Run(NameInput).st = "ok") <=> (Len(inp) = scn.pre[11] /\ IsUtf8(inp)))

(***************************************************************************)
(* C11, C12, C13: imports, exports, tags; tables, memories, globals,       *)
(* element segments; data segments.                                        *)
(***************************************************************************)
ItemMenu == [len |-> { 0, 1 }, char |-> { 65 }, externtype |-> 0 .. 5, limits |-> 0 .. 6, tagtype |-> { 0, 1 }, mutbyte |-> { 0, 1, 2 },
             valtype |-> { 127, 112 }, reftype |-> { 112, 111, 99, 100, 127 }, heaptype |-> { 112, 0 }, exportkind |-> 0 .. 6,
             table |-> { 64, 112, 99, 127 }, tab_zero |-> { 0, 1 },
             op |-> { 1, 11 }, elem |-> 0 .. 8, data |-> 0 .. 3, elemkind |-> { 0, 1 }, count |-> { 0, 1, 2 }, byte |-> { 7 },
             idx |-> { 0, 5 }, u32 |-> { 0, 5 }, id |-> { }, default |-> { 0, 5 }]
ImportScenarios == { S("items", ItemPre(2) \o << 0, 0 >>, Depth, "import", ItemMenu) }
ExportScenarios == { S("items", ItemPre(7), Depth, "export", ItemMenu) }
TagScenarios    == { S("items", ItemPre(13), Depth, "tag", ItemMenu) }
StartScenarios  == { S("items", SecPre(8), Depth, "start", ItemMenu) }
C11Scenarios == ImportScenarios \cup ExportScenarios \cup TagScenarios \cup StartScenarios
C12Scenarios == { S("items", ItemPre(4), Depth, "table", ItemMenu), S("items", ItemPre(5), Depth, "mem", ItemMenu),
                  S("items", ItemPre(6), Depth, "globals", ItemMenu), S("items", ItemPre(9), Depth, "elem", ItemMenu) }
C13Scenarios == { S("items", ItemPre(11), Depth, "data", [ItemMenu EXCEPT !["len"] = 0 .. 3]) }
GlobalsInput == Preamble \o << 6, Len(inp) + 1, 1 >> \o inp
EmitItem == IF scn.wrap = "globals" THEN EmitCase(GlobalsInput, Run(GlobalsInput)) ELSE Emit

(***************************************************************************)
(* C14: local declarations.  Counts are single bytes or padded to five     *)
(* bytes to reach the bound.                                               *)
(***************************************************************************)
CountBytes(c) == CASE c = "0" -> << 0 >> [] c = "1" -> << 1 >> [] c = "2" -> << 2 >>
                   [] c = "2^31" -> << 128, 128, 128, 128, 8 >> [] c = "2^32-1" -> << 255, 255, 255, 255, 15 >>
                   [] c = "2^32-2" -> << 254, 255, 255, 255, 15 >> [] c = "2^31-1" -> << 255, 255, 255, 255, 7 >>
(* a value as <<multiple of 2^31, remainder>> with remainder small         *)
CountVal(c) == CASE c = "0" -> << 0, 0 >> [] c = "1" -> << 0, 1 >> [] c = "2" -> << 0, 2 >>
                 [] c = "2^31" -> << 1, 0 >> [] c = "2^32-1" -> << 2, 0 - 1 >>
                 [] c = "2^32-2" -> << 2, 0 - 2 >> [] c = "2^31-1" -> << 1, 0 - 1 >>
BigCounts == { "0", "1", "2", "2^31", "2^31-1", "2^32-2", "2^32-1" }
LocalRuns(runs) == Concat([i \in 1 .. Len(runs) |-> CountBytes(runs[i]) \o << IF i % 2 = 0 THEN 126 ELSE 127 >>])
LocalScenarios ==
  { [name |-> "locals", pre |-> Wrapped("locals", << Len(r) >> \o LocalRuns(r)), max |-> 0, wrap |-> "",
     menu |-> [default |-> { }], runs |-> r]
    : r \in UNION { [1 .. n -> BigCounts] : n \in 0 .. Low } }
Total(runs) == << SumSeq([i \in 1 .. Len(runs) |-> CountVal(runs[i])[1]]), SumSeq([i \in 1 .. Len(runs) |-> CountVal(runs[i])[2]]) >>
(* total <= 2^32 - 1, for totals a * 2^31 + b with |b| small *)
WithinBound(runs) == LET t == Total(runs) IN t[1] < 2 \/ (t[1] = 2 /\ t[2] < 0)
LocalTheorem == scn.name = "locals" => ((Final.st = "ok") <=> WithinBound(scn.runs))
(* Accepted giant expansions cannot be replayed: they are what C17's       *)
(* finding is about.  Small ones are.                                      *)
SmallRuns(runs) == Total(runs)[1] = 0 \/ ~WithinBound(runs)
EmitLocals == SmallRuns(scn.runs) => Emit

(***************************************************************************)
(* C28: vectors.  n announced, k provided.                                 *)
(***************************************************************************)
VectorPlaces == {
  [w |-> "func", pre |-> << 14 >>, post |-> << 9 >>, item |-> << 4 >>],
  [w |-> "func", pre |-> << 28 >>, post |-> << >>, item |-> << 127 >>],
  [w |-> "func", pre |-> << 31, 64 >>, post |-> << 11 >>, item |-> << 2, 1 >>],
  [w |-> "type", pre |-> << 96 >>, post |-> << 0 >>, item |-> << 126 >>],
  [w |-> "type", pre |-> << 96, 0 >>, post |-> << >>, item |-> << 126 >>],
  [w |-> "type", pre |-> << 95 >>, post |-> << >>, item |-> << 120, 1 >>],
  [w |-> "type", pre |-> << 80 >>, post |-> << 95, 0 >>, item |-> << 3 >>],
  [w |-> "type", pre |-> << 78 >>, post |-> << >>, item |-> << 95, 0 >>],
  [w |-> "elem", pre |-> << 1, 0 >>, post |-> << >>, item |-> << 6 >>],
  [w |-> "elem", pre |-> << 5, 112 >>, post |-> << >>, item |-> << 11 >>],
  [w |-> "data", pre |-> << 1 >>, post |-> << >>, item |-> << 200 >>],
  [w |-> "locals", pre |-> << >>, post |-> << >>, item |-> << 1, 125 >>],
  [w |-> "sec1", pre |-> << >>, post |-> << >>, item |-> << 95, 0 >>],
  [w |-> "sec2", pre |-> << >>, post |-> << >>, item |-> << 0, 0, 0, 5 >>],
  [w |-> "sec4", pre |-> << >>, post |-> << >>, item |-> << 112, 0, 1 >>],
  [w |-> "sec5", pre |-> << >>, post |-> << >>, item |-> << 0, 1 >>],
  [w |-> "sec6", pre |-> << >>, post |-> << >>, item |-> << 127, 0, 11 >>],
  [w |-> "sec7", pre |-> << >>, post |-> << >>, item |-> << 0, 0, 1 >>],
  [w |-> "sec9", pre |-> << >>, post |-> << >>, item |-> << 1, 0, 0 >>],
  [w |-> "sec11", pre |-> << >>, post |-> << >>, item |-> << 1, 0 >>],
  [w |-> "sec13", pre |-> << >>, post |-> << >>, item |-> << 0, 4 >>] }
SecIdOf(w) == CASE w = "sec1" -> 1 [] w = "sec2" -> 2 [] w = "sec4" -> 4 [] w = "sec5" -> 5 [] w = "sec6" -> 6
                [] w = "sec7" -> 7 [] w = "sec9" -> 9 [] w = "sec11" -> 11 [] w = "sec13" -> 13 [] OTHER -> 0
VecBody(v, n, k) == v.pre \o << n >> \o Concat([i \in 1 .. k |-> v.item]) \o v.post
VecWrap(v, e) == IF SecIdOf(v.w) > 0 THEN Preamble \o << SecIdOf(v.w), Len(e) >> \o e ELSE Wrapped(v.w, e)
VectorScenarios ==
  { [name |-> "vec", pre |-> VecWrap(v, VecBody(v, n, k)), max |-> 0, wrap |-> "", menu |-> [default |-> { }], n |-> n, k |-> k,
     slack |-> v.w = "func" \/ v.w = "type" \/ v.w = "locals"]
    : v \in VectorPlaces, n \in 0 .. Depth, k \in 0 .. Depth }
(* Announced equals provided, or the bytes mean something else altogether  *)
VectorTheorem == scn.name = "vec" =>
                   /\ scn.n = scn.k => Final.st = "ok"
                   /\ ~scn.slack /\ scn.n # scn.k => Final.st = "err"

(***************************************************************************)
(* C15: constants.                                                         *)
(***************************************************************************)
ConstScenarios ==
  { [name |-> "const", pre |-> Wrapped("func", << o[1] >> \o bs), max |-> 0, wrap |-> "", menu |-> [default |-> { }], bits |-> bs]
    : o \in { << 67 >> }, bs \in { << a, b, c, d >> : a \in { 0, 1, 255 }, b \in { 0, 160 }, c \in { 0, 127, 128, 129, 191, 192, 255 }, d \in { 0, 63, 127, 128, 255 } } }
  \cup
  { [name |-> "const", pre |-> Wrapped("func", << 68 >> \o bs), max |-> 0, wrap |-> "", menu |-> [default |-> { }], bits |-> bs]
    : bs \in { << a, 0, 0, 0, 0, b, c, d >> : a \in { 0, 1, 255 }, b \in { 0, 160 }, c \in { 0, 15, 16, 239, 240, 247, 248, 255 }, d \in { 0, 63, 127, 128, 255 } } }
  \cup
  { [name |-> "const", pre |-> Wrapped("func", << 253, o >> \o bs), max |-> 0, wrap |-> "", menu |-> [default |-> { }], bits |-> bs]
    : o \in { 12, 13 }, bs \in { [i \in 1 .. 16 |-> IF i = k THEN x ELSE 16 * i - 1] : k \in 1 .. 16, x \in { 0, 1, 127, 128, 254 } } }
ConstTheorem ==
  scn.name = "const" => /\ Final.st = "ok"
                        /\ LET i == Final.out[2][6][1][4][1] IN i[2] = scn.bits

(***************************************************************************)
(* C01: a bit of everything: whole small modules.                          *)
(***************************************************************************)
MixMenu == [id |-> { 0, 1, 3, 10, 12, 11 }, size |-> { 1, 2, 4 }, codesize |-> { 2 }, count |-> { 0, 1 }, len |-> { 0, 1 }, char |-> { 65 },
            rectype |-> { 95, 96 }, comptype |-> { 95 }, op |-> { 11, 1 }, default |-> { 0 }, idx |-> { 0 }, data |-> { 1, 2 }, u32 |-> { 0, 1 }]
MixScenarios == { S("mix", Preamble, Depth, "", MixMenu) }

(***************************************************************************)
(* C24: custom sections among others.  The menus let customs of any bytes  *)
(* appear anywhere; Woven is the module without them.                      *)
(***************************************************************************)
CustomSecs == { << 0, 1, 0 >>, << 0, 2, 0, 1 >>, << 0, 3, 1, 65, 255 >>, << 0, 4, 0, 1, 4, 1 >>, << 0, 0 >>, << 0, 2, 1, 200 >> }
PlainSecs  == { << 1, 1, 0 >>, << 3, 1, 0 >>, << 10, 1, 0 >>, << 12, 1, 0 >>, << 8, 1, 3 >>, << 3, 2, 1, 0 >>, << 4, 1, 1 >> }
CustomScenarios ==
  { [name |-> "customs", pre |-> Preamble \o Concat(l), max |-> 0, wrap |-> "", menu |-> [default |-> { }],
     without |-> Preamble \o Concat(SelectSeq(l, LAMBDA e : e[1] # 0)), customs |-> SelectSeq(l, LAMBDA e : e[1] = 0)]
    : l \in UNION { [1 .. n -> CustomSecs \cup PlainSecs] : n \in 0 .. Low } }
GoodCustom(e) == e # << 0, 0 >> /\ e # << 0, 2, 1, 200 >>
CustomTheorem ==
  scn.name = "customs" /\ (\A n \in 1 .. Len(scn.customs) : GoodCustom(scn.customs[n])) =>
     LET a == Run(scn.without).out  b == Final.out IN
     /\ a[1] = b[1]
     /\ IF a[1] = "err" THEN a[2] = b[2]
        ELSE /\ Len(b[2][4]) = Len(scn.customs)
             /\ \A n \in 1 .. 16 : n \notin { 3, 4 } => ToJson(a[2][n]) = ToJson(b[2][n])
             /\ SelectSeq(b[2][3], LAMBDA h : h[1] # "Custom") = a[2][3]

(***************************************************************************)
(* Taking contents in whole stretches is the same as byte after byte.      *)
(***************************************************************************)
GulpTheorem == ToJson(GulpRun(Input)) = ToJson(Run(Input))
GulpNameTheorem == ToJson(GulpRun(NameInput)) = ToJson(Run(NameInput))

(***************************************************************************)
(* C19, C20, C21: what may happen to a running machine besides a byte.     *)
(***************************************************************************)
FailureKinds == << "Other", "UnexpectedEof", "WouldBlock", "InvalidData", "NotFound", "TimedOut", "BrokenPipe" >>
KindAt == FailureKinds[((m.pos + Len(m.fs)) % Len(FailureKinds)) + 1] \o "!"
EmitFault == Running(m) =>
  PrintT(ToJson([i |-> scn.pre \o inp, o |-> Fault(m, KindAt).out, a |-> m.pend, f |-> KindAt]))
EmitCut == Running(m) =>
  PrintT(ToJson([i |-> scn.pre \o inp, o |-> Eof(m).out, a |-> m.pend]))
EmitStop == m.st = "err" =>
  PrintT(ToJson([i |-> scn.pre \o inp, o |-> m.out, a |-> m.pend]))

(* An end of input is an acceptance only between sections, and otherwise   *)
(* diagnosed as an end (inside a custom section: as a short section).      *)
CutTheorem == Running(m) /\ ~AtBoundary(m) =>
  LET o == Eof(m).out IN
  o[1] = "err" /\ (o[2][1] = "SectionSizeMismatch" \/ o[2][Len(o[2])] = "io:UnexpectedEof")
FaultTheorem == Running(m) => LET o == Fault(m, KindAt).out IN o[1] = "err" /\ o[2][Len(o[2])] = "io:" \o KindAt

AllScenarios == TypeScenarios \cup NestScenarios \cup C11Scenarios \cup C12Scenarios \cup C13Scenarios
                \cup SizeScenarios \cup MixScenarios \cup OpScenarios1 \cup OpScenariosFC \cup OpScenariosFB
=============================================================================
