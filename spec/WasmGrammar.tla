---------------------------- MODULE WasmGrammar ----------------------------
(***************************************************************************)
(* The binary grammar as data.  A nonterminal is a record                  *)
(*                                                                         *)
(*   [k |-> kind, ...]   with kind one of                                  *)
(*     "leb"    a LEB128 integer of kind w; errors under labels lab        *)
(*     "byte"   one byte, any value                                        *)
(*     "raw"    n bytes, in order                                          *)
(*     "bytes"  u32 length, then that many bytes                           *)
(*     "name"   "bytes" that must be UTF-8                                 *)
(*     "list"   u32 count, then that many items                            *)
(*     "disp"   one marker byte selecting what follows                     *)
(*     "udisp"  a u32 selecting what follows                               *)
(*     "seq"    fields in order; the results are combined by b             *)
(*     "expr"   instructions up to the matching end                        *)
(*     "memarg" alignment flags, optional memory index, offset             *)
(*     "code"   a code entry, with its own size budget                     *)
(*     "custom" custom section contents                                    *)
(*                                                                         *)
(* Labels name the construct in an error: the diagnosis of a fault is the  *)
(* concatenation of the labels on the path from the section to the fault,  *)
(* element positions included, followed by the cause and offending values. *)
(***************************************************************************)
EXTENDS WasmNum, WasmOpcodes

Leb(w, lab)      == [k |-> "leb", w |-> w, lab |-> lab]
ByteOf(io)       == [k |-> "byte", io |-> io]
RawOf(n, io)     == [k |-> "raw", n |-> n, io |-> io]
ListOf(item)     == [k |-> "list", item |-> item]
SeqOf(fs, b, x)  == [k |-> "seq", fs |-> fs, b |-> b, x |-> x]
UDisp(lab, inv, tab) == [k |-> "udisp", lab |-> lab, inv |-> inv, tab |-> tab]

(* Targets of a marker byte *)
TVal(v)     == [t |-> "val", v |-> v, nt |-> "", c |-> << >>]
TNt(nt)     == [t |-> "nt", v |-> "", nt |-> nt, c |-> << >>]
TRe(nt)     == [t |-> "re", v |-> "", nt |-> nt, c |-> << >>]
TReB(nt, c) == [t |-> "reb", v |-> "", nt |-> nt, c |-> c] \* ctx ends with the byte
TBad        == [t |-> "bad", v |-> "", nt |-> "", c |-> << >>]

(* A marker dispatch: pairs is a sequence of <<byte, target>>.             *)
Disp(io, inv, pairs, dflt) ==
  [k |-> "disp", io |-> io, inv |-> inv,
   map |-> TLCEval([b1 \in 1 .. 256 |->
      LET hits == { i \in 1 .. Len(pairs) : pairs[i][1] = b1 - 1 }
      IN  IF hits = {} THEN dflt ELSE pairs[CHOOSE i \in hits : TRUE][2]])]

AbsHeap == << <<105,"Exn">>, <<106,"Array">>, <<107,"Struct">>, <<108,"I31">>,
              <<109,"Eq">>, <<110,"Any">>, <<111,"Extern">>, <<112,"Func">>,
              <<113,"None">>, <<114,"NoExtern">>, <<115,"NoFunc">>, <<116,"NoExn">> >>
NumVec  == << <<127, <<"Num","Int32">>>>, <<126, <<"Num","Int64">>>>,
              <<125, <<"Num","Float32">>>>, <<124, <<"Num","Float64">>>>,
              <<123, <<"Vec","V128">>>> >>

Ht(x)      == << "Ht", x >>
Ref(n, ht) == << "RefType", n, ht >>
AbsPairs(F(_)) == [i \in 1 .. 12 |-> << AbsHeap[i][1], TVal(F(Ht(AbsHeap[i][2]))) >>]
NumPairs(F(_)) == [i \in 1 .. 5  |-> << NumVec[i][1], TVal(F(NumVec[i][2])) >>]

F_id(v)    == v
F_ref(h)   == Ref(TRUE, h)
F_vref(h)  == << "Ref", Ref(TRUE, h) >>
F_bt(v)    == << "T", v >>
F_btref(h) == << "T", << "Ref", Ref(TRUE, h) >> >>

FuncRefNull == Ref(TRUE, Ht("Func"))
FuncRef     == Ref(FALSE, Ht("Func"))

G == TLCEval([
  \* ---- integers -------------------------------------------------------
  u32 |-> Leb("u32", << >>), u64 |-> Leb("u64", << >>),
  i32 |-> Leb("i32", << >>), i64 |-> Leb("i64", << >>), s33 |-> Leb("s33", << >>),
  typeidx   |-> Leb("u32", <<"DecodeTypeIdxError">>),
  funcidx   |-> Leb("u32", <<"DecodeFuncIdxError">>),
  tableidx  |-> Leb("u32", <<"DecodeTableIdxError">>),
  memidx    |-> Leb("u32", <<"DecodeMemIdxError">>),
  globalidx |-> Leb("u32", <<"DecodeGlobalIdxError">>),
  elemidx   |-> Leb("u32", <<"DecodeElemIdxError">>),
  dataidx   |-> Leb("u32", <<"DecodeDataIdxError">>),
  localidx  |-> Leb("u32", <<"DecodeLocalIdxError">>),
  labelidx  |-> Leb("u32", <<"DecodeLabelIdxError">>),
  tagidx    |-> Leb("u32", <<"DecodeTagIdxError">>),
  bytes |-> [k |-> "bytes"], name |-> [k |-> "name"], expr |-> [k |-> "expr"],
  memarg |-> [k |-> "memarg"], code |-> [k |-> "code"], custom |-> [k |-> "custom"],

  \* ---- types ----------------------------------------------------------
  heaptype |-> Disp(<<"ReadMarkerByte">>, << >>, AbsPairs(F_id), TRe("ht_idx")),
  ht_idx   |-> SeqOf(<< << <<"DecodeTypeIndex">>, "s33" >> >>, "nonneg", ""),
  reftype  |-> Disp(<<"Io">>, <<"InvalidMarkerByte","InvalidMarkerByte","InvalidAbsHeapTypeMarkerError">>,
                 << <<99, TNt("ht_null")>>, <<100, TNt("ht_nonnull")>> >> \o AbsPairs(F_ref), TBad),
  ht_null    |-> SeqOf(<< << <<"DecodeHeapType">>, "heaptype" >> >>, "reftype", TRUE),
  ht_nonnull |-> SeqOf(<< << <<"DecodeHeapType">>, "heaptype" >> >>, "reftype", FALSE),
  valtype    |-> Disp(<<"Io">>, << >>, NumPairs(F_id), TRe("vt_ref")),
  vt_ref     |-> SeqOf(<< << <<"DecodeRefType">>, "reftype" >> >>, "tag", "Ref"),
  blocktype  |-> Disp(<<"ReadMarkerByte">>, << >>,
                 << <<64, TVal("Empty")>>, <<99, TRe("bt_val")>>, <<100, TRe("bt_val")>> >>
                 \o NumPairs(F_bt) \o AbsPairs(F_btref), TRe("bt_idx")),
  bt_val     |-> SeqOf(<< << <<"DecodeValType">>, "valtype" >> >>, "tag", "T"),
  bt_idx     |-> SeqOf(<< << <<"DecodeIndex">>, "s33" >> >>, "nonneg", "I"),
  l_valtype  |-> ListOf("valtype"),

  limits |-> Disp(<<"ReadFlagByte">>, <<"UnexpectedFlagByte">>,
                << <<0, TNt("lim32")>>, <<1, TNt("lim32max")>>,
                   <<4, TNt("lim64")>>, <<5, TNt("lim64max")>> >>, TBad),
  lim32    |-> SeqOf(<< << <<"ReadMinLimit">>, "u64" >> >>, "limits", "I32"),
  lim64    |-> SeqOf(<< << <<"ReadMinLimit">>, "u64" >> >>, "limits", "I64"),
  lim32max |-> SeqOf(<< << <<"ReadMinLimit">>, "u64" >>, << <<"ReadMaxLimit">>, "u64" >> >>, "limits", "I32"),
  lim64max |-> SeqOf(<< << <<"ReadMinLimit">>, "u64" >>, << <<"ReadMaxLimit">>, "u64" >> >>, "limits", "I64"),
  tabletype |-> SeqOf(<< << <<"DecodeRefType">>, "reftype" >>, << <<"DecodeLimits">>, "limits" >> >>, "tag", "TableType"),
  memtype   |-> SeqOf(<< << <<"DecodeMemoryTypeError">>, "limits" >> >>, "tag", "MemType"),
  mutbyte   |-> Disp(<<"DecodeMutability">>, <<"InvalidMutability","InvalidMutabilityByteError">>,
                   << <<0, TVal("Const")>>, <<1, TVal("Var")>> >>, TBad),
  globaltype |-> SeqOf(<< << <<"DecodeValueType">>, "valtype" >>, << << >>, "mutbyte" >> >>, "swapx", "GlobalType"),
  tagtype    |-> Disp(<<"ReadMarkerByte">>, <<"InvalidMarkerByte">>, << <<0, TNt("tagtype_idx")>> >>, TBad),
  tagtype_idx |-> SeqOf(<< << <<"DecodeTypeIndex">>, "typeidx" >> >>, "tag", "TagType"),

  \* ---- type section ---------------------------------------------------
  rectype  |-> Disp(<<"Io">>, << >>, << <<78, TNt("rec_many")>> >>, TRe("rec_one")),
  rec_many |-> SeqOf(<< << <<"DecodeSubtypes">>, "l_subtype" >> >>, "tag", "RecType"),
  rec_one  |-> SeqOf(<< << <<"DecodeSubtype">>, "subtype" >> >>, "tagseq", "RecType"),
  l_rectype |-> ListOf("rectype"), l_subtype |-> ListOf("subtype"), l_typeidx |-> ListOf("typeidx"),
  subtype   |-> Disp(<<"Io">>, << >>, << <<79, TNt("sub_final")>>, <<80, TNt("sub_open")>> >>, TRe("sub_plain")),
  sub_final |-> SeqOf(<< << <<"DecodeSupertypes">>, "l_typeidx" >>, << <<"DecodeCompType">>, "comptype" >> >>, "subtype", TRUE),
  sub_open  |-> SeqOf(<< << <<"DecodeSupertypes">>, "l_typeidx" >>, << <<"DecodeCompType">>, "comptype" >> >>, "subtype", FALSE),
  sub_plain |-> SeqOf(<< << <<"DecodeCompType">>, "comptype" >> >>, "subplain", ""),
  comptype  |-> Disp(<<"ReadMarkerByte">>, <<"InvalidMarkerByte">>,
                  << <<94, TNt("ct_array")>>, <<95, TNt("ct_struct")>>, <<96, TNt("ct_func")>> >>, TBad),
  ct_array  |-> SeqOf(<< << <<"DecodeFieldType">>, "fieldtype" >> >>, "tag", "Array"),
  ct_struct |-> SeqOf(<< << <<"DecodeStruct">>, "l_fieldtype" >> >>, "tag", "Struct"),
  ct_func   |-> SeqOf(<< << <<"DecodeFuncParameters","DecodeList">>, "l_valtype" >>,
                         << <<"DecodeFuncResults","DecodeList">>, "l_valtype" >> >>, "tag", "Func"),
  l_fieldtype |-> ListOf("fieldtype"),
  fieldtype |-> SeqOf(<< << <<"DecodeStorageType">>, "storagetype" >>, << << >>, "ftmut" >> >>, "swapx", "FieldType"),
  ftmut     |-> Disp(<<"ReadMutabilityMarkerByte">>, <<"DecodeMutability","InvalidMutabilityByteError">>,
                   << <<0, TVal("Const")>>, <<1, TVal("Var")>> >>, TBad),
  storagetype |-> Disp(<<"ReadMarkerByte">>, << >>,
                   << <<119, TVal(<<"PackType","I16">>)>>, <<120, TVal(<<"PackType","I8">>)>> >>,
                   TReB("st_val", <<"DecodeValTypeOrPackType">>)),
  st_val    |-> SeqOf(<< << << >>, "valtype" >> >>, "tag", "ValType"),

  \* ---- the remaining sections -----------------------------------------
  l_import |-> ListOf("import"),
  import |-> SeqOf(<< << <<"DecodeModuleName">>, "name" >>, << <<"DecodeItemName">>, "name" >>,
                      << <<"DecodeExternType">>, "externtype" >> >>, "tag", "Import"),
  externtype |-> Disp(<<"ReadMarkerByte">>, <<"InvalidMarkerByte">>,
                << <<0, TNt("et_func")>>, <<1, TNt("et_table")>>, <<2, TNt("et_mem")>>,
                   <<3, TNt("et_global")>>, <<4, TNt("et_tag")>> >>, TBad),
  et_func   |-> SeqOf(<< << <<"DecodeTypeIndex">>, "typeidx" >> >>, "tag", "Func"),
  et_table  |-> SeqOf(<< << <<"DecodeTableType">>, "tabletype" >> >>, "tag", "Table"),
  et_mem    |-> SeqOf(<< << <<"DecodeMemoryType">>, "memtype" >> >>, "tag", "Mem"),
  et_global |-> SeqOf(<< << <<"DecodeGlobalType">>, "globaltype" >> >>, "tag", "Global"),
  et_tag    |-> SeqOf(<< << <<"DecodeTagType">>, "tagtype" >> >>, "tag", "Tag"),

  l_table  |-> ListOf("table"),
  table    |-> Disp(<<"Io">>, << >>, << <<64, TNt("tab_init")>> >>, TRe("tab_plain")),
  tab_init |-> SeqOf(<< << << >>, "tab_zero" >>, << <<"DecodeTableType">>, "tabletype" >>,
                        << <<"DecodeExpression">>, "expr" >> >>, "tabinit", ""),
  tab_zero |-> Disp(<<"Io">>, <<"UnexpectedMarkerByte">>, << <<0, TVal("")>> >>, TBad),
  tab_plain |-> SeqOf(<< << <<"DecodeTableType">>, "tabletype" >> >>, "tabplain", ""),

  l_mem    |-> ListOf("memtype"), l_tag |-> ListOf("tagtype"),
  l_global |-> ListOf("global"),
  global   |-> SeqOf(<< << <<"DecodeGlobalType">>, "globaltype" >>, << <<"DecodeInit">>, "expr" >> >>, "tag", "Global"),

  l_export |-> ListOf("export"),
  export   |-> SeqOf(<< << <<"DecodeName">>, "name" >>, << << >>, "exportkind" >>, << <<"DecodeIndex">>, "u32" >> >>, "export", ""),
  exportkind |-> ByteOf(<<"ReadDescriptorMarkerByte">>),

  l_elem |-> ListOf("elem"), l_funcidx |-> ListOf("funcidx"), l_expr |-> ListOf("expr"),
  elem   |-> UDisp(<<"DecodeBitfield">>, <<"InvalidBitfield">>, "elem"),
  elemkind |-> Disp(<<"Io">>, <<"InvalidElemKind">>, << <<0, TVal(FuncRefNull)>> >>, TBad),
  el0 |-> SeqOf(<< << <<"DecodeOffsetExpression">>, "expr" >>, << <<"DecodeFuncIdxVector">>, "l_funcidx" >> >>, "el0", ""),
  el1 |-> SeqOf(<< << <<"DecodeElementKind">>, "elemkind" >>, << <<"DecodeFuncIdxVector">>, "l_funcidx" >> >>, "elfuncs", "Passive"),
  el2 |-> SeqOf(<< << <<"DecodeTableIdx">>, "tableidx" >>, << <<"DecodeElementExpression">>, "expr" >>,
                   << <<"DecodeElementKind">>, "elemkind" >>, << <<"DecodeFuncIdxVector">>, "l_funcidx" >> >>, "el2", ""),
  el3 |-> SeqOf(<< << <<"DecodeElementKind">>, "elemkind" >>, << <<"DecodeFuncIdxVector">>, "l_funcidx" >> >>, "elfuncs", "Declare"),
  el4 |-> SeqOf(<< << <<"DecodeOffsetExpression">>, "expr" >>, << <<"DecodeInit">>, "l_expr" >> >>, "el4", ""),
  el5 |-> SeqOf(<< << <<"DecodeReferenceType">>, "reftype" >>, << <<"DecodeInit">>, "l_expr" >> >>, "elexprs", "Passive"),
  el6 |-> SeqOf(<< << <<"DecodeTableIdx">>, "tableidx" >>, << <<"DecodeOffsetExpression">>, "expr" >>,
                   << <<"DecodeReferenceType">>, "reftype" >>, << <<"DecodeInit">>, "l_expr" >> >>, "el6", ""),
  el7 |-> SeqOf(<< << <<"DecodeReferenceType">>, "reftype" >>, << <<"DecodeInit">>, "l_expr" >> >>, "elexprs", "Declare"),

  l_data |-> ListOf("data"),
  data   |-> UDisp(<<"DecodeBitfield">>, <<"InvalidBitfield">>, "data"),
  da0 |-> SeqOf(<< << <<"DecodeOffsetExpr">>, "expr" >>, << <<"DecodeInitVector">>, "bytes" >> >>, "da0", ""),
  da1 |-> SeqOf(<< << <<"DecodeInitVector">>, "bytes" >> >>, "da1", ""),
  da2 |-> SeqOf(<< << <<"DecodeMemIdx">>, "memidx" >>, << <<"DecodeOffsetExpr">>, "expr" >>,
                   << <<"DecodeInitVector">>, "bytes" >> >>, "da2", ""),

  l_code |-> ListOf("code"), l_local |-> ListOf("local"),
  local  |-> SeqOf(<< << <<"DecodeLocalsCount">>, "u32" >>, << <<"DecodeLocalValType">>, "valtype" >> >>, "local", ""),

  \* ---- instruction immediates (labels below ParseInstruction) ----------
  sLabel   |-> SeqOf(<< << <<"Control","LabelIdx">>, "labelidx" >> >>, "tag", ""),
  l_label  |-> ListOf("labelidx"), l_catch |-> ListOf("catch"),
  sBrTable |-> SeqOf(<< << <<"Control","DecodeLabelIdxVector">>, "l_label" >>, << <<"Control","LabelIdx">>, "labelidx" >> >>, "tag", ""),
  sFunc    |-> SeqOf(<< << <<"Control","FuncIdx">>, "funcidx" >> >>, "tag", ""),
  sTypeRef |-> SeqOf(<< << <<"Control","TypeIdx">>, "typeidx" >> >>, "tag", ""),
  sCallInd |-> SeqOf(<< << <<"Control","TypeIdx">>, "typeidx" >>, << <<"Control","TableIdx">>, "tableidx" >> >>, "swapx", ""),
  sTag     |-> SeqOf(<< << <<"Control","TagIdx">>, "tagidx" >> >>, "tag", ""),
  sSelect  |-> SeqOf(<< << <<"Parametric","DecodeList">>, "l_valtype" >> >>, "select", ""),
  sRefNull |-> SeqOf(<< << <<"Reference","HeapType">>, "heaptype" >> >>, "tag", ""),
  sRefFunc |-> SeqOf(<< << <<"Reference","FuncIdx">>, "funcidx" >> >>, "tag", ""),
  sRefTest |-> SeqOf(<< << <<"Reference","HeapType">>, "heaptype" >> >>, "reftest", FALSE),
  sRefTestN |-> SeqOf(<< << <<"Reference","HeapType">>, "heaptype" >> >>, "reftest", TRUE),
  sLocal   |-> SeqOf(<< << <<"Variable","LocalIdx">>, "localidx" >> >>, "tag", ""),
  sGlobal  |-> SeqOf(<< << <<"Variable","GlobalIdx">>, "globalidx" >> >>, "tag", ""),
  sTable   |-> SeqOf(<< << <<"Table","TableIdx">>, "tableidx" >> >>, "tag", ""),
  sMem     |-> SeqOf(<< << <<"Memory","DecodeMemarg">>, "memarg" >> >>, "tag", ""),
  sMemIdx  |-> SeqOf(<< << <<"Memory","DecodeMemIdx">>, "memidx" >> >>, "tag", ""),
  sI32 |-> SeqOf(<< << <<"Numeric","DecodeI32">>, "i32" >> >>, "tag", ""),
  sI64 |-> SeqOf(<< << <<"Numeric","DecodeI64">>, "i64" >> >>, "tag", ""),
  sF32 |-> SeqOf(<< << <<"Numeric","DecodeF32">>, "raw4" >> >>, "tag", ""),
  sF64 |-> SeqOf(<< << <<"Numeric","DecodeF64">>, "raw8" >> >>, "tag", ""),
  raw4 |-> RawOf(4, <<"ReadPayload">>), raw8 |-> RawOf(8, <<"ReadPayload">>),
  raw16 |-> RawOf(16, <<"ReadImmediateBytes">>),
  aT  |-> SeqOf(<< << <<"Aggregate","TypeIdx">>, "typeidx" >> >>, "tag", ""),
  aTF |-> SeqOf(<< << <<"Aggregate","TypeIdx">>, "typeidx" >>, << <<"Aggregate","FieldIndex">>, "u32" >> >>, "tag", ""),
  aTN |-> SeqOf(<< << <<"Aggregate","TypeIdx">>, "typeidx" >>, << <<"Aggregate","ArrayFixedLength">>, "u32" >> >>, "tag", ""),
  aTD |-> SeqOf(<< << <<"Aggregate","TypeIdx">>, "typeidx" >>, << <<"Aggregate","DataIdx">>, "dataidx" >> >>, "tag", ""),
  aTE |-> SeqOf(<< << <<"Aggregate","TypeIdx">>, "typeidx" >>, << <<"Aggregate","ElemIdx">>, "elemidx" >> >>, "tag", ""),
  aTT |-> SeqOf(<< << <<"Aggregate","TypeIdx">>, "typeidx" >>, << <<"Aggregate","TypeIdx">>, "typeidx" >> >>, "tag", ""),
  castop |-> Disp(<<"Control","ReadCastNullabilityMarker">>, <<"Control","InvalidCastNullabilityMarker">>,
                << <<0, TVal(<<FALSE,FALSE>>)>>, <<1, TVal(<<TRUE,FALSE>>)>>,
                   <<2, TVal(<<FALSE,TRUE>>)>>,  <<3, TVal(<<TRUE,TRUE>>)>> >>, TBad),
  sCast |-> SeqOf(<< << << >>, "castop" >>, << <<"Control","LabelIdx">>, "labelidx" >>,
                     << <<"Control","HeapType">>, "heaptype" >>, << <<"Control","HeapType">>, "heaptype" >> >>, "cast", ""),
  sMemInit  |-> SeqOf(<< << <<"Memory","DecodeDataIdx">>, "dataidx" >>, << <<"Memory","DecodeMemIdx">>, "memidx" >> >>, "swapx", ""),
  sDataDrop |-> SeqOf(<< << <<"Memory","DecodeDataIdx">>, "dataidx" >> >>, "tag", ""),
  sMemCopy  |-> SeqOf(<< << <<"Memory","DecodeMemIdx">>, "memidx" >>, << <<"Memory","DecodeMemIdx">>, "memidx" >> >>, "tag", ""),
  sTabInit  |-> SeqOf(<< << <<"Table","ElemIdx">>, "elemidx" >>, << <<"Table","TableIdx">>, "tableidx" >> >>, "swapx", ""),
  sElemDrop |-> SeqOf(<< << <<"Table","ElemIdx">>, "elemidx" >> >>, "tag", ""),
  sTabCopy  |-> SeqOf(<< << <<"Table","TableIdx">>, "tableidx" >>, << <<"Table","TableIdx">>, "tableidx" >> >>, "tag", ""),
  vMem  |-> SeqOf(<< << <<"Vector","Memarg">>, "memarg" >> >>, "tag", ""),
  vMemLane |-> SeqOf(<< << <<"Vector","Memarg">>, "memarg" >>, << <<"Vector","LaneIdx">>, "lane" >> >>, "tag", ""),
  vLane |-> SeqOf(<< << <<"Vector","LaneIdx">>, "lane" >> >>, "tag", ""),
  lane  |-> ByteOf(<<"LaneIdxError">>),
  vRaw  |-> SeqOf(<< << <<"Vector">>, "raw16" >> >>, "tag", ""),
  xFB |-> UDisp(<<"Reference","ReadSubOpcode">>, <<"InvalidMarkerByteAfterFB">>, "FB"),
  xFC |-> UDisp(<<"Numeric","ReadOpcode">>, <<"InvalidMarkerByteAfterFC">>, "FC"),
  xFD |-> UDisp(<<"Vector","ReadOpcode">>, <<"Vector","InvalidOpcode">>, "FD"),
  catch |-> Disp(<<"ReadMarkerByte">>, <<"InvalidMarkerByte">>,
               << <<0, TNt("catch0")>>, <<1, TNt("catch1")>>, <<2, TNt("catch2")>>, <<3, TNt("catch3")>> >>, TBad),
  catch0 |-> SeqOf(<< << <<"DecodeTagIdx">>, "tagidx" >>, << <<"DecodeLabelIdx">>, "labelidx" >> >>, "tag", "Catch"),
  catch1 |-> SeqOf(<< << <<"DecodeTagIdx">>, "tagidx" >>, << <<"DecodeLabelIdx">>, "labelidx" >> >>, "tag", "CatchRef"),
  catch2 |-> SeqOf(<< << <<"DecodeLabelIdx">>, "labelidx" >> >>, "tag", "CatchAll"),
  catch3 |-> SeqOf(<< << <<"DecodeLabelIdx">>, "labelidx" >> >>, "tag", "CatchAllRef")
])

(* Targets of a u32 dispatch: rows <<class, name, nonterminal>>, as in     *)
(* WasmOpcodes.                                                            *)
UTab == TLCEval([
  FB |-> OpFB, FC |-> OpFC, FD |-> OpFD,
  elem |-> << <<"seq","","el0">>, <<"seq","","el1">>, <<"seq","","el2">>, <<"seq","","el3">>,
              <<"seq","","el4">>, <<"seq","","el5">>, <<"seq","","el6">>, <<"seq","","el7">> >>,
  data |-> << <<"seq","","da0">>, <<"seq","","da1">>, <<"seq","","da2">> >> ])

(***************************************************************************)
(* Sections: row id+1 is <<kind, rank, nonterminal, labels>>.  The rank is *)
(* the prescribed position of the section; custom sections have none.      *)
(***************************************************************************)
Sections == <<
  << "Custom",    0, "custom",   <<"DecodeCustomSection">> >>,
  << "Type",      1, "l_rectype", <<"DecodeTypeSection","DecodeList">> >>,
  << "Import",    2, "l_import", <<"DecodeImportSection","DecodeList">> >>,
  << "Function",  3, "l_typeidx", <<"DecodeFunctionSection","DecodeList">> >>,
  << "Table",     4, "l_table",  <<"DecodeTableSection","DecodeList">> >>,
  << "Memory",    5, "l_mem",    <<"DecodeMemorySection","DecodeList">> >>,
  << "Global",    7, "l_global", <<"DecodeGlobalSection","DecodeList">> >>,
  << "Export",    8, "l_export", <<"DecodeExportSection","DecodeList">> >>,
  << "Start",     9, "funcidx",  <<"DecodeStartSection","DecodeStartSectionError">> >>,
  << "Element",  10, "l_elem",   <<"DecodeElementSection","DecodeList">> >>,
  << "Code",     12, "l_code",   <<"DecodeCodeSection","DecodeList">> >>,
  << "Data",     13, "l_data",   <<"DecodeDataSection","DecodeList">> >>,
  << "DataCount",11, "u32",      <<"DecodeDatacountSection","DecodeDataSegmentCount">> >>,
  << "Tag",       6, "l_tag",    <<"DecodeTagSection","DecodeList">> >> >>

MaxSectionId == 13
CodeId == 10
Preamble == << 0, 97, 115, 109, 1, 0, 0, 0 >>
=============================================================================
