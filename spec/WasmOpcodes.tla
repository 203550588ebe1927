--------------------------- MODULE WasmOpcodes ---------------------------
(* Opcode tables of the WebAssembly 3.0 binary format.  Row n+1 describes   *)
(* opcode (or sub-opcode) n as <<class, instruction, immediate shape>>;     *)
(* the immediate shapes are defined in WasmGrammar.                         *)

OpMain == <<
  (*   0 *) <<"unit","Unreachable","">>, <<"unit","Nop","">>, <<"ctl","Block","">>,
  (*   3 *) <<"ctl","Loop","">>, <<"ctl","If","">>, <<"else","","">>,
  (*   6 *) <<"bad","","">>, <<"bad","","">>, <<"seq","Throw","sTag">>,
  (*   9 *) <<"bad","","">>, <<"unit","ThrowRef","">>, <<"end","","">>,
  (*  12 *) <<"seq","Br","sLabel">>, <<"seq","BrIf","sLabel">>, <<"seq","BrTable","sBrTable">>,
  (*  15 *) <<"unit","Return","">>, <<"seq","Call","sFunc">>, <<"seq","CallIndirect","sCallInd">>,
  (*  18 *) <<"seq","ReturnCall","sFunc">>, <<"seq","ReturnCallIndirect","sCallInd">>, <<"seq","CallRef","sTypeRef">>,
  (*  21 *) <<"seq","ReturnCallRef","sTypeRef">>, <<"bad","","">>, <<"bad","","">>,
  (*  24 *) <<"bad","","">>, <<"bad","","">>, <<"unit","Drop","">>,
  (*  27 *) <<"selnone","","">>, <<"seq","Select","sSelect">>, <<"bad","","">>,
  (*  30 *) <<"bad","","">>, <<"ctl","TryTable","">>, <<"seq","LocalGet","sLocal">>,
  (*  33 *) <<"seq","LocalSet","sLocal">>, <<"seq","LocalTee","sLocal">>, <<"seq","GlobalGet","sGlobal">>,
  (*  36 *) <<"seq","GlobalSet","sGlobal">>, <<"seq","TableGet","sTable">>, <<"seq","TableSet","sTable">>,
  (*  39 *) <<"bad","","">>, <<"seq","I32Load","sMem">>, <<"seq","I64Load","sMem">>,
  (*  42 *) <<"seq","F32Load","sMem">>, <<"seq","F64Load","sMem">>, <<"seq","I32Load8s","sMem">>,
  (*  45 *) <<"seq","I32Load8u","sMem">>, <<"seq","I32Load16s","sMem">>, <<"seq","I32Load16u","sMem">>,
  (*  48 *) <<"seq","I64Load8s","sMem">>, <<"seq","I64Load8u","sMem">>, <<"seq","I64Load16s","sMem">>,
  (*  51 *) <<"seq","I64Load16u","sMem">>, <<"seq","I64Load32s","sMem">>, <<"seq","I64Load32u","sMem">>,
  (*  54 *) <<"seq","I32Store","sMem">>, <<"seq","I64Store","sMem">>, <<"seq","F32Store","sMem">>,
  (*  57 *) <<"seq","F64Store","sMem">>, <<"seq","I32Store8","sMem">>, <<"seq","I32Store16","sMem">>,
  (*  60 *) <<"seq","I64Store8","sMem">>, <<"seq","I64Store16","sMem">>, <<"seq","I64Store32","sMem">>,
  (*  63 *) <<"seq","MemorySize","sMemIdx">>, <<"seq","MemoryGrow","sMemIdx">>, <<"seq","I32Const","sI32">>,
  (*  66 *) <<"seq","I64Const","sI64">>, <<"seq","F32Const","sF32">>, <<"seq","F64Const","sF64">>,
  (*  69 *) <<"unit","I32Eqz","">>, <<"unit","I32Eq","">>, <<"unit","I32Ne","">>,
  (*  72 *) <<"unit","I32LtS","">>, <<"unit","I32LtU","">>, <<"unit","I32GtS","">>,
  (*  75 *) <<"unit","I32GtU","">>, <<"unit","I32LeS","">>, <<"unit","I32LeU","">>,
  (*  78 *) <<"unit","I32GeS","">>, <<"unit","I32GeU","">>, <<"unit","I64Eqz","">>,
  (*  81 *) <<"unit","I64Eq","">>, <<"unit","I64Ne","">>, <<"unit","I64LtS","">>,
  (*  84 *) <<"unit","I64LtU","">>, <<"unit","I64GtS","">>, <<"unit","I64GtU","">>,
  (*  87 *) <<"unit","I64LeS","">>, <<"unit","I64LeU","">>, <<"unit","I64GeS","">>,
  (*  90 *) <<"unit","I64GeU","">>, <<"unit","F32Eq","">>, <<"unit","F32Ne","">>,
  (*  93 *) <<"unit","F32Lt","">>, <<"unit","F32Gt","">>, <<"unit","F32Le","">>,
  (*  96 *) <<"unit","F32Ge","">>, <<"unit","F64Eq","">>, <<"unit","F64Ne","">>,
  (*  99 *) <<"unit","F64Lt","">>, <<"unit","F64Gt","">>, <<"unit","F64Le","">>,
  (* 102 *) <<"unit","F64Ge","">>, <<"unit","I32Clz","">>, <<"unit","I32Ctz","">>,
  (* 105 *) <<"unit","I32Popcnt","">>, <<"unit","I32Add","">>, <<"unit","I32Sub","">>,
  (* 108 *) <<"unit","I32Mul","">>, <<"unit","I32DivS","">>, <<"unit","I32DivU","">>,
  (* 111 *) <<"unit","I32RemS","">>, <<"unit","I32RemU","">>, <<"unit","I32And","">>,
  (* 114 *) <<"unit","I32Or","">>, <<"unit","I32Xor","">>, <<"unit","I32Shl","">>,
  (* 117 *) <<"unit","I32ShrS","">>, <<"unit","I32ShrU","">>, <<"unit","I32Rotl","">>,
  (* 120 *) <<"unit","I32Rotr","">>, <<"unit","I64Clz","">>, <<"unit","I64Ctz","">>,
  (* 123 *) <<"unit","I64Popcnt","">>, <<"unit","I64Add","">>, <<"unit","I64Sub","">>,
  (* 126 *) <<"unit","I64Mul","">>, <<"unit","I64DivS","">>, <<"unit","I64DivU","">>,
  (* 129 *) <<"unit","I64RemS","">>, <<"unit","I64RemU","">>, <<"unit","I64And","">>,
  (* 132 *) <<"unit","I64Or","">>, <<"unit","I64Xor","">>, <<"unit","I64Shl","">>,
  (* 135 *) <<"unit","I64ShrS","">>, <<"unit","I64ShrU","">>, <<"unit","I64Rotl","">>,
  (* 138 *) <<"unit","I64Rotr","">>, <<"unit","F32Abs","">>, <<"unit","F32Neg","">>,
  (* 141 *) <<"unit","F32Ceil","">>, <<"unit","F32Floor","">>, <<"unit","F32Trunc","">>,
  (* 144 *) <<"unit","F32Nearest","">>, <<"unit","F32Sqrt","">>, <<"unit","F32Add","">>,
  (* 147 *) <<"unit","F32Sub","">>, <<"unit","F32Mul","">>, <<"unit","F32Div","">>,
  (* 150 *) <<"unit","F32Min","">>, <<"unit","F32Max","">>, <<"unit","F32Copysign","">>,
  (* 153 *) <<"unit","F64Abs","">>, <<"unit","F64Neg","">>, <<"unit","F64Ceil","">>,
  (* 156 *) <<"unit","F64Floor","">>, <<"unit","F64Trunc","">>, <<"unit","F64Nearest","">>,
  (* 159 *) <<"unit","F64Sqrt","">>, <<"unit","F64Add","">>, <<"unit","F64Sub","">>,
  (* 162 *) <<"unit","F64Mul","">>, <<"unit","F64Div","">>, <<"unit","F64Min","">>,
  (* 165 *) <<"unit","F64Max","">>, <<"unit","F64Copysign","">>, <<"unit","I32WrapI64","">>,
  (* 168 *) <<"unit","I32TruncF32S","">>, <<"unit","I32TruncF32U","">>, <<"unit","I32TruncF64S","">>,
  (* 171 *) <<"unit","I32TruncF64U","">>, <<"unit","I64ExtendI32S","">>, <<"unit","I64ExtendI32U","">>,
  (* 174 *) <<"unit","I64TruncF32S","">>, <<"unit","I64TruncF32U","">>, <<"unit","I64TruncF64S","">>,
  (* 177 *) <<"unit","I64TruncF64U","">>, <<"unit","F32ConvertI32S","">>, <<"unit","F32ConvertI32U","">>,
  (* 180 *) <<"unit","F32ConvertI64S","">>, <<"unit","F32ConvertI64U","">>, <<"unit","F32DemoteF64","">>,
  (* 183 *) <<"unit","F64ConvertI32S","">>, <<"unit","F64ConvertI32U","">>, <<"unit","F64ConvertI64S","">>,
  (* 186 *) <<"unit","F64ConvertI64U","">>, <<"unit","F64PromoteF32","">>, <<"unit","I32ReinterpretF32","">>,
  (* 189 *) <<"unit","I64ReinterpretF64","">>, <<"unit","F32ReinterpretI32","">>, <<"unit","F64ReinterpretI64","">>,
  (* 192 *) <<"unit","I32Extend8S","">>, <<"unit","I32Extend16S","">>, <<"unit","I64Extend8S","">>,
  (* 195 *) <<"unit","I64Extend16S","">>, <<"unit","I64Extend32S","">>, <<"bad","","">>,
  (* 198 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 201 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 204 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 207 *) <<"bad","","">>, <<"seq","RefNull","sRefNull">>, <<"unit","RefIsNull","">>,
  (* 210 *) <<"seq","RefFunc","sRefFunc">>, <<"unit","RefEq","">>, <<"unit","RefAsNonNull","">>,
  (* 213 *) <<"seq","BrOnNull","sLabel">>, <<"seq","BrOnNonNull","sLabel">>, <<"bad","","">>,
  (* 216 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 219 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 222 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 225 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 228 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 231 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 234 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 237 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 240 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 243 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 246 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 249 *) <<"bad","","">>, <<"bad","","">>, <<"prefix","xFB","">>,
  (* 252 *) <<"prefix","xFC","">>, <<"prefix","xFD","">>, <<"bad","","">>,
  (* 255 *) <<"bad","","">>
>>

OpFB == <<
  (*   0 *) <<"seq","StructNew","aT">>, <<"seq","StructNewDefault","aT">>, <<"seq","StructGet","aTF">>,
  (*   3 *) <<"seq","StructGetS","aTF">>, <<"seq","StructGetU","aTF">>, <<"seq","StructSet","aTF">>,
  (*   6 *) <<"seq","ArrayNew","aT">>, <<"seq","ArrayNewDefault","aT">>, <<"seq","ArrayNewFixed","aTN">>,
  (*   9 *) <<"seq","ArrayNewData","aTD">>, <<"seq","ArrayNewElem","aTE">>, <<"seq","ArrayGet","aT">>,
  (*  12 *) <<"seq","ArrayGetS","aT">>, <<"seq","ArrayGetU","aT">>, <<"seq","ArraySet","aT">>,
  (*  15 *) <<"unit","ArrayLen","">>, <<"seq","ArrayFill","aT">>, <<"seq","ArrayCopy","aTT">>,
  (*  18 *) <<"seq","ArrayInitData","aTD">>, <<"seq","ArrayInitElem","aTE">>, <<"seq","RefTest","sRefTest">>,
  (*  21 *) <<"seq","RefTest","sRefTestN">>, <<"seq","RefCast","sRefTest">>, <<"seq","RefCast","sRefTestN">>,
  (*  24 *) <<"seq","BrOnCast","sCast">>, <<"seq","BrOnCastFail","sCast">>, <<"unit","AnyConvertExtern","">>,
  (*  27 *) <<"unit","ExternConvertAny","">>, <<"unit","RefI31","">>, <<"unit","I31GetS","">>,
  (*  30 *) <<"unit","I31GetU","">>
>>

OpFC == <<
  (*   0 *) <<"unit","I32TruncSatF32S","">>, <<"unit","I32TruncSatF32U","">>, <<"unit","I32TruncSatF64S","">>,
  (*   3 *) <<"unit","I32TruncSatF64U","">>, <<"unit","I64TruncSatF32S","">>, <<"unit","I64TruncSatF32U","">>,
  (*   6 *) <<"unit","I64TruncSatF64S","">>, <<"unit","I64TruncSatF64U","">>, <<"seq","MemoryInit","sMemInit">>,
  (*   9 *) <<"seq","DataDrop","sDataDrop">>, <<"seq","MemoryCopy","sMemCopy">>, <<"seq","MemoryFill","sMemIdx">>,
  (*  12 *) <<"seq","TableInit","sTabInit">>, <<"seq","ElemDrop","sElemDrop">>, <<"seq","TableCopy","sTabCopy">>,
  (*  15 *) <<"seq","TableGrow","sTable">>, <<"seq","TableSize","sTable">>, <<"seq","TableFill","sTable">>
>>

OpFD == <<
  (*   0 *) <<"seq","V128Load","vMem">>, <<"seq","V128Load8x8S","vMem">>, <<"seq","V128Load8x8U","vMem">>,
  (*   3 *) <<"seq","V128Load16x4S","vMem">>, <<"seq","V128Load16x4U","vMem">>, <<"seq","V128Load32x2S","vMem">>,
  (*   6 *) <<"seq","V128Load32x2U","vMem">>, <<"seq","V128Load8Splat","vMem">>, <<"seq","V128Load16Splat","vMem">>,
  (*   9 *) <<"seq","V128Load32Splat","vMem">>, <<"seq","V128Load64Splat","vMem">>, <<"seq","V128Store","vMem">>,
  (*  12 *) <<"seq","V128Const","vRaw">>, <<"seq","I8x16Shuffle","vRaw">>, <<"unit","I8x16Swizzle","">>,
  (*  15 *) <<"unit","I8x16Splat","">>, <<"unit","I16x8Splat","">>, <<"unit","I32x4Splat","">>,
  (*  18 *) <<"unit","I64x2Splat","">>, <<"unit","F32x4Splat","">>, <<"unit","F64x2Splat","">>,
  (*  21 *) <<"seq","I8x16ExtractLaneS","vLane">>, <<"seq","I8x16ExtractLaneU","vLane">>, <<"seq","I8x16ReplaceLane","vLane">>,
  (*  24 *) <<"seq","I16x8ExtractLaneS","vLane">>, <<"seq","I16x8ExtractLaneU","vLane">>, <<"seq","I16x8ReplaceLane","vLane">>,
  (*  27 *) <<"seq","I32x4ExtractLane","vLane">>, <<"seq","I32x4ReplaceLane","vLane">>, <<"seq","I64x2ExtractLane","vLane">>,
  (*  30 *) <<"seq","I64x2ReplaceLane","vLane">>, <<"seq","F32x4ExtractLane","vLane">>, <<"seq","F32x4ReplaceLane","vLane">>,
  (*  33 *) <<"seq","F64x2ExtractLane","vLane">>, <<"seq","F64x2ReplaceLane","vLane">>, <<"unit","I8x16Eq","">>,
  (*  36 *) <<"unit","I8x16Ne","">>, <<"unit","I8x16LtS","">>, <<"unit","I8x16LtU","">>,
  (*  39 *) <<"unit","I8x16GtS","">>, <<"unit","I8x16GtU","">>, <<"unit","I8x16LeS","">>,
  (*  42 *) <<"unit","I8x16LeU","">>, <<"unit","I8x16GeS","">>, <<"unit","I8x16GeU","">>,
  (*  45 *) <<"unit","I16x8Eq","">>, <<"unit","I16x8Ne","">>, <<"unit","I16x8LtS","">>,
  (*  48 *) <<"unit","I16x8LtU","">>, <<"unit","I16x8GtS","">>, <<"unit","I16x8GtU","">>,
  (*  51 *) <<"unit","I16x8LeS","">>, <<"unit","I16x8LeU","">>, <<"unit","I16x8GeS","">>,
  (*  54 *) <<"unit","I16x8GeU","">>, <<"unit","I32x4Eq","">>, <<"unit","I32x4Ne","">>,
  (*  57 *) <<"unit","I32x4LtS","">>, <<"unit","I32x4LtU","">>, <<"unit","I32x4GtS","">>,
  (*  60 *) <<"unit","I32x4GtU","">>, <<"unit","I32x4LeS","">>, <<"unit","I32x4LeU","">>,
  (*  63 *) <<"unit","I32x4GeS","">>, <<"unit","I32x4GeU","">>, <<"unit","F32x4Eq","">>,
  (*  66 *) <<"unit","F32x4Ne","">>, <<"unit","F32x4Lt","">>, <<"unit","F32x4Gt","">>,
  (*  69 *) <<"unit","F32x4Le","">>, <<"unit","F32x4Ge","">>, <<"unit","F64x2Eq","">>,
  (*  72 *) <<"unit","F64x2Ne","">>, <<"unit","F64x2Lt","">>, <<"unit","F64x2Gt","">>,
  (*  75 *) <<"unit","F64x2Le","">>, <<"unit","F64x2Ge","">>, <<"unit","V128Not","">>,
  (*  78 *) <<"unit","V128And","">>, <<"unit","V128AndNot","">>, <<"unit","V128Or","">>,
  (*  81 *) <<"unit","V128Xor","">>, <<"unit","V128Bitselect","">>, <<"unit","V128AnyTrue","">>,
  (*  84 *) <<"seq","V128Load8Lane","vMemLane">>, <<"seq","V128Load16Lane","vMemLane">>, <<"seq","V128Load32Lane","vMemLane">>,
  (*  87 *) <<"seq","V128Load64Lane","vMemLane">>, <<"seq","V128Store8Lane","vMemLane">>, <<"seq","V128Store16Lane","vMemLane">>,
  (*  90 *) <<"seq","V128Store32Lane","vMemLane">>, <<"seq","V128Store64Lane","vMemLane">>, <<"seq","V128Load32Zero","vMem">>,
  (*  93 *) <<"seq","V128Load64Zero","vMem">>, <<"unit","F32x4DemoteF64x2Zero","">>, <<"unit","F64x2PromoteLowF32x4","">>,
  (*  96 *) <<"unit","I8x16Abs","">>, <<"unit","I8x16Neg","">>, <<"unit","I8x16Popcnt","">>,
  (*  99 *) <<"unit","I8x16AllTrue","">>, <<"unit","I8x16Bitmask","">>, <<"unit","I8x16NarrowI16x8S","">>,
  (* 102 *) <<"unit","I8x16NarrowI16x8U","">>, <<"unit","F32x4Ceil","">>, <<"unit","F32x4Floor","">>,
  (* 105 *) <<"unit","F32x4Trunc","">>, <<"unit","F32x4Nearest","">>, <<"unit","I8x16Shl","">>,
  (* 108 *) <<"unit","I8x16ShrS","">>, <<"unit","I8x16ShrU","">>, <<"unit","I8x16Add","">>,
  (* 111 *) <<"unit","I8x16AddSatS","">>, <<"unit","I8x16AddSatU","">>, <<"unit","I8x16Sub","">>,
  (* 114 *) <<"unit","I8x16SubSatS","">>, <<"unit","I8x16SubSatU","">>, <<"unit","F64x2Ceil","">>,
  (* 117 *) <<"unit","F64x2Floor","">>, <<"unit","I8x16MinS","">>, <<"unit","I8x16MinU","">>,
  (* 120 *) <<"unit","I8x16MaxS","">>, <<"unit","I8x16MaxU","">>, <<"unit","F64x2Trunc","">>,
  (* 123 *) <<"unit","I8x16AvgrU","">>, <<"unit","I16x8ExtaddPairwiseI8x16S","">>, <<"unit","I16x8ExtaddPairwiseI8x16U","">>,
  (* 126 *) <<"unit","I32x4ExtaddPairwiseI16x8S","">>, <<"unit","I32x4ExtaddPairwiseI16x8U","">>, <<"unit","I16x8Abs","">>,
  (* 129 *) <<"unit","I16x8Neg","">>, <<"unit","I16x8Q15MulrSatS","">>, <<"unit","I16x8AllTrue","">>,
  (* 132 *) <<"unit","I16x8Bitmask","">>, <<"unit","I16x8NarrowI32x4S","">>, <<"unit","I16x8NarrowI32x4U","">>,
  (* 135 *) <<"unit","I16x8ExtendLowI8x16S","">>, <<"unit","I16x8ExtendHighI8x16S","">>, <<"unit","I16x8ExtendLowI8x16U","">>,
  (* 138 *) <<"unit","I16x8ExtendHighI8x16U","">>, <<"unit","I16x8Shl","">>, <<"unit","I16x8ShrS","">>,
  (* 141 *) <<"unit","I16x8ShrU","">>, <<"unit","I16x8Add","">>, <<"unit","I16x8AddSatS","">>,
  (* 144 *) <<"unit","I16x8AddSatU","">>, <<"unit","I16x8Sub","">>, <<"unit","I16x8SubSatS","">>,
  (* 147 *) <<"unit","I16x8SubSatU","">>, <<"unit","F64x2Nearest","">>, <<"unit","I16x8Mul","">>,
  (* 150 *) <<"unit","I16x8MinS","">>, <<"unit","I16x8MinU","">>, <<"unit","I16x8MaxS","">>,
  (* 153 *) <<"unit","I16x8MaxU","">>, <<"bad","","">>, <<"unit","I16x8AvgrU","">>,
  (* 156 *) <<"unit","I16x8ExtmulLowI8x16S","">>, <<"unit","I16x8ExtmulHighI8x16S","">>, <<"unit","I16x8ExtmulLowI8x16U","">>,
  (* 159 *) <<"unit","I16x8ExtmulHighI8x16U","">>, <<"unit","I32x4Abs","">>, <<"unit","I32x4Neg","">>,
  (* 162 *) <<"bad","","">>, <<"unit","I32x4AllTrue","">>, <<"unit","I32x4Bitmask","">>,
  (* 165 *) <<"bad","","">>, <<"bad","","">>, <<"unit","I32x4ExtendLowI16x8S","">>,
  (* 168 *) <<"unit","I32x4ExtendHighI16x8S","">>, <<"unit","I32x4ExtendLowI16x8U","">>, <<"unit","I32x4ExtendHighI16x8U","">>,
  (* 171 *) <<"unit","I32x4Shl","">>, <<"unit","I32x4ShrS","">>, <<"unit","I32x4ShrU","">>,
  (* 174 *) <<"unit","I32x4Add","">>, <<"bad","","">>, <<"bad","","">>,
  (* 177 *) <<"unit","I32x4Sub","">>, <<"bad","","">>, <<"bad","","">>,
  (* 180 *) <<"bad","","">>, <<"unit","I32x4Mul","">>, <<"unit","I32x4MinS","">>,
  (* 183 *) <<"unit","I32x4MinU","">>, <<"unit","I32x4MaxS","">>, <<"unit","I32x4MaxU","">>,
  (* 186 *) <<"unit","I32x4DotI16x8S","">>, <<"bad","","">>, <<"unit","I32x4ExtmulLowI16x8S","">>,
  (* 189 *) <<"unit","I32x4ExtmulHighI16x8S","">>, <<"unit","I32x4ExtmulLowI16x8U","">>, <<"unit","I32x4ExtmulHighI16x8U","">>,
  (* 192 *) <<"unit","I64x2Abs","">>, <<"unit","I64x2Neg","">>, <<"bad","","">>,
  (* 195 *) <<"unit","I64x2AllTrue","">>, <<"unit","I64x2Bitmask","">>, <<"bad","","">>,
  (* 198 *) <<"bad","","">>, <<"unit","I64x2ExtendLowI32x4S","">>, <<"unit","I64x2ExtendHighI32x4S","">>,
  (* 201 *) <<"unit","I64x2ExtendLowI32x4U","">>, <<"unit","I64x2ExtendHighI32x4U","">>, <<"unit","I64x2Shl","">>,
  (* 204 *) <<"unit","I64x2ShrS","">>, <<"unit","I64x2ShrU","">>, <<"unit","I64x2Add","">>,
  (* 207 *) <<"bad","","">>, <<"bad","","">>, <<"unit","I64x2Sub","">>,
  (* 210 *) <<"bad","","">>, <<"bad","","">>, <<"bad","","">>,
  (* 213 *) <<"unit","I64x2Mul","">>, <<"unit","I64x2Eq","">>, <<"unit","I64x2Ne","">>,
  (* 216 *) <<"unit","I64x2LtS","">>, <<"unit","I64x2GtS","">>, <<"unit","I64x2LeS","">>,
  (* 219 *) <<"unit","I64x2GeS","">>, <<"unit","I64x2ExtmulLowI32x4S","">>, <<"unit","I64x2ExtmulHighI32x4S","">>,
  (* 222 *) <<"unit","I64x2ExtmulLowI32x4U","">>, <<"unit","I64x2ExtmulHighI32x4U","">>, <<"unit","F32x4Abs","">>,
  (* 225 *) <<"unit","F32x4Neg","">>, <<"bad","","">>, <<"unit","F32x4Sqrt","">>,
  (* 228 *) <<"unit","F32x4Add","">>, <<"unit","F32x4Sub","">>, <<"unit","F32x4Mul","">>,
  (* 231 *) <<"unit","F32x4Div","">>, <<"unit","F32x4Min","">>, <<"unit","F32x4Max","">>,
  (* 234 *) <<"unit","F32x4PMin","">>, <<"unit","F32x4PMax","">>, <<"unit","F64x2Abs","">>,
  (* 237 *) <<"unit","F64x2Neg","">>, <<"bad","","">>, <<"unit","F64x2Sqrt","">>,
  (* 240 *) <<"unit","F64x2Add","">>, <<"unit","F64x2Sub","">>, <<"unit","F64x2Mul","">>,
  (* 243 *) <<"unit","F64x2Div","">>, <<"unit","F64x2Min","">>, <<"unit","F64x2Max","">>,
  (* 246 *) <<"unit","F64x2PMin","">>, <<"unit","F64x2PMax","">>, <<"unit","I32x4TruncSatF32x4S","">>,
  (* 249 *) <<"unit","I32x4TruncSatF32x4U","">>, <<"unit","F32x4ConvertI32x4S","">>, <<"unit","F32x4ConvertI32x4U","">>,
  (* 252 *) <<"unit","I32x4TruncSatF64x2SZero","">>, <<"unit","I32x4TruncSatF64x2UZero","">>, <<"unit","F64x2ConvertLowI32x4S","">>,
  (* 255 *) <<"unit","F64x2ConvertLowI32x4U","">>, <<"unit","I8x16RelaxedSwizzle","">>, <<"unit","I32x4RelaxedTruncF32x4S","">>,
  (* 258 *) <<"unit","I32x4RelaxedTruncF32x4U","">>, <<"unit","I32x4RelaxedTruncF64x2SZero","">>, <<"unit","I32x4RelaxedTruncF64x2UZero","">>,
  (* 261 *) <<"unit","F32x4RelaxedMAdd","">>, <<"unit","F32x4RelaxedNMAdd","">>, <<"unit","F64x2RelaxedMAdd","">>,
  (* 264 *) <<"unit","F64x2RelaxedNMAdd","">>, <<"unit","I8x16RelaxedLaneSelect","">>, <<"unit","I16x8RelaxedLaneSelect","">>,
  (* 267 *) <<"unit","I32x4RelaxedLaneSelect","">>, <<"unit","I64x2RelaxedLaneSelect","">>, <<"unit","F32x4RelaxedMin","">>,
  (* 270 *) <<"unit","F32x4RelaxedMax","">>, <<"unit","F64x2RelaxedMin","">>, <<"unit","F64x2RelaxedMax","">>,
  (* 273 *) <<"unit","I16x8RelaxedQ15MulrS","">>, <<"unit","I16x8RelaxedDotSI8x16","">>, <<"unit","I32x4RelaxedDotAddSI16x8","">>
>>

===========================================================================
