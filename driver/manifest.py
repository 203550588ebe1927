#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os

TRUST = ("Trusts the transcription of the binary format in spec/ (written from the WebAssembly 3 grammar and the project's documented behaviour), the projection of results in harness/src/project.rs, "
         "TLC, and the generators' choice of inputs outside the exhaustively enumerated ones.")
BOTH = "TLA+ machine of the decoder: TLC-enumerated behaviours replayed in the code, and recorded executions judged by TLC"
N = {
 "C01": ("TLA+ decoder machine; mixed scenarios enumerated by TLC and replayed; random, damaged and meaningless inputs validated as traces", "Whole modules in both directions; acceptance and the complete decoded module are compared."),
 "C02": ("TLA+ decoder machine with SectionTheorem; all section orders up to the bound enumerated and replayed; framings validated as traces", "Sequences of section identifiers and every damaged preamble are enumerated; longer files are sampled."),
 "C03": ("TLA+ decoder machine with SizeTheorem; every size around the content enumerated and replayed; wrong sizes validated as traces", "Every kind of section and code entry, declared sizes from far too small to far too large."),
 "C04": ("TLA+ decoder machine with CountTheorem; count pairs enumerated and replayed; random ones validated as traces", "All pairs of small counts; random larger ones."),
 "C05": ("TLA+ decoder machine with DataTheorem; data count/segment/use combinations enumerated and replayed; random ones validated", "All small combinations of count, segments and uses of a data index."),
 "C06": ("TLA+ arithmetic of LEB128 (LebTheorem over all boundary encodings) enumerated and replayed; integers at every place validated", "Every encoding length and boundary bit for each integer type, at every place of the grammar where an integer occurs."),
 "C07": ("TLA+ opcode table (OpTheorem); every opcode of every plane enumerated and replayed; random immediates validated", "All 256 opcodes and the sub-opcodes of 0xFB-0xFD around and inside the defined ranges."),
 "C08": ("TLA+ pushdown machine with NestTheorem; all nestings up to the bound enumerated and replayed; random ones validated", "All sequences of block/loop/if/try_table/else/end up to the bound; deeper random ones."),
 "C09": ("TLA+ grammar of types; every byte at every place enumerated and replayed; random type sections validated", "All prefixes over a menu of bytes up to the bound, every single byte at every place."),
 "C10": ("TLA+ definition of UTF-8 (NameTheorem); all 1-4 byte boundary strings enumerated and replayed; random names validated", "All boundary byte strings of UTF-8; names in every place that has one."),
 "C11": ("TLA+ grammar; import/export/tag/start sections enumerated and replayed; random ones and every byte at every place validated", "Every descriptor and every byte at every place."),
 "C12": ("TLA+ grammar; table/memory/global/element sections enumerated and replayed; random ones and every byte at every place validated", "Every flag and form; every byte at every place."),
 "C13": ("TLA+ grammar; data sections enumerated and replayed; contents of many lengths validated", "Every mode and form; contents around usual buffer sizes."),
 "C14": ("TLA+ machine with LocalTheorem; local runs enumerated and replayed; totals around 2^32 validated as traces", "Totals on both sides of the bound; expansions up to a few thousand locals are compared one by one."),
 "C15": ("TLA+ machine with ConstTheorem (bits are copied); special bit patterns enumerated and replayed; random ones validated", "All special float patterns; every byte position of f32, f64, v128 and lane bytes."),
 "C16": ("TLA+ machine: every step consumes a byte (Progress), every behaviour ends (Decided, under fairness); recorded executions judged for return and work", "Return of all generated inputs within a bound on reads and allocations linear in the bytes; nesting is limited to 200 (deeper is a known finding)."),
 "C17": ("TLA+ machine: memory bounded by bytes received (Bounded, OpensFew); recorded peak memory judged by TLC against the bytes delivered", "Every length field of the grammar with huge values; the bound is 4 MiB + 1 KiB per byte received."),
 "C18": ("TLA+ product of machine and reader (Confluent); all delivery plans of small inputs enumerated and replayed; read-by-read traces validated", "All partitions and interruptions of small inputs; sampled plans of larger ones."),
 "C19": ("TLA+ machine with FaultTheorem; a failure at every state enumerated and replayed; failures at every offset of modules validated", "Every state of the enumerated scenarios, every offset of sampled modules, twelve error kinds."),
 "C20": ("TLA+ machine with CutTheorem; every prefix of every enumerated behaviour replayed; prefixes of accepted modules validated", "All prefixes of all accepted modules generated."),
 "C21": ("TLA+ machine (a verdict is final): continuations and failing readers after the verdict's byte; read-by-read traces validated", "The byte at which the specification decides, three continuations each and a failing reader."),
 "C22": ("TLA+ machine with complete diagnoses; enumerated faulty inputs replayed and damaged inputs validated, error paths compared in full", "The whole path of the error: variants, positions and values."),
 "C23": ("TLA+ relation between an error's path and its rendered messages, judged by TLC on recorded diagnoses", "All error variants reached by the scenarios and damaged modules; words and numerals of the messages, not their phrasing."),
 "C24": ("TLA+ relation between two runs of the machine (custom sections inserted): theorem on the machine, relation on the recorded pairs", "Insertions at all boundaries, of all contents, in accepted and rejected modules."),
 "C25": ("TLA+ relation between two runs of the machine (integers re-encoded): theorem on the machine, relation on the recorded pairs", "Each integer of sampled modules at each padded length, and random combinations."),
 "C26": ("TLA+ product of several machines (Independent); all schedules up to a number of turns enumerated and carried out on threads and nested readers; histories and parallel runs compared", "All schedules with two or three turns for small inputs; random ones, histories and free parallelism for larger inputs."),
 "C27": ("TLA+ specification of the tool's invocation; all configurations enumerated and run; recorded invocations judged by TLC", "Every way to pass an input, the flag's places, unreadable inputs; compared with the library's own messages and module text."),
 "C28": ("TLA+ machine with VectorTheorem; announced counts against present elements enumerated and replayed; random ones validated", "Every vector of the grammar with counts around the number of its elements."),
}

checks = [{
    "property": p, "quick_cmd": f"python3 driver/check.py {p} --tier quick", "thorough_cmd": f"python3 driver/check.py {p} --tier thorough",
    "technique": t, "level": "model_checking", "level_note": n + " " + TRUST} for p, (t, n) in sorted(N.items())]
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "python3 driver/check.py build",
    "hooks": {"guard": "none", "enable": "No hooks: the checks use the public API of wadec and the built command-line tool.", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "no check yet"} for i in ids if i not in N],
    "notes": "TLA+ with TLC. See DESIGN.md. Known findings are listed in known-findings.txt.",
}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../MANIFEST.json"), "w"), indent=1)
