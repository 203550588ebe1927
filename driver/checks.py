"""One function per property."""
import json
import core, families as F, sweeps as S
from gen import Gen, ser

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


@check("C01")
def c01(x):
    x.explore("MixScenarios", 12 if x.quick else 15)
    x.validate(F.modules(x.seed, 2500 if x.quick else 25000), "verdict", "random modules")
    x.validate(F.damaged(x.seed + 1, 2500 if x.quick else 25000), "verdict", "damaged modules")
    x.validate(F.garbage(x.seed + 2, 500 if x.quick else 5000) + S.preambles(), "verdict", "random bytes, preambles")
    x.validate(S.some(x.seed, 5000 if x.quick else 40000), "verdict", "sweeps")
    x.validate(S.markers(x.seed, 24 if x.quick else 256), "verdict", "each byte with other values")


@check("C02")
def c02(x):
    x.explore("SectionScenarios", 2 if x.quick else 3, theorems=["SectionTheorem"])
    x.explore("PreambleScenariosQ" if x.quick else "PreambleScenarios", 1, theorems=["PreambleTheorem"])
    x.validate(F.framings(x.seed, 2500 if x.quick else 25000), "verdict", "reordered sections")
    x.validate(F.section_triples() + S.preambles(), "verdict", "every triple, every exchange, every id, every byte of the preamble")


@check("C03")
def c03(x):
    x.explore("SizeScenarios", 4 if x.quick else 8, theorems=["SizeTheorem", "GulpTheorem"])
    x.validate(F.sizes(x.seed, 3000 if x.quick else 30000), "verdict", "wrong sizes")
    x.validate(F.entries(not x.quick) + S.entry_sizes(140, 10 if x.quick else 15), "verdict", "code entries")
    x.validate(S.section_sizes(70, 10 if x.quick else 15), "verdict", "sections of every length")


@check("C04")
def c04(x):
    x.explore("CountScenarios", 3 if x.quick else 4, theorems=["CountTheorem"])
    x.validate(F.code_counts(x.seed, 1500 if x.quick else 15000) + S.count_mismatches(), "verdict", "function and code counts")
    x.validate([b for b in S.vector_counts(300 if not x.quick else 70, 10) if b[8] == 3], "verdict", "counts of every size")
    x.validate(F.wide_counts(), "verdict", "counts that agree in their low bits")


@check("C05")
def c05(x):
    x.explore("DataScenarios", 2, theorems=["DataTheorem", "GulpTheorem"])
    x.validate(F.data_counts(x.seed, 2000 if x.quick else 20000) + S.data_mismatches(), "verdict", "data counts and indices")
    x.validate(F.data_nests() + S.data_uses(x.seed, not x.quick), "verdict", "uses of data indices at every place")
    x.validate(F.wide_counts(), "verdict", "counts that agree in their low bits")


@check("C06")
def c06(x):
    x.explore("LebScenarios", 2, "EmitLeb", ["LebTheorem"])
    x.validate(F.integers(x.seed, 3000 if x.quick else 30000), "verdict", "integers in modules")
    x.validate(S.values(["types", "items", "stores", "data", "custom"], x.seed, 2 if x.quick else 1) + S.values(["code"], x.seed, 9 if x.quick else 1), "verdict", "each integer of each form, with every power of two")
    x.validate(S.finals(x.seed, 5 if x.quick else 1), "verdict", "each integer of each form, with every final byte")


@check("C07")
def c07(x):
    x.explore("OpAll", 1, "EmitOp", ["OpTheorem"])
    x.explore("OpScenarios", 1)
    x.validate(F.opcodes(x.seed, 3 if x.quick else 40), "verdict", "every opcode")
    x.validate(S.values(["code"], x.seed, 3 if x.quick else 1), "verdict", "each immediate, with every power of two")
    x.validate(S.instruction_runs(24 if x.quick else 140, 9 if x.quick else 12), "verdict", "expressions of every length")


@check("C08")
def c08(x):
    x.explore("NestScenarios", 8 if x.quick else 9, theorems=["NestTheorem"])
    x.validate(F.nestings(x.seed, 2000 if x.quick else 20000) + S.token_words(x.seed, 2500 if x.quick else 30000), "verdict", "nestings")
    # deeper than a usual stack allows (the listed finding of C16), on a larger one
    x.validate([{"b": b, "deep": True} for d in ((300, 1100, 3000) if x.quick else (300, 1100, 3000, 6000)) for b in F.deep(x.seed, d)], "verdict", "nestings of thousands")


@check("C09")
def c09(x):
    x.explore("TypeByteScenarios", 1, "EmitType")
    x.explore("TypeScenarios", 6 if x.quick else 8)
    x.validate(F.one_section(x.seed, 2500 if x.quick else 25000, [1]) + S.values(["types"]), "verdict", "type sections")
    x.validate([b for b in S.vector_counts(40 if x.quick else 300, 9 if x.quick else 12) if b[8] == 1], "verdict", "vectors of types of every length")


@check("C10")
def c10(x):
    x.explore("NameScenarios", 1, "EmitName", ["NameTheorem", "GulpNameTheorem"])
    x.validate(F.names(x.seed, 3000 if x.quick else 30000), "verdict", "names")
    x.validate(F.names_at() + S.long_names(), "verdict", "something unusual at each place, each character at each boundary")
    x.validate([b for b in F.buffers((4095, 4096, 8193) if x.quick else (4095, 4096, 8193, 16384, 65535, 65536, 65537))], "verdict", "long names")
    x.validate(S.huge_names(), "verdict", "names of a hundred thousand and of a million bytes")


@check("C11")
def c11(x):
    x.explore("C11Scenarios", 8)
    x.validate(F.one_section(x.seed, 2500 if x.quick else 25000, [2, 7, 8, 13]), "verdict", "imports, exports, tags, start")
    x.validate(F.item_bytes([2, 7, 13]) + S.values(["items"]), "verdict", "every byte at every place, each integer with every power of two")
    x.validate([b for b in S.vector_counts(40 if x.quick else 300, 9 if x.quick else 12, (0,)) if b[8] in (2, 7, 13)], "verdict", "many items")


@check("C12")
def c12(x):
    x.explore("C12Scenarios", 6 if x.quick else 9, "EmitItem")
    x.validate(F.one_section(x.seed, 2500 if x.quick else 25000, [4, 5, 6, 9]), "verdict", "tables, memories, globals, elements")
    x.validate(F.item_bytes([4, 5, 6, 9]) + S.values(["stores"]), "verdict", "every byte at every place, each integer with every power of two")
    x.validate([b for b in S.vector_counts(40 if x.quick else 300, 9 if x.quick else 12, (0,)) + S.instruction_runs(24, 9) if b[8] in (4, 5, 6, 9)], "verdict", "many items, long initialisers")


@check("C13")
def c13(x):
    x.explore("C13Scenarios", 8)
    x.validate(F.one_section(x.seed, 1500 if x.quick else 20000, [11]) + S.values(["data"]), "verdict", "data segments")
    x.validate(F.item_bytes([11]), "verdict", "every byte at every place")
    x.validate(F.data_contents(x.seed, 12 if x.quick else 60), "verdict", "contents")
    x.validate([b for b in S.contents() if b[8] == 11], "verdict", "contents of every length, buffers and pages")
    x.validate(F.buffers(), "verdict", "contents around the sizes of buffers")


@check("C14")
def c14(x):
    x.explore("LocalScenarios", 2 if x.quick else 4, "EmitLocals", ["LocalTheorem"])
    x.validate(F.locals_(x.seed, 1500 if x.quick else 15000), "verdict", "local runs")
    x.validate(S.local_runs(not x.quick), "verdict", "runs of every length and type")
    x.validate(F.locals_bound(x.seed, 600 if x.quick else 6000), "full", "totals around the bound")


@check("C15")
def c15(x):
    x.explore("ConstScenarios", 1, theorems=["ConstTheorem"])
    x.validate(F.constants(x.seed, 3000 if x.quick else 40000), "verdict", "constants")
    x.validate(S.float_bits(), "verdict", "every bit, every exponent")


@check("C28")
def c28(x):
    x.explore("VectorScenarios", 3 if x.quick else 6, theorems=["VectorTheorem"])
    x.validate(F.vectors(x.seed, 3000 if x.quick else 30000), "verdict", "announced counts")
    x.validate(F.many_elements(x.seed, 300 if x.quick else 3000), "verdict", "a fault in a late element")
    x.validate(S.vector_counts(40 if x.quick else 300, 9 if x.quick else 12), "verdict", "vectors of every length")
    x.validate(S.announced_counts(), "verdict", "counts of every magnitude")
    x.validate(S.instruction_runs(), "verdict", "expressions of every length")
    x.validate([b for n in [255, 256, 257, 1000] + ([] if x.quick else [4097, 16385]) for b in F.bulk(n)], "verdict", "many elements")
    big = [b for b in F.bulk(65540) if len(b) <= 270000]
    x.validate(big[x.seed % 2 :: 2] if x.quick else big, "verdict", "65540 elements")
    big = [b for b in F.bulk(100001) if len(b) <= 310000]
    x.validate(big[1 - x.seed % 2 :: 2] if x.quick else big, "verdict", "100001 elements")
    if not x.quick:
        x.validate(S.million(), "verdict", "a million elements")


# ------------------------------------------------------------ quantities

def quantities(x, cases, level, name, big=False, extra=None):
    """What executions cost, judged by WasmResource.tla."""
    cases = [c if isinstance(c, dict) else {"b": c} for c in cases]
    for c in cases:
        c["brief"] = True
    obs = x.run(cases)
    recs = []
    for i, (c, o) in enumerate(zip(cases, obs)):
        recs.append({"id": i, "b": [] if big else list(core.case_bytes(c)), "o": o["out"][:12], "got": o.get("got", 0), "intr": o.get("intrs", 0),
                     "reads": o.get("reads", 0), "allocs": o.get("allocs", 0), "peak": (o.get("peak", 0) + 1023) // 1024, "must": bool(c.get("key")), "l": level})
    res = x.judge(recs, module="WasmResource")
    nbad = 0
    for i, (c, o) in enumerate(zip(cases, obs)):
        v = res[i][0]
        if v == "bomb":
            x.count("not_judged_local_bombs")
        elif v != "ok":
            nbad += 1
            c2 = dict(c)
            if big and "b" in c2 and len(core.case_bytes(c)) > 100000:
                c2["b"] = core.case_bytes(c).hex()
            x.violation(f"{name}: {dict(noreturn='decoding did not return', work='more work than the bytes allow', memory='more memory than the bytes allow').get(v, v)}",
                        c2, {"level": level, "got": o.get("got")}, {k: o.get(k) for k in ("out", "got", "reads", "allocs", "peak", "largest", "us")})
    top = max(obs, key=lambda o: o.get("peak", 0) if level == "memory" else o.get("reads", 0))
    x.sample(kind="quantities", family=name, executions=len(cases), worst={k: top.get(k) for k in ("got", "reads", "allocs", "peak", "largest")}, outcome=top["out"][:120])
    core.log(f"  {name}: {len(cases)} executions measured, {nbad} rejected [{x.elapsed():.0f}s]")
    return obs


def scaling(x, pairs):
    """Processor time of an input and of one four times as large, judged by
    WasmResource.tla; a suspicion is measured again."""
    def measure(ps):
        cases = [{"b": b, "brief": True, "time": 3} for p in ps for b in p]
        obs = x.run(cases, env={"VH_LIMIT_S": "100"})
        return [(obs[2 * i].get("cpu", 0), obs[2 * i + 1].get("cpu", 0)) for i in range(len(ps))]
    ts = measure(pairs)
    suspects = list(range(len(pairs)))
    for _ in range(3):
        recs = [{"id": i, "b": [], "o": '["ok"]', "got": len(pairs[i][1]), "intr": 0, "reads": 0, "allocs": 0, "peak": 0, "must": True, "l": "scaling",
                 "t1": min(ts[i][0], 10**9), "t4": min(ts[i][1], 10**9)} for i in suspects]
        res = x.judge(recs, module="WasmResource")
        suspects = [i for i in suspects if res[i][0] != "ok"]
        if not suspects:
            break
        for i, t in zip(suspects, measure([pairs[i] for i in suspects])):
            ts[i] = (max(ts[i][0], t[0]), min(ts[i][1], t[1]))
    for i in suspects:
        x.violation("four times the input takes much more than four times the time", {"b": pairs[i][1].hex(), "time": 3}, {"microseconds for a quarter": ts[i][0]}, {"microseconds": ts[i][1]})
    worst = max(ts, key=lambda t: t[1] / (t[0] + 1000))
    x.sample(kind="scaling", pairs=len(pairs), worst_microseconds=worst)
    core.log(f"  processor time: {len(pairs)} pairs of inputs, {len(suspects)} rejected, worst {worst} [{x.elapsed():.0f}s]")


def delivered(cases, seed):
    """The same cases through awkward readers."""
    import random
    r = random.Random(seed)
    return [{"b": c, **r.choice([{}, {"chunks": [1]}, {"chunks": [r.randrange(1, 5), r.randrange(1, 40)]}, {"intr": [1]}, {"intr": [0, 3, 1]},
                                 {"chunks": [1, 2, 7], "intr": [r.randrange(3), 1, 0]}])} for c in cases]


@check("C16")
def c16(x):
    q = x.quick
    # the machine stops: every step consumes a byte, every behaviour ends
    x.explore("MixScenarios", 11 if q else 13, None)
    x.explore("NestScenarios", 6 if q else 8, None)
    sub = [{"id": i, "b": list(b), "o": '["err",[', "got": 0, "intr": 0, "reads": 0, "allocs": 0, "peak": 0, "must": False, "l": "returns"}
           for i, b in enumerate(F.damaged(x.seed, 150 if q else 1500) + F.garbage(x.seed, 60))]
    f = x.path("fair")
    open(f, "w").write("".join(json.dumps(r) + "\n" for r in sub))
    x.theorem("WasmResource", "SPECIFICATION FairSpec\nPROPERTY Decided\nCHECK_DEADLOCK FALSE\n", env={"CASES": f})
    k = 1 if q else 10
    small = F.entries() + F.damaged(x.seed + 1, 2500 * k) + F.modules(x.seed + 2, 500 * k) + F.garbage(x.seed + 3, 1500 * k) + F.huge_counts(x.seed + 4, 1500 * k)
    quantities(x, delivered(small, x.seed), "returns", "random, damaged and meaningless inputs")
    forms = (F.opcodes(x.seed, 1) + F.item_bytes([2, 4, 5, 6, 7, 9, 11, 13])[:: 9 if q else 1] + F.integers(x.seed, 700 * k) + F.names(x.seed, 300 * k) + F.names_at()[::3]
             + F.code_counts(x.seed, 200 * k) + F.data_counts(x.seed, 300 * k) + F.framings(x.seed, 300 * k) + F.vectors(x.seed, 500 * k) + F.sizes(x.seed, 500 * k)
             + F.one_section(x.seed, 900 * k, [1, 2, 4, 6, 9, 11]) + F.locals_bound(x.seed, 150 * k) + F.nestings(x.seed, 300 * k)[: 300 * k] + F.many_elements(x.seed, 80 * k))
    quantities(x, forms + S.some(x.seed, 2500 * k), "returns", "every form")
    quantities(x, F.every_huge_length(), "returns", "huge lengths")
    quantities(x, [b for d in (1, 2, 3, 5, 17, 64, 120, 200) for b in F.deep(x.seed + d, d)], "returns", "nestings up to 200", big=False)
    quantities(x, [b for n in ([1000, 20000] if q else [1000, 20000, 100000, 300000]) for b in F.bulk(n)], "returns", "large inputs", big=True)
    quantities(x, F.big_damaged(x.seed, 60 * k), "returns", "large damaged inputs", big=True)
    scaling(x, [(a, b) for n in ([6000] if q else [6000, 40000]) for a, b in zip(F.bulk(n) + F.bulk_distinct(n), F.bulk(4 * n) + F.bulk_distinct(4 * n))])
    # the listed finding: nesting is only bounded by the stack
    P = "0061736d010000000302010"
    n = 100000
    size = 2 * n + 1 + n + 1
    lebhex = lambda v: F.leb_bytes("u32", v).hex()
    body = lebhex(size)
    head = "0061736d01000000" + "03020100" + "0a" + lebhex(1 + len(body) // 2 + size) + "01" + body + "00"
    quantities(x, [{"parts": [[head, 1], ["0240", n], ["0b", n], ["0b", 1]], "key": "deep-nesting"}], "returns", "nesting of 100000", big=True)
    x.assumptions.append("structured instructions nested up to 200 deep; deeper nesting is the listed finding")


@check("C17")
def c17(x):
    q = x.quick
    k = 1 if q else 10
    # the machine remembers no more than it has been given (invariant Bounded)
    x.explore("VectorScenarios", 3 if q else 6, None)
    x.explore("SizeScenarios", 4 if q else 7, None)
    x.explore("MixScenarios", 11 if q else 13, None)
    quantities(x, F.every_huge_length(), "memory", "each length, huge")
    quantities(x, F.huge_counts(x.seed, 4000 * k), "memory", "huge lengths in modules")
    quantities(x, F.damaged(x.seed + 1, 1500 * k) + S.some(x.seed, 2500 * k), "memory", "damaged modules, sweeps")
    quantities(x, [m for m, _, _ in F.with_customs(x.seed, 600 * k)] + F.customs_alone(x.seed, 600 * k), "memory", "custom sections")
    quantities(x, [{"b": b, "chunks": [1]} for b in F.huge_counts(x.seed + 2, 800 * k)], "memory", "huge lengths, byte by byte")
    quantities(x, [b for d in (10, 60, 150) for b in F.deep(x.seed + d, d)], "memory", "nestings")
    quantities(x, [b for n in ([300, 5000, 20000, 60000] if q else [300, 5000, 20000, 100000, 300000]) for b in F.bulk(n)], "memory", "large inputs", big=True)
    # nothing stays behind when the results are gone
    base = F.modules(x.seed + 5, 60) + F.damaged(x.seed + 6, 60) + F.histories() + F.deep(x.seed, 30)[::3]
    cases = [{"b": b, "retained": 200} for b in base]
    for c, o in zip(cases, x.run(cases)):
        if o.get("left", 1) > 4096:
            x.violation("memory stays allocated after the results of 200 decodings are gone", c, 0, o.get("left", o["out"]))
    x.traces += len(cases)
    x.count("inputs_checked_for_leaks", len(cases))
    # the listed finding: declared locals are stored one by one
    quantities(x, [{"b": F.ser([F.PRE, F.section(3, F.vec([0])), F.section(10, F.vec([F.Sized([F.vec([[F.U(2**32 - 1), 0x7F]]), 0x0B])]))]), "key": "locals-bomb"}],
               "memory", "2^32-1 locals")
    x.assumptions.append("at most 4096 locals declared; more are the listed finding")


# ------------------------------------------------------- readers and faults

def reads(x, cases, level, name, want=None):
    """Read-by-read traces, judged by WasmReads.tla."""
    for c in cases:
        c["events"] = True
    obs = x.run(cases)
    recs = [{"id": i, "b": list(core.case_bytes(c)), "ev": o.get("ev", []), "o": o["out"], "r": want[i] if want else "",
             "f": (c["fault"][1] + "!") if c.get("fault") else "", "l": level} for i, (c, o) in enumerate(zip(cases, obs))]
    res = x.judge(recs, module="WasmReads")
    nbad = 0
    for i, (c, o) in enumerate(zip(cases, obs)):
        if res[i][0] != "ok":
            nbad += 1
            x.violation(f"{name}: {core.unquote(res[i][2])}", c, want[i] if want else None, {"out": core.parse(o["out"]), "ev": o.get("ev")})
    x.sample(kind="reads", family=name, input=core.case_bytes(cases[0]).hex()[:200], plan={k: v for k, v in cases[0].items() if k not in ("b", "events")}, events=obs[0].get("ev", [])[:60])
    core.log(f"  {name}: {len(cases)} executions validated read by read, {nbad} rejected [{x.elapsed():.0f}s]")
    return obs


PLANS = [{"chunks": [1]}, {"chunks": [2]}, {"chunks": [3, 1]}, {"chunks": [7, 1, 2]}, {"chunks": [5]}, {"chunks": [64]}, {"intr": [1]}, {"intr": [0, 0, 2]},
         {"intr": [5]}, {"chunks": [1], "intr": [1]}, {"chunks": [4, 1, 1], "intr": [0, 1, 3]}, {"intr": [0, 0, 0, 0, 0, 0, 0, 40]}]


@check("C18")
def c18(x):
    import random
    q = x.quick
    for inputs, intr in [("TinyInputs", 1), ("SmallInputs", 0), ("ConstInputs", 0), ("WideInputs", 0)] + ([] if q else [("SmallInputs", 1)]):
        cfg = f"SPECIFICATION Spec\nCONSTANT Inputs <- {inputs}\nCONSTANT MaxIntr = {intr}\nCHECK_DEADLOCK FALSE\nINVARIANT Confluent\nINVARIANT EmitPlan\n"
        lines = x.theorem("WasmSource", cfg)
        tests = [json.loads(json.loads(l)) for l in lines if l.startswith('"{')]
        cases = [{"b": bytes(t["i"]), "chunks": [p[1] for p in t["p"]] or [1], "intr": [p[0] for p in t["p"]] or [0]} for t in tests]
        obs = x.run(cases)
        plain = {}
        for c, t, o, b in zip(cases, tests, obs, x.run([{"b": c["b"]} for c in cases])):
            if o["out"] != b["out"] or not core.agrees(core.parse(o["out"]), t, "verdict"):
                x.violation(f"{inputs}: a delivery plan of the specification changes the result", c, core.parse(b["out"]), core.parse(o["out"]))
        x.traces += len(tests)
        x.count("delivery_plans_replayed", len(tests))
        if tests:
            x.sample(kind="delivery plan", input=bytes(tests[-1]["i"]).hex(), plan=tests[-1]["p"], observed=obs[-1]["out"][:200])
        core.log(f"  {inputs}: {len(tests)} delivery plans from the specification [{x.elapsed():.0f}s]")
    r = random.Random(x.seed)
    k = 1 if q else 12
    ins = (F.modules(x.seed, 500 * k) + F.damaged(x.seed + 1, 300 * k) + F.names(x.seed, 150 * k) + F.data_contents(x.seed, 6) + F.constants(x.seed, 200 * k)
           + F.sizes(x.seed, 200 * k) + F.framings(x.seed, 200 * k) + F.huge_counts(x.seed, 200 * k) + S.some(x.seed, 700 * k, 300))
    ins = [b for b in ins if len(b) <= 2000]
    base = x.run([{"b": b} for b in ins])
    cases, want = [], []
    for b, o in zip(ins, base):
        for p in [PLANS[0]] + r.sample(PLANS[1:], 2 if q else 4):
            cases.append({"b": b, **p})
            want.append(o["out"])
    reads(x, cases, "once", "delivery plans", want)
    # larger contents, around the sizes of usual buffers: compared directly
    big = F.data_contents(x.seed + 9, 40 if q else 200)
    base = x.run([{"b": b} for b in big])
    cs = [({"b": b, **p}, o) for b, o in zip(big, base) for p in r.sample(PLANS + [{"chunks": [4095, 1]}, {"chunks": [8191]}, {"chunks": [31, 33]}], 4)]
    for (c, o), o2 in zip(cs, x.run([c for c, _ in cs])):
        if o["out"] != o2["out"]:
            x.violation("large contents: the delivery changes the result", c, core.brief(core.parse(o["out"])), core.brief(core.parse(o2["out"])))
    x.count("large_contents_compared", len(cs))


KINDS = ["Other", "UnexpectedEof", "WouldBlock", "InvalidData", "NotFound", "TimedOut", "BrokenPipe", "ConnectionReset", "PermissionDenied", "InvalidInput", "WriteZero", "OutOfMemory",
         "ConnectionRefused", "ConnectionAborted", "NotConnected", "AddrInUse", "AlreadyExists", "Unsupported", "HostUnreachable", "NetworkDown", "NotADirectory", "IsADirectory",
         "ReadOnlyFilesystem", "StaleNetworkFileHandle", "StorageFull", "NotSeekable", "QuotaExceeded", "FileTooLarge", "ResourceBusy", "Deadlock", "CrossesDevices", "InvalidFilename"]
OS_KINDS = ["InputOutputError", "NotFound", "WouldBlock", "PermissionDenied", "IsADirectory", "BrokenPipe", "ConnectionReset", "TimedOut"]


def some_fault(r, at, sticky=0.7):
    """A failure at an offset, the program's own or the operating system's."""
    if r.random() < 0.25:
        return [at, r.choice(OS_KINDS), r.random() < sticky, "os"]
    return [at, r.choice(KINDS), r.random() < sticky]


@check("C19")
def c19(x):
    import random
    q = x.quick
    x.explore("AllScenarios", 3 if q else 5, "EmitFault", ["FaultTheorem"], "io")
    r = random.Random(x.seed)
    cases = []
    mods = F.modules(x.seed, 60 if q else 600) + F.one_section(x.seed, 60 if q else 600, [1, 2, 4, 6, 9, 11, 13]) + F.opcodes(x.seed, 1)[:: 9 if q else 2] \
        + S.some(x.seed, 300 if q else 3000, 60)
    for i, b in enumerate(mods):
        if len(b) > 400:
            continue
        for at in range(len(b) + 1):
            cases.append({"b": b, "fault": some_fault(r, at), **r.choice([{}, {}, {"chunks": [1]}, {"intr": [1]}, {"chunks": [3, 2]}])})
    x.validate(cases, "io", "a failure at every offset")
    cases = []
    for b in F.damaged(x.seed + 5, 250 if q else 2500):
        for at in {len(b), r.randrange(len(b) + 1), r.randrange(len(b) + 1)}:
            cases.append({"b": b, "fault": some_fault(r, at)})
    x.validate(cases, "io", "failures in damaged modules")
    # inside contents that are read in one go
    cases = []
    for b in F.data_contents(x.seed, 8 if q else 40):
        if len(b) <= 1500:
            for at in r.sample(range(8, len(b) + 1), min(20, len(b) - 7)):
                cases.append({"b": b, "fault": some_fault(r, at, 1)})
    x.validate(cases, "io", "failures inside contents")


@check("C20")
def c20(x):
    q = x.quick
    x.explore("AllScenarios", 3 if q else 5, "EmitCut", ["CutTheorem"], "cut")
    base = F.modules(x.seed, 120 if q else 1200) + F.one_section(x.seed, 80 if q else 800, [1, 2, 4, 6, 9, 10, 11, 13]) + F.framings(x.seed, 60 if q else 600) \
        + F.opcodes(x.seed, 1)[:: 9 if q else 2] + F.data_counts(x.seed, 40 if q else 400) + F.code_counts(x.seed, 40 if q else 400) \
        + S.some(x.seed, 900 if q else 9000, 60) + S.some(x.seed + 1, 60 if q else 600, 300)
    obs = x.run([{"b": b, "brief": True} for b in base])
    cases = []
    for b, o in zip(base, obs):
        if o["out"].startswith('["ok"') and len(b) <= 500:
            cases += [b[:i] for i in range(len(b))]
    cases = list(dict.fromkeys(cases))
    x.validate(cases, "cut", "every prefix of accepted modules")


@check("C21")
def c21(x):
    import random
    q = x.quick
    r = random.Random(x.seed)
    x.explore("AllScenarios", 3 if q else 5, "EmitStop", (), "verdict",
              mk=lambda t: {"b": bytes(t["i"]), "fault": [len(t["i"]), "Other", True]})
    k = 1 if q else 10
    ins = F.damaged(x.seed, 900 * k) + F.one_section(x.seed, 200 * k, [1, 2, 4, 6, 9, 10, 11, 13]) + F.sizes(x.seed, 300 * k) + F.framings(x.seed, 200 * k) \
        + F.integers(x.seed, 200 * k) + F.nestings(x.seed, 200 * k) + F.vectors(x.seed, 200 * k) + F.names(x.seed, 100 * k) + S.some(x.seed, 1500 * k)
    more = S.markers(x.seed) + S.finals(x.seed, 9)
    ins += r.sample(more, 4000) if q else more
    ins = [b for b in ins if len(b) <= 1500]
    obs, res = x.validate(ins, "accept", "where verdicts fall")
    tails = F.modules(x.seed + 7, 50)
    cases = []
    for i, (b, o) in enumerate(zip(ins, obs)):
        if i not in res:
            continue
        v, pos, _ = res[i]
        if v != "ok" or not o["out"].startswith('["err"'):
            continue
        if pos >= len(b) and o["eofs"]:
            continue      # the end of the input decided
        p = b[:pos]
        for tail in (b"", r.choice(tails)[r.randrange(12):], bytes([r.randrange(256)]) * 8):
            cases.append({"b": p + tail, "r": o["out"]})
        cases.append({"b": b, "fault": [pos, r.choice(KINDS), True], "r": o["out"]})
    obs2 = x.run(cases)
    x.validate(cases, "frozen", "other continuations and failing readers after the fault", obs=obs2)
    # read by read: nothing is asked for beyond the verdict, acceptance sees the end
    rd = [{"b": b, **p} for b, p in zip(ins + F.modules(x.seed + 3, 300 * k), [r.choice([{}, {}, {"chunks": [1]}, {"chunks": [3]}, {"intr": [1, 0]}]) for _ in range(len(ins) + 300 * k)])]
    reads(x, rd, "reads", "discipline of the reads")


@check("C22")
def c22(x):
    q = x.quick
    k = 1 if q else 10
    for s, d, e in [("TypeScenarios", 5 if q else 7, "Emit"), ("NestScenarios", 6 if q else 8, "Emit"), ("C11Scenarios", 6 if q else 8, "Emit"),
                    ("C12Scenarios", 5 if q else 7, "EmitItem"), ("C13Scenarios", 6 if q else 8, "Emit"), ("SizeScenarios", 4 if q else 6, "Emit"),
                    ("MixScenarios", 11 if q else 13, "Emit"), ("CountScenarios", 3, "Emit"), ("SectionScenarios", 2, "Emit"), ("LebScenarios", 1, "EmitLeb"),
                    ("DataScenarios", 1 if q else 2, "Emit"), ("VectorScenarios", 3, "Emit"), ("OpAll", 1, "EmitOp"), ("OpScenarios", 1, "Emit")]:
        x.explore(s, d, e, level="full")
    x.validate(F.damaged(x.seed, 4000 * k) + F.sizes(x.seed, 800 * k) + F.integers(x.seed, 800 * k) + F.vectors(x.seed, 600 * k) + F.names(x.seed, 300 * k)
               + F.code_counts(x.seed, 300 * k) + F.data_counts(x.seed, 400 * k) + F.framings(x.seed, 400 * k) + F.nestings(x.seed, 400 * k)
               + F.one_section(x.seed, 600 * k, [1, 2, 4, 5, 6, 7, 9, 13]) + F.garbage(x.seed, 400 * k) + F.many_elements(x.seed, 250 * k)
               + F.entries() + F.opcodes(x.seed, 1)[::1 if not q else 4] + F.wide_counts() + S.some(x.seed, 6000 * k), "full", "diagnoses")
    x.validate(S.markers(x.seed, 24 if q else 256) + S.finals(x.seed, 5 if q else 1) + F.item_bytes([2, 4, 5, 6, 7, 9, 11, 13])[:: 4 if q else 1], "full", "each byte, each integer")
    x.validate(S.large_faults((65536,) if q else (16384, 65536, 131072)), "full", "long contents")


# ------------------------------------------------------------ rendering

def numeral(v):
    """A number of the specification in decimal."""
    if isinstance(v, list):      # <<"n", four limbs>>
        n = sum(l << (16 * j) for j, l in enumerate(v[1:]))
        return str(n - 2**64 if n >= 2**63 else n)
    return str(v)


def path_words(path):
    out = []
    for t in path:
        if isinstance(t, str):
            out.append(["s", t])
        elif isinstance(t, list) and t and t[0] != "n":
            out.append(["b"] + [str(b) for b in t])
        else:
            out.append(["n", numeral(t)])
    return out


def msg_words(m):
    import re
    out = []
    for w in re.findall(r"-?0[xX][0-9a-fA-F]+|-?[0-9]+|[A-Za-z][A-Za-z0-9_]*|[0-9A-Za-z_]+", m):
        try:
            out.append(str(int(w, 0)) if not w.lstrip("-").startswith("0") or "x" in w.lower() else str(int(w)))
        except ValueError:
            out.append(w)
    return out


def rendered(x, cases, name):
    for c in cases:
        c["render"] = True
    obs = x.run(cases)
    recs, idx = [], []
    for i, (c, o) in enumerate(zip(cases, obs)):
        p = core.parse(o["out"])
        if p[0] != "err":
            if p[0] != "ok" and not (p[0] == "crash"):
                x.violation(f"{name}: rendering failed", c, "messages", p)
            continue
        r = o.get("render")
        if not isinstance(r, list):
            x.violation(f"{name}: rendering failed", c, "messages", r)
            continue
        inj = p[1] and isinstance(p[1][-1], str) and p[1][-1].endswith("!")
        recs.append({"id": len(idx), "path": path_words(p[1]), "msgs": [msg_words(m) for m in r], "debug": min(o["debug"]), "ends": len(r) <= 200, "carry": ("error" if len(c.get("fault", [])) > 3 else "injected") if inj else ""})
        idx.append(i)
    res = x.judge(recs, module="WasmRender")
    nbad = 0
    for n, i in enumerate(idx):
        if res[n][0] != "ok":
            nbad += 1
            x.violation(f"{name}: the messages do not render the error ({core.unquote(res[n][2])})", cases[i], core.parse(obs[i]["out"]), obs[i]["render"])
    kinds = {}
    for n, i in enumerate(idx):
        p = core.parse(obs[i]["out"])[1]
        kinds.setdefault(tuple(t for t in p if isinstance(t, str))[-3:], i)
    x.count("distinct_error_endings", len(kinds))
    for i in list(kinds.values())[:2]:
        x.sample(kind="rendering", family=name, path=core.parse(obs[i]["out"])[1], messages=obs[i]["render"])
    core.log(f"  {name}: {len(recs)} diagnoses validated ({len(kinds)} kinds), {nbad} rejected [{x.elapsed():.0f}s]")


def render_tests(x, scenarios, depth, emit="Emit"):
    """Errors found by exploration, rendered."""
    cfg = f"SPECIFICATION Spec\nCONSTANT Scenarios <- {scenarios}\nCONSTANT Depth = {depth}\nCHECK_DEADLOCK FALSE\nINVARIANT {emit}\n"
    lines = x.theorem("WasmScenarios", cfg)
    tests = [json.loads(json.loads(l)) for l in lines if l.startswith('"{')]
    return [{"b": b} for b in sorted({bytes(t["i"]) for t in tests if t["o"][0] == "err"})]


@check("C23")
def c23(x):
    import random
    q = x.quick
    k = 1 if q else 8
    r = random.Random(x.seed)
    for s, d, e in [("OpScenarios", 1, "Emit"), ("TypeScenarios", 5 if q else 7, "Emit"), ("C11Scenarios", 5, "Emit"), ("C12Scenarios", 5, "EmitItem"),
                    ("C13Scenarios", 5, "Emit"), ("NestScenarios", 5, "Emit"), ("SectionScenarios", 2, "Emit"), ("CountScenarios", 2, "Emit"), ("DataScenarios", 1, "Emit"),
                    ("SizeScenarios", 3, "Emit"), ("VectorScenarios", 3, "Emit"), ("PreambleScenariosQ", 1, "Emit")]:
        cs = render_tests(x, s, d, e)
        rendered(x, cs if q is False else cs if len(cs) < 2500 else r.sample(cs, 2500), s)
    ins = (F.damaged(x.seed, 2500 * k) + F.sizes(x.seed, 700 * k) + F.locals_bound(x.seed, 300 * k) + F.framings(x.seed, 400 * k) + F.code_counts(x.seed, 300 * k)
           + F.data_counts(x.seed, 300 * k) + F.integers(x.seed, 800 * k) + F.garbage(x.seed, 300 * k) + F.names(x.seed, 200 * k) + F.vectors(x.seed, 400 * k)
           + F.many_elements(x.seed, 300 * k) + F.nestings(x.seed, 300 * k) + S.some(x.seed, 3000 * k))
    more = S.markers(x.seed) + S.finals(x.seed, 9)
    ins += r.sample(more, 4000) if q else more
    rendered(x, [{"b": b} for b in ins], "damaged modules")
    fs = []
    for b in F.modules(x.seed + 3, 250 * k):
        at = r.randrange(len(b) + 1)
        fs.append({"b": b, "fault": some_fault(r, at, 1)})
    rendered(x, fs, "failing readers")


# ------------------------------------------------------------ relations

def related(x, pairs, level, name):
    """pairs: (x, y, insertions); judged by WasmHyper.tla."""
    obs = x.run([{"b": p[0]} for p in pairs] + [{"b": p[1]} for p in pairs])
    n = len(pairs)
    recs = [{"id": i, "x": list(p[0]), "y": list(p[1]), "tx": obs[i]["out"], "ty": obs[n + i]["out"], "ox": core.parse(obs[i]["out"]), "oy": core.parse(obs[n + i]["out"]),
             "l": level, "ins": p[2]} for i, p in enumerate(pairs)]
    res = x.judge(recs, module="WasmHyper")
    nbad = 0
    for i, p in enumerate(pairs):
        v = res[i][0]
        if v in ("theorem", "outside"):
            raise core.ToolError(f"{name}: {v}: {p[0].hex()} {p[1].hex()} {p[2]} {res[i][2]}")
        if v == "bomb":
            x.count("not_judged_local_bombs")
        elif v != "ok":
            nbad += 1
            x.violation(f"{name}: the two results are not related", {"b": p[1], "original": p[0].hex(), "insertions": p[2]}, recs[i]["ox"], recs[i]["oy"])
    ok = sum(r["tx"].startswith('["ok"') for r in recs)
    x.count("pairs_accepted", ok)
    x.count("pairs_rejected", n - ok)
    for i in (0, n // 2):
        x.sample(kind="pair", family=name, x=pairs[i][0].hex()[:300], y=pairs[i][1].hex()[:300], outcomes=[core.brief(recs[i]["ox"]), core.brief(recs[i]["oy"])])
    core.log(f"  {name}: {n} pairs ({ok} accepted) judged, {nbad} rejected [{x.elapsed():.0f}s]")


@check("C24")
def c24(x):
    q = x.quick
    k = 1 if q else 10
    x.explore("CustomScenarios", 3 if q else 4, theorems=["CustomTheorem", "GulpTheorem"])
    related(x, F.with_customs(x.seed, 1500 * k), "custom", "custom sections inserted")
    x.validate(F.customs_alone(x.seed, 800 * k), "verdict", "custom sections")
    x.validate(F.buffers((65536, 65537)) + [b for b in S.contents() if b[8] == 0], "verdict", "large custom sections")
    related(x, S.customs_everywhere(x.seed), "custom", "custom sections at every boundary")
    x.validate(F.bulk_distinct(300), "verdict", "many custom sections")
    x.validate([y for _, y, _ in S.customs_among(x.seed, (256, 4096, 16384) if q else (128, 256, 1000, 1024, 4096, 16384, 65536))], "verdict", "custom sections in great number")
    related(x, S.customs_among(x.seed, (256,)), "custom", "custom sections in great number")


@check("C25")
def c25(x):
    q = x.quick
    k = 1 if q else 10
    related(x, F.recoded(x.seed, 2200 * k), "recode", "integers encoded otherwise")
    each = F.recoded_each(x.seed, 1 if q else 8)
    related(x, each, "recode", "each integer of each form, with many values")
    related(x, F.recoded_singly(x.seed, 40 if q else 400), "recode", "each integer alone at each length")


# ------------------------------------------------------------- sessions

def together(x, tests, name):
    """Schedules (i inputs, p plan, n properly nested; want: outcomes) carried
    out on threads and, where they nest, on one thread."""
    cases, of = [], []
    for n, t in enumerate(tests):
        c = {"sessions": [bytes(b).hex() for b in t["i"]], "plan": t["p"]}
        cases.append(c)
        of.append(n)
        if t["n"]:
            cases.append({**c, "nested": True})
            of.append(n)
    nbad = 0
    for c, n, o in zip(cases, of, x.run(cases)):
        t = tests[n]
        for s, text in enumerate(o.get("outs", [o["out"]] * len(t["i"]))):
            if not t["want"](s, core.parse(text)):
                nbad += 1
                x.violation(f"{name}: session {s + 1} is disturbed", c, t["expected"][s], text)
                break
    x.traces += len(cases)
    x.count("schedules_replayed", len(cases))
    if tests:
        x.sample(kind="schedule", family=name, sessions=[bytes(b).hex() for b in tests[-1]["i"]], turns=tests[-1]["p"], nested=tests[-1]["n"], outcomes=core.brief(tests[-1]["expected"]))
    core.log(f"  {name}: {len(cases)} schedules carried out, {nbad} disturbed [{x.elapsed():.0f}s]")


def properly_nested(plan, lens):
    """The same condition as nests in WasmSessions.tla, for random plans."""
    left, stack, seen = dict(enumerate(lens, 1)), [], set()
    for s, n, e in plan:
        stack = [t for t in stack if left[t] >= 0]
        if s not in seen:
            seen.add(s)
            stack.append(s)
        if stack[-1] != s:
            return False
        left[s] -= n
        if e == "panic":
            left[s] = -1
    return True


@check("C26")
def c26(x):
    import random
    q = x.quick
    r = random.Random(x.seed)
    runs = [("FewPairs", 3, 2, '{""}'), ("FewPairs", 2, 1, '{"", "panic", "Other"}'), ("SomeTriples", 3, 1, '{"", "panic"}')]
    if not q:
        runs = [("AllPairs", 3, 2, '{""}'), ("AllPairs", 2, 1, '{"", "panic", "Other", "UnexpectedEof"}'), ("FewPairs", 3, 2, '{"", "panic", "Other"}'),
                ("Triples", 4, 1, '{"", "panic"}'), ("SomeTriples", 4, 2, '{""}')]
    for groups, turns, free, ends in runs:
        cfg = (f"SPECIFICATION Spec\nCONSTANT Groups <- {groups}\nCONSTANT MaxTurns = {turns}\nCONSTANT FreeTurns = {free}\nCONSTANT Endings = {ends}\n"
               "CHECK_DEADLOCK FALSE\nINVARIANT Independent\nINVARIANT RunAlone\nINVARIANT EmitSchedule\n")
        tests = [json.loads(json.loads(l)) for l in x.theorem("WasmSessions", cfg) if l.startswith('"{')]
        for t in tests:
            t["expected"] = t["o"]
            t["want"] = lambda s, got, t=t: core.agrees(got, {"o": t["o"][s], "a": t["a"][s]}, "verdict")
        together(x, tests, f"{groups}, {turns} turns")
    # larger inputs, against what each gives alone in a process of its own
    k = 1 if q else 12
    ins = (F.modules(x.seed, 220 * k) + F.damaged(x.seed, 220 * k) + F.nestings(x.seed, 80 * k) + F.data_counts(x.seed, 80 * k) + F.locals_bound(x.seed, 30 * k)
           + F.code_counts(x.seed, 60 * k) + F.names(x.seed, 60 * k) + F.vectors(x.seed, 60 * k) + F.garbage(x.seed, 40 * k)
           + [b for d in (20, 90, 150) for b in F.deep(x.seed, d)] + S.some(x.seed, 300 * k))
    ins = [b for b in ins if len(b) < 3000]
    r.shuffle(ins)
    alone = [o["out"] for o in x.run([{"b": b} for b in ins], mode=("fresh",))]
    core.log(f"  {len(ins)} inputs alone, each in a process of its own [{x.elapsed():.0f}s]")
    keep = [i for i in range(len(ins)) if alone[i] not in ('["crash"]', "")]
    x.validate([{"b": ins[i]} for i in keep], "verdict", "alone", obs=[{"out": alone[i]} for i in keep])
    # one after the other, in two orders; each repeated
    for order in (keep, keep[::-1], [i for i in keep for _ in range(2)]):
        for i, o in zip(order, x.run([{"b": ins[i]} for i in order])):
            if o["out"] != alone[i]:
                x.violation("after other decodings the result is another", {"b": ins[i]}, core.brief(core.parse(alone[i])), core.brief(core.parse(o["out"])))
        x.traces += len(order)
    x.count("histories_of_length", len(keep))
    core.log(f"  histories compared [{x.elapsed():.0f}s]")
    # after long histories of one kind
    short = sorted(keep, key=lambda i: len(ins[i]))[: len(keep) // 2]
    cases, of = [], []
    for n in range(120 * k):
        i = r.choice(keep)
        before = [[ins[r.choice(short)].hex(), r.choice(["", "", "panic", "Other", "UnexpectedEof"]), r.choice([1, 2, 127, 128, 255, 256, 300, 1500])] for _ in range(r.choice([1, 1, 2, 3]))]
        if n % 12 == 0:
            before[0][2] = 70000
        cases.append({"b": ins[i], "before": before})
        of.append(i)
    for i, c, o in zip(of, cases, x.run(cases, env={"VH_LIMIT_S": "120"})):
        if o["out"] != alone[i]:
            x.violation("after a long history the result is another", c, core.brief(core.parse(alone[i])), core.brief(core.parse(o["out"])))
    # ... of failures in the middle of something, before what would meet it
    targets = [b for b in F.histories() + F.deep(x.seed, 12)[::5] + F.modules(x.seed + 8, 12)]
    tobs = [o["out"] for o in x.run([{"b": b} for b in targets], mode=("fresh",))]
    long_, of = [], []
    for n, h in enumerate(F.histories()):
        for j in (r.sample(range(len(targets)), 3) if q else range(len(targets))):
            long_.append({"b": targets[j], "before": [[h.hex(), r.choice(["", "panic", "Other"]) if n % 3 == 0 else "", 25000 if len(of) % 3 == 0 else 300]]})
            of.append(j)
    for j, c, o in zip(of, long_, x.run(long_, env={"VH_LIMIT_S": "120"})):
        if o["out"] != tobs[j]:
            x.violation("after a long history the result is another", c, core.brief(core.parse(tobs[j])), core.brief(core.parse(o["out"])))
    cases += long_
    # after an input that is nearly the same
    pairs = F.near(x.seed, 4000 * k)
    both = [{"b": b, "before": [[a.hex(), "", 1]]} for a, b in pairs] + [{"b": a, "before": [[b.hex(), "", 1]]} for a, b in pairs]
    x.validate(both, "verdict", "after nearly the same input")
    x.traces += len(cases)
    x.count("decodings_in_long_histories", sum(b[2] for c in cases for b in c["before"]))
    core.log(f"  long histories compared [{x.elapsed():.0f}s]")
    # random schedules
    tests = []
    for _ in range(2500 * k):
        g = r.sample(keep, r.choice([2, 2, 3, 4]))
        plan, nested = [], r.random() < 0.5
        left = [len(ins[i]) + 1 for i in g]
        for _ in range(r.randrange(1, 9)):
            s = r.randrange(len(g))
            if left[s] > 0:
                n = min(left[s], r.choice([1, 1, 2, 5, 9, 30, 200, left[s]]))
                left[s] -= n
                plan.append([s + 1, n, ""])
        tests.append({"i": [ins[i] for i in g], "p": plan, "n": properly_nested(plan, [len(ins[i]) for i in g]), "expected": [core.parse(alone[i]) for i in g],
                      "want": lambda s, got, e=[alone[i] for i in g]: got == core.parse(e[s])})
    together(x, tests, "random schedules")
    # truly in parallel
    for n in (2, 8):
        for i, o in zip(keep, x.run([{"b": ins[i]} for i in keep], mode=("threads", n))):
            if o["outs"] != [alone[i]]:
                x.violation(f"{n} threads at once do not agree", {"b": ins[i]}, core.brief(core.parse(alone[i])), [t[:300] for t in o["outs"]])
        x.traces += len(keep) * n
    core.log(f"  parallel decodings compared [{x.elapsed():.0f}s]")


# ---------------------------------------------------------------- the tool

NAMES = ["m.wasm", "with space", "--verbose", "-x", "-", "m\u00e9", "m.tar.gz", "a.wat", "deep/er/m.wasm", "\n", "\udcff.wasm"]   # the last one is not UTF-8
REASONS = {"missing": "No such file or directory", "directory": "Is a directory", "notdir": "Not a directory", "loop": "symbolic links", "toolong": "File name too long"}


def invoke(exe, folder, n, conf, data, rng):
    """One invocation of the tool; returns (status, stdout, stderr)."""
    import os, subprocess, threading, time
    d = os.path.join(folder, str(n))
    os.makedirs(os.path.join(d, "deep/er"))
    name = rng.choice(NAMES)
    path = os.path.join(d, name)
    stdin, feed, arg = subprocess.DEVNULL, None, None
    src, via = conf["source"], conf["via"]
    fifo = None
    if conf["way"] == "file":
        arg = "./" + name if name.startswith("-") else rng.choice([name, path, "./" + name])
        if src == "bytes" and via == "regular":
            open(path, "wb").write(data)
        elif src == "bytes":
            os.mkfifo(path)
            fifo = path
        elif src == "directory":
            os.makedirs(path)
        elif src == "notdir":
            open(path, "wb").write(data)
            arg += "/m.wasm"
        elif src == "loop":
            os.symlink(os.path.basename(path), path)
        elif src == "toolong":
            arg = "x" * 300
    else:
        arg = "-" if conf["way"] == "dash" else None
        if src == "directory":
            stdin = os.open(d, os.O_RDONLY)
        elif via == "regular":
            open(path, "wb").write(data)
            stdin = os.open(path, os.O_RDONLY)
        else:
            stdin, feed = subprocess.PIPE, data
    argv = [a for a in (["--verbose"] if conf["verbose"] == 1 else []) + ([arg] if arg is not None else []) + (["--verbose"] if conf["verbose"] == 2 else [])]
    p = subprocess.Popen([exe, *argv], cwd=d, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"PATH": "/usr/bin:/bin"})
    if isinstance(stdin, int) and stdin >= 0:
        os.close(stdin)

    def pour():
        try:
            h = open(fifo, "wb", buffering=0) if fifo else p.stdin
            step = max(1, len(data) // 3) if via == "pieces" else max(1, len(data))
            for k in range(0, len(data), step):
                h.write(data[k:k + step])
                h.flush()
                if via == "pieces":
                    time.sleep(0.004)
        except (BrokenPipeError, OSError):
            pass
        finally:
            try:
                h.close()
            except (BrokenPipeError, OSError):
                pass

    t = None
    if fifo or feed is not None:
        t = threading.Thread(target=pour, daemon=True)
        t.start()
    out, err = [], []
    rd = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
    rd.start()
    kill = threading.Timer(120, p.kill)
    kill.start()
    out = p.stdout.read()
    status = p.wait()
    kill.cancel()
    rd.join()
    if fifo and t.is_alive():      # the tool never opened it
        try:
            os.close(os.open(fifo, os.O_RDONLY | os.O_NONBLOCK))
        except OSError:
            pass
    if t:
        t.join(2)
    return (status if status >= 0 else 128 - status), out.decode("utf-8", "replace"), err[0].decode("utf-8", "replace")


def short(text):
    import hashlib
    return text if len(text) < 20000 else text[:200] + hashlib.sha256(text.encode()).hexdigest()


def tool(x, exe, runs, name):
    """runs: (configuration, bytes)."""
    import os, random
    from concurrent.futures import ThreadPoolExecutor
    folder = x.path("cli")
    os.makedirs(folder)
    lib = x.run([{"b": b, "render": True, "brief": True, "pretty": bool(c["verbose"])} for c, b in runs])
    seeds = random.Random(x.seed)
    rngs = [random.Random(seeds.random()) for _ in runs]
    with ThreadPoolExecutor(6) as ex:
        seen = list(ex.map(lambda n: invoke(exe, folder, n, runs[n][0], runs[n][1], rngs[n]), range(len(runs))))
    recs = []
    for n, ((conf, b), (st, so, se), o) in enumerate(zip(runs, seen, lib)):
        chain = [m.split("\n")[-1] for m in o.get("render", [])] if conf["source"] == "bytes" else []
        recs.append({"id": n, "b": list(b), **conf, "status": st, "stdout": short(so[:-1]) + "\n" if so.endswith("\n") else short(so), "stderr": [l for l in se.split("\n") if l.strip()],
                     "chain": chain, "pretty": short(o.get("pretty", "")), "reason": REASONS.get(conf["source"], "")})
    res = x.judge(recs, module="WasmCli")
    nbad = 0
    for n, (conf, b) in enumerate(runs):
        if res[n][0] != "ok":
            nbad += 1
            x.violation(f"{name}: {core.unquote(res[n][2])}", {"b": b, **conf}, {"chain": recs[n]["chain"], "pretty": recs[n]["pretty"][:300]},
                        {"status": seen[n][0], "stdout": seen[n][1][:500], "stderr": seen[n][2][:1500]})
    n = next((i for i, s in enumerate(seen) if s[0]), 0)
    x.sample(kind="invocation", family=name, configuration=runs[n][0], input=runs[n][1].hex()[:200], status=seen[n][0], stdout=seen[n][1][:100], stderr=seen[n][2][:300])
    x.count("invocations_accepted", sum(s[0] == 0 for s in seen))
    x.count("invocations_refused", sum(s[0] != 0 for s in seen))
    core.log(f"  {name}: {len(runs)} invocations judged, {nbad} rejected [{x.elapsed():.0f}s]")


@check("C27")
def c27(x):
    import random
    q = x.quick
    k = 1 if q else 10
    exe = core.build_cli()
    r = random.Random(x.seed)
    lines = x.theorem("WasmCli", "SPECIFICATION Plans\nCHECK_DEADLOCK FALSE\nINVARIANT EmitConfig\n", env={"CASES": "/dev/null"})
    confs = sorted((json.loads(json.loads(l)) for l in lines if l.startswith('"{')), key=json.dumps)
    x.count("configurations", len(confs))
    # every configuration with every kind of input
    kinds = [F.modules(x.seed, 1)[0], bytes.fromhex("0061736d01000000"), b"", F.garbage(x.seed, 1)[0], bytes.fromhex("0061736d01000000050501")] \
        + [b for b in F.damaged(x.seed + 1, 3 if q else 30)]
    tool(x, exe, [(c, b) for c in confs for b in (kinds if c["source"] == "bytes" else [b""])], "every configuration")
    # every input in some configuration
    conf = [c for c in confs if c["source"] == "bytes"]
    ins = (F.modules(x.seed + 2, 300 * k) + F.damaged(x.seed + 3, 500 * k) + F.nestings(x.seed, 60 * k) + F.vectors(x.seed, 60 * k) + F.code_counts(x.seed, 40 * k)
           + F.data_counts(x.seed, 40 * k) + F.names(x.seed, 60 * k) + F.integers(x.seed, 60 * k) + F.constants(x.seed, 40 * k) + F.many_elements(x.seed, 20 * k) + S.some(x.seed, 250 * k))
    ins = [b for b in ins if len(b) < 4000]
    # not those with a million locals: printing them takes minutes
    few = [o.get("prints", True) for o in x.run([{"b": b, "brief": True, "prints": True} for b in ins])]
    tool(x, exe, [(r.choice(conf), b) for b, f in zip(ins, few) if f], "every kind of input")
    # large inputs, larger than pipes and buffers
    big = [b for n in (5000, 40000) for b in F.bulk(n)[:: 9 if q else 3]]
    big += [b[:-1] for b in big] + [b + b"\0" for b in big[:3]]
    tool(x, exe, [(dict(r.choice(conf), verbose=0), b) for b in big], "large inputs")
    big = [ser([F.PRE, F.section(0, [F.name(b"n"), b"x" * n])]) for n in ((1 << 20,) if q else (1 << 20, 3 << 20))]
    by = {c["way"] + c["via"]: c for c in conf if not c["verbose"]}
    tool(x, exe, [(c, b) for c in by.values() for b in big], "inputs of mebibytes")
    x.assumptions.append("the operating system's words for its own errors are those of glibc")


def replay(path):
    d = json.load(open(path))
    core.build()
    x = core.Ctx(d["property"], "quick", 1)
    try:
        c = d["case"]
        print("what     ", d["what"])
        print("case     ", json.dumps(c)[:2000])
        print("expected ", json.dumps(d["expected"])[:2000])
        print("recorded ", json.dumps(d["observed"])[:2000])
        if isinstance(c, dict) and ("b" in c or "parts" in c):
            print("now      ", json.dumps(x.run([c])[0])[:3000])
    finally:
        x.close()
    return 0
