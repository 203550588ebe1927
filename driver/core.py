"""Common machinery of the checks: building, TLC, the harness, evidence.

Two directions bind specification and code:

  explore   TLC enumerates the states of the machine for the scenarios of
            spec/WasmScenarios.tla, checks theorems and invariants in each,
            and prints one test per state, which is replayed in the code;
  validate  inputs (generated here) are run in the code, and the recorded
            executions are given to TLC, which accepts or rejects them.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
VH = os.path.join(TARGET, "debug", "vh")
KNOWN = os.path.join(VERIF, "known-findings.txt")
REPLAYS = os.path.join(VERIF, "replays")


class ToolError(Exception):
    pass


class Enough(Exception):
    """Decoding does not end, and that has been reported: nothing more is run."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build():
    env = {**os.environ, "CARGO_TARGET_DIR": TARGET, "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_TERM_COLOR": "never"}
    env.pop("RUSTFLAGS", None)
    env["RUSTC_WRAPPER"] = ""
    # never trust time stamps: the code under test is always compiled again
    subprocess.run(["cargo", "clean", "--offline", "-p", "wadec"], cwd=HARNESS, env=env, capture_output=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=HARNESS, env=env, capture_output=True, text=True)
    if p.returncode:
        raise ToolError("building the harness failed\n" + p.stderr[-4000:])


def build_cli():
    """The command-line tool, built outside /repo's own target folder."""
    tgt = os.path.join(TARGET, "cli")
    env = {**os.environ, "CARGO_TARGET_DIR": tgt, "CARGO_NET_OFFLINE": "true", "CARGO_INCREMENTAL": "0", "CARGO_TERM_COLOR": "never"}
    env.pop("RUSTFLAGS", None)
    env["RUSTC_WRAPPER"] = ""
    subprocess.run(["cargo", "clean", "--offline", "-p", "wadec", "-p", "wadec-cli"], cwd="/repo", env=env, capture_output=True)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", "wadec-cli"], cwd="/repo", env=env, capture_output=True, text=True)
    if p.returncode:
        raise ToolError("building wadec-cli failed\n" + p.stderr[-4000:])
    return os.path.join(tgt, "debug", "wadec")


class Mismatch:
    def __init__(self, what, case, expected, observed):
        self.what, self.case, self.expected, self.observed = what, case, expected, observed


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.notes, self.counts = [], [], [], {}
        self.assumptions = []
        self.exhaustive = []
        self.hangs = 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0

    def path(self, name):
        self._n = getattr(self, "_n", 0) + 1
        return os.path.join(self.tmp, f"{self._n}-{name}")

    # ------------------------------------------------------------ TLC

    def tlc(self, module, cfg_text, env=None, workers=4, timeout=800):
        """Runs TLC; returns its output lines.  Raises ToolError unless it completes."""
        cfg = self.path(module + ".cfg")
        open(cfg, "w").write(cfg_text)
        meta = self.path("meta")
        e = {**os.environ, **(env or {}), "JAVA_TOOL_OPTIONS": "-Dtlc2.tool.queue.IStateQueue=StateDeque -Xmx10g -Xss64m -Djava.io.tmpdir=" + self.tmp}
        out = self.path("tlc.out")
        with open(out, "w") as f:
            try:
                p = subprocess.run(["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, module + ".tla"],
                                   cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC on {module} took more than {timeout} s")
        shutil.rmtree(meta, ignore_errors=True)
        lines = open(out, errors="replace").read().splitlines()
        ok = any("Model checking completed. No error has been found" in l for l in lines)
        m = [re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", l) for l in lines if len(l) < 200]
        m = [x for x in m if x]
        if m:
            self.transitions += int(m[-1][1].replace(",", ""))
            self.states += int(m[-1][2].replace(",", ""))
        if not ok:
            rest = [l for l in lines if not l.startswith(('"{', "<<", "Semantic", "Parsing"))]
            return lines, "\n".join(rest)[-6000:]
        return lines, None

    # ------------------------------------------------------------ harness

    def run(self, cases, mode=("run",), env=None, timeout=600):
        if mode[0] == "threads":
            timeout = 120
        """Runs cases (dicts) in the code; returns the observations in order."""
        if self.hangs >= 2 and self.bad:
            raise Enough()
        cf, of = self.path("cases"), self.path("out")
        with open(cf, "w") as f:
            for i, c in enumerate(cases):
                c = dict(c)
                c["id"] = i
                if isinstance(c.get("b"), (bytes, bytearray)):
                    c["b"] = c["b"].hex()
                f.write(json.dumps(c) + "\n")
        try:
            p = subprocess.run([VH, mode[0], cf, of, *[str(x) for x in mode[1:]]], env={"VH_CAP_MB": "1024", "VH_LIMIT_S": "5" if self.hangs else "20", **os.environ, **(env or {})},
                               capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            if mode[0] == "threads":      # the threads wait for each other
                self.hangs += 1
                return [{"id": i, "outs": ['["hang"]']} for i in range(len(cases))]
            raise ToolError("the harness did not finish")
        if p.returncode:
            raise ToolError("harness failed: " + p.stderr[-2000:])
        obs = [json.loads(l) for l in open(of)]
        if len(obs) != len(cases):
            raise ToolError("harness lost cases")
        os.remove(cf)
        os.remove(of)
        self.hangs += sum(o.get("out") == '["hang"]' for o in obs)
        return obs

    # ------------------------------------------------------------ judging

    def violation(self, what, case, expected, observed):
        self.bad.append(Mismatch(what, case, expected, observed))

    def sample(self, **kw):
        if len(self.samples) < 12:
            self.samples.append(kw)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    # -------------------------------------------- specification to code

    def explore(self, scenarios, depth, emit="Emit", theorems=(), level="verdict", extra_invs=(), workers=4, mk=None, alts=True):
        """TLC explores `scenarios`; every emitted test is replayed in the code."""
        invs = ["MachineOK", "FaultReported", *theorems, *extra_invs] + ([emit] if emit else [])
        cfg = f"SPECIFICATION Spec\nCONSTANT Scenarios <- {scenarios}\nCONSTANT Depth = {depth}\nPROPERTY Progress\nPROPERTY OpensFew\nCHECK_DEADLOCK FALSE\n"
        cfg += "".join(f"INVARIANT {i}\n" for i in invs)
        lines, err = self.tlc("WasmScenarios", cfg, workers=workers)
        if err:
            raise ToolError(f"the specification itself fails on {scenarios}:\n{err}")
        tests = [json.loads(json.loads(l)) for l in lines if l.startswith('"{')]
        return self.replay(tests, scenarios, level, mk)

    def replay(self, tests, name, level, mk=None):
        seen, uniq = set(), []
        for t in tests:
            k = (bytes(t["i"]), json.dumps(t["o"]), t.get("f", ""))
            if k not in seen:
                seen.add(k)
                uniq.append(t)
        mk = mk or (lambda t: {"b": bytes(t["i"]), **({"fault": [len(t["i"]), t["f"].rstrip("!"), True]} if t.get("f") else {})})
        cases = [mk(t) for t in uniq]
        obs = self.run(cases)
        nbad = 0
        for t, c, o in zip(uniq, cases, obs):
            got = parse(o["out"])
            if not agrees(got, t, level):
                nbad += 1
                self.violation(f"{name}: the code disagrees with the specification", c, t["o"], got)
        self.count("spec_to_code_tests", len(uniq))
        self.traces += len(uniq)
        for t, o in list(zip(uniq, obs))[:: max(1, len(uniq) // 3)][:3]:
            self.sample(kind="spec->code", family=name, input=bytes(t["i"]).hex(), specified=brief(t["o"]), observed=brief(parse(o["out"])))
        log(f"  {name}: {len(uniq)} tests from the specification, {nbad} disagree [{self.elapsed():.0f}s]")
        return uniq

    def theorem(self, module, cfg, env=None, workers=4):
        lines, err = self.tlc(module, cfg, env=env, workers=workers)
        if err:
            raise ToolError(f"the specification itself fails in {module}:\n{err}")
        return lines

    # -------------------------------------------- code to specification

    def judge(self, records, module="WasmTrace", workers=8, chunk=60000):
        """TLC judges recorded executions; returns {id: (verdict, pos, expected)}."""
        res = {}
        cfg = "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n"
        for k in range(0, len(records), chunk):
            part = records[k:k + chunk]
            f = self.path("records")
            with open(f, "w") as h:
                for r in part:
                    h.write(json.dumps(r) + "\n")
            lines, err = self.tlc(module, cfg, env={"CASES": f}, workers=workers)
            if err:
                raise ToolError(f"{module} failed on recorded executions:\n{err}")
            for l in join_tuples(lines):
                m = re.match(r'<<"VERDICT", (\d+), "(\w+)", (\d+), (.*)>>$', l)
                if m:
                    res[int(m[1])] = (m[2], int(m[3]), m[4])
            os.remove(f)
        missing = [r["id"] for r in records if r["id"] not in res]
        if missing:
            raise ToolError(f"{module}: {len(missing)} records were not judged, e.g. {missing[:3]}")
        self.traces += len(records)
        self.count("code_to_spec_traces", len(records))
        return res

    def validate(self, cases, level="verdict", name="", workers=8, obs=None):
        """Runs cases in the code and has TLC judge the recorded executions."""
        cases = [c if isinstance(c, dict) else {"b": c} for c in cases]
        obs = obs or self.run(cases)
        recs = []
        done = [i for i, o in enumerate(obs) if o["out"] != '["skipped"]']
        for i in done:
            c, o = cases[i], obs[i]
            b = case_bytes(c)
            f = c.get("fault")
            if f:
                b = b[: f[0]]
            recs.append({"id": i, "b": list(b), "f": (f[1] + "!") if f and len(b) >= f[0] else "", "o": o["out"], "l": c.get("l", level),
                         "r": c.get("r", ""), "got": o.get("got", 0)})
        res = self.judge(recs, workers=workers)
        nbad = 0
        for i in done:
            c, o = cases[i], obs[i]
            v, pos, exp = res[i]
            if v == "bomb":
                self.count("not_judged_local_bombs")
            elif v != "ok":
                nbad += 1
                self.violation(f"{name}: the specification does not explain the recorded execution", c, unquote(exp), parse(o["out"]))
        n_ok = sum(o["out"].startswith('["ok"') for o in obs)
        self.count("recorded_accepted", n_ok)
        self.count("recorded_rejected", len(obs) - n_ok)
        for c, o in list(zip(cases, obs))[:: max(1, len(cases) // 3)][:3]:
            self.sample(kind="code->spec", family=name, input=case_bytes(c).hex()[:400], observed=brief(parse(o["out"])))
        log(f"  {name}: {len(cases)} executions ({n_ok} accepting) validated, {nbad} rejected [{self.elapsed():.0f}s]")
        return obs, res


def join_tuples(lines):
    """TLC breaks long tuples over several lines."""
    out, cur = [], None
    for l in lines:
        if cur is not None:
            cur += " " + l.strip()
        elif l.startswith("<<"):
            cur = l
        else:
            continue
        if cur.endswith(">>"):
            c = re.sub(r"\s+", " ", cur) if "\n" in cur else cur
            out.append(re.sub(r"^<<\s+", "<<", c).replace(" >>", ">>"))
            cur = None
    return out


def unquote(s):
    try:
        return json.loads(json.loads(s)) if s and s != '""' else s
    except Exception:
        return s


def parse(s):
    try:
        return json.loads(s)
    except Exception:
        return ["unreadable", s[:200]]


def brief(o):
    s = json.dumps(o)
    return s if len(s) <= 300 else s[:300] + "..."


def case_bytes(c):
    if "b" in c:
        b = c["b"]
        return bytes.fromhex(b) if isinstance(b, str) else bytes(b)
    return b"".join(bytes.fromhex(p) * n for p, n in c["parts"])


def agrees(got, test, level):
    want = test["o"]
    if level == "accept":
        return got[0] == want[0]
    if level == "io":
        if want[0] == "err" and want[1][-1] == "io:" + test["f"]:
            return got[0] == "err" and (got[1][-1] == want[1][-1] or got[1] in test["a"])
        return got[0] == want[0]
    if got == want:
        return True
    if got[0] == "err" and got[1] in test["a"]:
        return True
    if level == "verdict":
        return got[0] == "err" and want[0] == "err"
    return False


# ---------------------------------------------------------------- endings

def known_findings():
    """Lines 'known: property=<id> key=<key> <what fails>'."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)$", l.strip())
            if m:
                out[(m[1], m[2])] = m[3]
    return out


def finish(ctx, level, extra=None):
    known = known_findings()
    fresh, listed = [], {}
    for b in ctx.bad:
        key = b.case.get("key") if isinstance(b.case, dict) else None
        if key and (ctx.pid, key) in known:
            listed[key] = known[(ctx.pid, key)]
        else:
            fresh.append(b)
    for key, what in sorted(listed.items()):
        print(f"KNOWN-FINDING: property={ctx.pid} {what}")
    cov = {"states": ctx.states, "transitions": ctx.transitions, "traces_validated_against_impl": ctx.traces,
           "samples": ctx.samples or [{"note": "none"}], **ctx.counts}
    if ctx.exhaustive:
        cov["enumerated_completely"] = ctx.exhaustive
    if extra:
        cov.update(extra)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(ctx.elapsed(), 1), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w"), indent=1)
    if not fresh:
        log(f"{ctx.pid}: held on everything explored ({ctx.states} states, {ctx.traces} traces, {ctx.elapsed():.0f}s)")
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    for b in fresh[:20]:
        c = {k: (v.hex() if isinstance(v, (bytes, bytearray)) else v) for k, v in b.case.items()} if isinstance(b.case, dict) else b.case
        doc = {"property": ctx.pid, "what": b.what, "case": c, "expected": b.expected, "observed": b.observed}
        text = json.dumps(doc, indent=1, default=str)
        f = os.path.join(REPLAYS, f"{ctx.pid}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
        open(f, "w").write(text)
        print(f"VIOLATION property={ctx.pid} replay={f}")
        log(f"  {b.what}\n    input    {json.dumps(c)[:300]}\n    expected {brief(b.expected)}\n    observed {brief(b.observed)}")
    if len(fresh) > 20:
        log(f"  ... and {len(fresh) - 20} more")
    return 1
