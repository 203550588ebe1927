"""Stimulus generation: random and systematic inputs for the decoder.

Nothing here is an oracle: what an input means is decided by the TLA+
specification alone.  Inputs are built as trees so that integers can be
re-encoded, and sections and entries re-sized, without changing the rest.
"""
import random

# ---------------------------------------------------------------- trees

class Leb:
    __slots__ = ("kind", "val", "pad")

    def __init__(self, kind, val, pad=0):
        self.kind, self.val, self.pad = kind, val, pad

MAXB = {"u32": 5, "i32": 5, "s33": 5, "u64": 10, "i64": 10}

def leb_bytes(kind, v, pad=0):
    """Encoding of v with up to `pad` superfluous bytes (bounded by width)."""
    out = []
    if kind[0] == "u":
        while True:
            b = v & 0x7F
            v >>= 7
            if v == 0:
                out.append(b)
                break
            out.append(b | 0x80)
        n = min(pad, MAXB[kind] - len(out))
        for _ in range(n):
            out[-1] |= 0x80
            out.append(0)
    else:
        while True:
            b = v & 0x7F
            v >>= 7
            if (v == 0 and not b & 0x40) or (v == -1 and b & 0x40):
                out.append(b)
                break
            out.append(b | 0x80)
        n = min(pad, MAXB[kind] - len(out))
        fill = 0x7F if out[-1] & 0x40 else 0
        for _ in range(n):
            out[-1] |= 0x80
            out.append(fill)
    return bytes(out)

class Sized:
    """A size in bytes followed by that many bytes."""
    __slots__ = ("body", "delta", "pad")

    def __init__(self, body, delta=0, pad=0):
        self.body, self.delta, self.pad = body, delta, pad

def ser(t, pad=None):
    """Serialise a tree; pad() gives extra bytes for each integer."""
    if isinstance(t, (bytes, bytearray)):
        return bytes(t)
    if isinstance(t, int):
        return bytes([t])
    if isinstance(t, Leb):
        return leb_bytes(t.kind, t.val, t.pad + (pad() if pad else 0))
    if isinstance(t, Sized):
        b = ser(t.body, pad)
        return leb_bytes("u32", max(0, len(b) + t.delta), t.pad + (pad() if pad else 0)) + b
    return b"".join(ser(x, pad) for x in t)

def U(v):
    return Leb("u32", v)

def vec(items):
    return [U(len(items)), list(items)]

def name(b):
    return [U(len(b)), bytes(b)]

def section(i, body, delta=0):
    return [i, Sized(body, delta)]

PRE = b"\0asm\1\0\0\0"

# ---------------------------------------------------------------- opcodes
# immediates by kind; used only to produce plausible operands

FB_SHAPE = {}
for o in (0, 1, 6, 7, 11, 12, 13, 14, 16): FB_SHAPE[o] = "t"
for o in (2, 3, 4, 5, 8, 9, 10, 17, 18, 19): FB_SHAPE[o] = "tt"
for o in (20, 21, 22, 23): FB_SHAPE[o] = "h"
for o in (24, 25): FB_SHAPE[o] = "c"
for o in (15, 26, 27, 28, 29, 30): FB_SHAPE[o] = ""
FC_SHAPE = {**{o: "" for o in range(8)}, 8: "tt", 9: "t", 10: "tt", 11: "t",
            12: "tt", 13: "t", 14: "tt", 15: "t", 16: "t", 17: "t"}
FD_SHAPE = {}
for o in list(range(0, 12)) + [92, 93]: FD_SHAPE[o] = "m"
for o in (12, 13): FD_SHAPE[o] = "r"
for o in range(21, 35): FD_SHAPE[o] = "l"
for o in range(84, 92): FD_SHAPE[o] = "ml"
for o in range(0, 276):
    FD_SHAPE.setdefault(o, "")
FD_BAD = {154, 162, 165, 166, 175, 176, 178, 179, 180, 187, 194, 197, 198, 207, 208, 210, 211, 212, 226, 238}
FD_GOOD = [o for o in range(0, 276) if o not in FD_BAD]
MAIN_SHAPE = {0x00: "", 0x01: "", 0x08: "t", 0x0A: "", 0x0C: "t", 0x0D: "t", 0x0E: "v",
              0x0F: "", 0x10: "t", 0x11: "tt", 0x12: "t", 0x13: "tt", 0x14: "t", 0x15: "t",
              0x1A: "", 0x1B: "", 0x1C: "y", 0xD0: "h", 0xD1: "", 0xD2: "t", 0xD3: "",
              0xD4: "", 0xD5: "t", 0xD6: "t"}
for o in range(0x20, 0x27): MAIN_SHAPE[o] = "t"
for o in range(0x28, 0x3F): MAIN_SHAPE[o] = "m"
for o in (0x3F, 0x40): MAIN_SHAPE[o] = "t"
MAIN_SHAPE[0x41] = "i"; MAIN_SHAPE[0x42] = "j"; MAIN_SHAPE[0x43] = "f"; MAIN_SHAPE[0x44] = "g"
for o in range(0x45, 0xC5): MAIN_SHAPE[o] = ""
CTL = (0x02, 0x03, 0x04, 0x1F)

# names with a meaning to somebody
CUSTOM_NAMES = [b"name", b"producers", b"target_features", b"linking", b"reloc.CODE", b"reloc.DATA", b"reloc.", b"dylink", b"dylink.0", b".debug_info", b".debug_line",
                b".debug_str", b".debug_abbrev", b".debug_ranges", b"sourceMappingURL", b"external_debug_info", b"build_id", b"component-name", b"core", b"metadata.code.branch_hint",
                b"metadata.code.", b"__custom", b"code", b"data", b"type", b"Name", b"name\0", b"nam", b"names", b"wasm"]
WELL_KNOWN = [b"env", b"wasi_snapshot_preview1", b"wasi_unstable", b"memory", b"_start", b"_initialize", b"main", b"__indirect_function_table", b"__memory_base",
              b"__stack_pointer", b"__heap_base", b"spectest", b"print_i32", b"table", b"mem", b"start", b"malloc", b"__wbindgen_start", b"abort"]

INTEREST_U32 = [0, 1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 65535, 65536,
                2**20, 2**21 - 1, 2**21, 2**28 - 1, 2**28, 2**30 - 1, 2**30, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
INTEREST_U64 = INTEREST_U32 + [2**32, 2**33, 2**35 - 1, 2**35, 2**42, 2**47, 2**48, 2**49 - 1, 2**56, 2**62, 2**63 - 1,
                               2**63, 2**64 - 1, 0x123456789ABCDEF0]
INTEREST_I32 = [0, 1, -1, 2, -2, 63, 64, -64, -65, 127, 128, -128, 8191, 8192, -8192, -8193, 2**20, -2**20, 2**27, -2**27,
                2**27 - 1, -2**27 - 1, 2**30, -2**30, 2**31 - 1, -2**31]
INTEREST_I64 = INTEREST_I32 + [2**31, -2**31 - 1, 2**32, -2**32, 2**34, -2**34, 2**41, 2**48, -2**48, 2**55, -2**55, 2**61, 2**62,
                               -2**62, 2**63 - 1, -2**63]

class Gen:
    def __init__(self, seed=0, size=3):
        self.r = random.Random(seed)
        self.size = size

    # ---- leaves
    def small(self):
        r = self.r
        x = r.random()
        if x < 0.75:
            return r.randrange(0, 12)
        if x < 0.93:
            return r.randrange(0, 300)
        return r.choice(INTEREST_U32)

    def idx(self):
        return U(self.small())

    def n(self, lo=0, hi=None):
        hi = self.size if hi is None else hi
        return self.r.randrange(lo, hi + 1)

    def u64(self):
        return Leb("u64", self.small() if self.r.random() < 0.6 else self.r.choice(INTEREST_U64))

    def nm(self):
        r = self.r
        if r.random() < 0.1:
            return name(r.choice(WELL_KNOWN))
        alph = ["", "a", "mem", "é", "日本", "😀", "\0", "a\0b", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "\ud7ff", "\ue000",
                "x" * 30, "\u200d", "\ufeff"]
        s = "".join(r.choice(alph) for _ in range(r.randrange(0, 3)))
        return name(s.encode())

    def blob(self, n=None):
        n = self.n(0, 6) if n is None else n
        return bytes(self.r.randrange(256) for _ in range(n))

    # ---- types
    ABS = list(range(0x69, 0x75))
    NUMVEC = [0x7F, 0x7E, 0x7D, 0x7C, 0x7B]

    def heaptype(self):
        if self.r.random() < 0.6:
            return self.r.choice(self.ABS)
        return Leb("s33", self.r.choice([0, 1, 5, 63, 64, 105, 116, 127, 128, 200, 8191, 8192, 2**27, 2**31, 2**32 - 1]))

    def reftype(self):
        x = self.r.random()
        if x < 0.5:
            return self.r.choice(self.ABS)
        return [self.r.choice([0x63, 0x64]), self.heaptype()]

    def valtype(self):
        return self.r.choice(self.NUMVEC) if self.r.random() < 0.6 else self.reftype()

    def storage(self):
        return self.r.choice([0x77, 0x78]) if self.r.random() < 0.4 else self.valtype()

    def mut(self):
        return self.r.randrange(2)

    def field(self):
        return [self.storage(), self.mut()]

    def comptype(self):
        x = self.r.randrange(3)
        if x == 0:
            return [0x5E, self.field()]
        if x == 1:
            return [0x5F, vec([self.field() for _ in range(self.n())])]
        return [0x60, vec([self.valtype() for _ in range(self.n())]), vec([self.valtype() for _ in range(self.n())])]

    def subtype(self):
        x = self.r.randrange(3)
        if x == 0:
            return self.comptype()
        return [0x4F + x - 1, vec([self.idx() for _ in range(self.n(0, 2))]), self.comptype()]

    def rectype(self):
        if self.r.random() < 0.35:
            return [0x4E, vec([self.subtype() for _ in range(self.n())])]
        return self.subtype()

    def limits(self):
        f = self.r.choice([0, 1, 4, 5])
        return [f, self.u64()] + ([self.u64()] if f & 1 else [])

    def tabletype(self):
        return [self.reftype(), self.limits()]

    def globaltype(self):
        return [self.valtype(), self.mut()]

    def tagtype(self):
        return [0, self.idx()]

    def extern(self):
        x = self.r.randrange(5)
        return [x, [self.idx, self.tabletype, self.limits, self.globaltype, self.tagtype][x]()]

    # ---- instructions
    def memarg(self):
        a = self.r.randrange(0, 6) if self.r.random() < 0.8 else self.r.randrange(0, 64)
        if self.r.random() < 0.3:
            return [U(64 + a), self.idx(), self.u64()]
        return [U(a), self.u64()]

    def imm(self, s):
        r = self.r
        out = []
        for c in s:
            if c == "t": out.append(self.idx())
            elif c == "m": out.append(self.memarg())
            elif c == "l": out.append(r.randrange(256))
            elif c == "r": out.append(self.blob(16))
            elif c == "f": out.append(self.f32())
            elif c == "g": out.append(self.f64())
            elif c == "i": out.append(Leb("i32", r.choice(INTEREST_I32)))
            elif c == "j": out.append(Leb("i64", r.choice(INTEREST_I64)))
            elif c == "h": out.append(self.heaptype())
            elif c == "c": out += [r.randrange(4), self.idx(), self.heaptype(), self.heaptype()]
            elif c == "v": out += [vec([self.idx() for _ in range(self.n())]), self.idx()]
            elif c == "y": out.append(vec([self.valtype() for _ in range(self.n())]))
        return out

    def f32(self):
        if self.r.random() < 0.5:
            return self.r.choice([0, 1 << 31, 0x7F800000, 0xFF800000, 0x7FC00000, 0x7F800001, 0xFFA5A5A5, 0x7FBFFFFF, 1, 0x80000001,
                                  0x007FFFFF, 0x3F800000]).to_bytes(4, "little")
        return self.blob(4)

    def f64(self):
        if self.r.random() < 0.5:
            return self.r.choice([0, 1 << 63, 0x7FF0 << 48, 0xFFF0 << 48, 0x7FF8 << 48, (0x7FF0 << 48) | 1, 0xFFF7FFFFFFFFFFFF, 1,
                                  (1 << 63) | 1, 0x3FF0 << 48]).to_bytes(8, "little")
        return self.blob(8)

    def blocktype(self):
        x = self.r.random()
        if x < 0.35: return 0x40
        if x < 0.7: return self.valtype()
        return Leb("s33", self.r.choice([0, 1, 5, 63, 64, 99, 100, 127, 128, 8191, 8192, 2**31, 2**32 - 1]))

    def catch(self):
        x = self.r.randrange(4)
        return [x, self.idx(), self.idx()] if x < 2 else [x, self.idx()]

    def ins(self, depth):
        r = self.r
        x = r.random()
        if depth > 0 and x < 0.25:
            op = r.choice(CTL)
            body = [self.ins(depth - 1) for _ in range(self.n(0, 2))]
            t = [op, self.blocktype()]
            if op == 0x1F:
                t.append(vec([self.catch() for _ in range(self.n(0, 2))]))
            t += body
            if op == 0x04 and r.random() < 0.5:
                t += [0x05] + [self.ins(depth - 1) for _ in range(self.n(0, 2))]
            return t + [0x0B]
        if x < 0.45:
            op = r.choice(list(FB_SHAPE))
            return [0xFB, U(op), self.imm(FB_SHAPE[op])]
        if x < 0.55:
            op = r.choice(list(FC_SHAPE))
            return [0xFC, U(op), self.imm(FC_SHAPE[op])]
        if x < 0.7:
            op = r.choice(FD_GOOD)
            return [0xFD, U(op), self.imm(FD_SHAPE[op])]
        op = r.choice(list(MAIN_SHAPE))
        return [op, self.imm(MAIN_SHAPE[op])]

    def expr(self, depth=2, n=None):
        return [[self.ins(depth) for _ in range(self.n(0, 2) if n is None else n)], 0x0B]

    # ---- items
    def imp(self): return [self.nm(), self.nm(), self.extern()]
    def table(self):
        return self.tabletype() if self.r.random() < 0.5 else [0x40, 0, self.tabletype(), self.expr(1)]
    def glob(self): return [self.globaltype(), self.expr(1)]
    def export(self): return [self.nm(), self.r.randrange(5), self.idx()]
    def elem(self):
        f = self.r.randrange(8)
        t = [U(f)]
        if f in (2, 6): t.append(self.idx())
        if f in (0, 2, 4, 6): t.append(self.expr(1))
        if f in (1, 2, 3): t.append(0)
        if f in (5, 6, 7): t.append(self.reftype())
        t.append(vec([self.idx() if f < 4 else self.expr(1) for _ in range(self.n())]))
        return t
    def data(self):
        f = self.r.randrange(3)
        t = [U(f)]
        if f == 2: t.append(self.idx())
        if f != 1: t.append(self.expr(1))
        t.append(name(self.blob()))
        return t
    def locals(self):
        return vec([[U(self.r.choice([0, 1, 2, 3, 5, 9])), self.valtype()] for _ in range(self.n())])
    def code(self, depth=3): return Sized([self.locals(), self.expr(depth)])
    def custom(self):
        r = self.r
        x = r.random()
        nm = name(r.choice(CUSTOM_NAMES)) if x < 0.4 else self.nm()
        d = self.blob() if r.random() < 0.7 else r.choice([bytes(r.randrange(1, 9)), b"\0\4\3abc", b"\1\5\1\0\2fn", b"\xff" * 9, self.blob() + bytes(r.randrange(1, 4))])
        return section(0, [nm, d])

    ORDER = [1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11]

    def sections(self, p=0.6, only=None):
        """List of (id, tree) for a consistent module."""
        r = self.r
        has = {i: (only is None and r.random() < p) or (only is not None and i in only) for i in self.ORDER}
        n = self.n(0, 3)
        nd = self.n(0, 2)
        if has[3] != has[10]:
            if n and not has[10]:
                has[10] = True
            elif has[10] and not has[3]:
                n = 0
        if has[12] and not has[11]:
            nd = 0
        k = lambda: self.n(0, 3)
        body = {
            1: lambda: vec([self.rectype() for _ in range(k())]),
            2: lambda: vec([self.imp() for _ in range(k())]),
            3: lambda: vec([self.idx() for _ in range(n)]),
            4: lambda: vec([self.table() for _ in range(k())]),
            5: lambda: vec([self.limits() for _ in range(k())]),
            13: lambda: vec([self.tagtype() for _ in range(k())]),
            6: lambda: vec([self.glob() for _ in range(k())]),
            7: lambda: vec([self.export() for _ in range(k())]),
            8: lambda: self.idx(),
            9: lambda: vec([self.elem() for _ in range(k())]),
            12: lambda: U(nd),
            10: lambda: vec([self.code() for _ in range(n)]),
            11: lambda: vec([self.data() for _ in range(nd)]),
        }
        return [(i, section(i, body[i]())) for i in self.ORDER if has[i]]

    def module(self, p=0.5, customs=0.1, only=None):
        secs = [t for _, t in self.sections(p, only)]
        out = [PRE]
        for t in secs:
            while self.r.random() < customs:
                out.append(self.custom())
            out.append(t)
        while self.r.random() < customs:
            out.append(self.custom())
        return out

    def bytes_module(self, **kw):
        pad = None
        if self.r.random() < 0.15:
            pad = lambda: self.r.choice([0, 0, 0, 1, 2])
        return ser(self.module(**kw), pad)

    # ---- damage
    def mutate(self, b):
        r = self.r
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 1, 2])):
            if len(b) < 2:
                break
            lo = 8 if len(b) > 9 and r.random() < 0.97 else 0
            i = r.randrange(lo, len(b))
            x = r.random()
            if x < 0.22: b[i] = r.randrange(256)
            elif x < 0.40: b[i] ^= 1 << r.randrange(8)
            elif x < 0.52: b[i] = (b[i] + r.choice([1, -1])) % 256
            elif x < 0.62: del b[i]
            elif x < 0.72: b.insert(i, r.randrange(256))
            elif x < 0.80: b[i] = r.choice([0, 1, 2, 3, 4, 5, 0x0B, 0x40, 0x60, 0x63, 0x64, 0x70, 0x7F, 0x80, 0xFF, 0xFB, 0xFC, 0xFD, 0x4E, 0x4F, 0x50, 0x5E, 0x5F, 0x77, 0x78])
            elif x < 0.88: del b[i:]
            elif x < 0.94:
                j = min(len(b), i + r.randrange(1, 5))
                b[i:i] = b[i:j]
            else:
                b += bytes(r.randrange(256) for _ in range(r.randrange(1, 4)))
        return bytes(b)
