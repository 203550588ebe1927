"""Systematic families: one quantity of an input is swept while the rest of
it stays.  They only choose inputs; what those mean is for the specification
to say."""
import random
from gen import *
from families import (MAXB, put, BASE_ITEMS, CTL, DATA_INS, NEAR_INS, SMALL_SECTION, templates, walk, get, in_body, utf8ish)


def near_powers(top, lo=0, d=(-1, 0, 1)):
    """2^k - 1, 2^k, 2^k + 1 up to 2^top."""
    return sorted({v for k in range(lo, top + 1) for v in (2**k + e for e in d) if v >= 0})


# lengths and counts: all small ones, and those around powers of two
def lengths(upto, top):
    return sorted(set(range(upto + 1)) | {v for v in near_powers(top) if v > upto} | {v for k in range(5, top) for v in (3 * 2**(k - 1), 2**k + 2) if v > upto})


def preambles():
    """Every value of each byte of the preamble, before nothing and before a
    section; every length; exchanged bytes."""
    out = []
    for i in range(8):
        for v in range(256):
            p = bytearray(PRE)
            p[i] = v
            out += [bytes(p), bytes(p) + b"\1\4\1\x60\0\0"]
            for j in range(8):
                if i != j and (v in (0, 1, 0xFF, PRE[i] ^ 0x20, PRE[j])):
                    q = bytearray(p)
                    q[j] = PRE[i]
                    out.append(bytes(q))
    for i in range(9):
        for j in range(i, 9):
            out += [PRE[:i] + PRE[j:], PRE[:i] + PRE[i:j] * 2 + PRE[j:], PRE[:i] + b"\0" + PRE[i:], PRE[:i] + PRE[j:] + b"\1\1\0"]
    out += [PRE[4:] + PRE[:4], PRE[:4] + b"\0\0\0\1", PRE * 2, b"\xef\xbb\xbf" + PRE, PRE[:4] + b"\x0d\0\1\0", PRE[:4] + b"\1\0\1\0", PRE[:4] + b"\2\0\0\0"]
    return list(dict.fromkeys(out))


# what an integer is part of, by the section that has it
def topic(t):
    return {1: "types", 2: "items", 7: "items", 8: "items", 13: "items", 4: "stores", 5: "stores", 6: "stores", 9: "stores", 11: "data", 12: "data", 3: "code", 0: "custom"}[t[1][0]]


def values(topics, seed=1, step=1):
    """Each integer of each small module, with every value around a power of
    two (and their negatives)."""
    r = random.Random(seed)
    g = Gen(seed, 2)
    out = []
    for t in templates(r, g):
        if topic(t) not in topics:
            continue
        n = 0
        # numbers of locals have sweeps of their own: accepted, they are expanded
        runs = [id(get(q)) for z in (t[2:] if topic(t) == "code" else []) for e in walk(z, lambda u: isinstance(u, Sized)) for q in walk(get(e).body[:1], lambda u: isinstance(u, Leb))
                if isinstance(get(e).body, list)]
        for u in [get(q) for q in walk(t, lambda u: isinstance(u, Leb))]:
            old = u.val
            few = id(u) in runs and u.kind == "u32"
            bits = {"u32": 32, "u64": 64, "i32": 31, "i64": 63, "s33": 32}[u.kind]
            vs = [v for v in near_powers(bits) if v < 2**bits] + [2**bits - 1]
            if u.kind[0] != "u":
                vs += [-v for v in vs] + [-2**bits]
            for v in dict.fromkeys(vs):
                n += 1
                if n % step or (few and v > 70000):
                    continue
                u.val = v
                u.pad = 0
                out.append(ser(t))
            u.val = old
    return list(dict.fromkeys(out))


def section_sizes(upto=70, top=10, ids=range(14)):
    """Sections of every length, the declared size off by a little."""
    out = []
    # contents of a chosen length, by kind
    def body(i, n):
        if i == 0: return b"\1n" + bytes(j % 251 for j in range(n - 2)) if n >= 2 else None
        if i == 11: return (b"\1\1" + ser(U(n - 4 if n < 132 else n - 5)) + b"\x5a" * (n - 4 if n < 132 else n - 5)) if n >= 4 else None
        if i == 7: return (b"\1" + ser(U(n - 4 if n < 132 else n - 5)) + b"x" * (n - 4 if n < 132 else n - 5) + b"\0\0") if n >= 4 else None
        if i == 6: return (b"\1\x7f\0" + b"\1" * (n - 4) + b"\x0b") if n >= 4 else None
        if i == 9: return (b"\1\5\x70\1" + b"\1" * (n - 5) + b"\x0b") if n >= 5 else None
        if i == 1: return (b"\1\x60" + ser(U(n - 4 if n < 132 else n - 5)) + b"\x7f" * (n - 4 if n < 132 else n - 5) + b"\0") if n >= 4 else None
        if i in (3, 5, 13) and n:
            w = {3: 1, 5: 2, 13: 2}[i]
            k = (n - 1) // w
            k = k if k < 128 else (n - 2) // w
            b = ser(U(k)) + {3: b"\3", 5: b"\0\3", 13: b"\0\3"}[i] * k
            return b if len(b) == n else None
        return ser(SMALL_SECTION[i]) if n == len(ser(SMALL_SECTION[i])) else None
    for i in ids:
        for n in lengths(upto, top):
            b = body(i, n)
            if b is None:
                continue
            for d in (-2, -1, 0, 1, 2, 3) if n <= 20 or i == 0 else (-1, 0, 1) if n <= 300 else (0, 1):
                if n + d < 0:
                    continue
                extra = (b"\1" if n % 2 else b"\0") * max(0, d)
                out.append(PRE + bytes([i]) + ser(U(n + d)) + b + extra)                       # what is there is left over
                if d > 0 and n % 3 == 0:
                    out.append(PRE + bytes([i]) + ser(U(n + d)) + b + ser(section(0, [1, 0x78])))   # the next section is claimed
                    out.append(PRE + bytes([i]) + ser(U(n + d)) + b)                                # nothing is there
    return out


def large_faults(lens=(16384, 65536)):
    """Sections with long contents, ending too soon or too late, or followed
    by what is not in order."""
    out = []
    for n in lens:
        sec = {0: [name(b"n"), b"c" * n], 11: [U(1), U(1), name(b"d" * n)], 7: [U(1), name(b"e" * n), 0, 0], 1: [U(1), 0x60, vec([0x7F] * n), 0], 5: vec([b"\0\1"] * n), 13: vec([b"\0\0"] * n),
               9: [1, 5, 0x70, vec([0x0B] * n)], 6: [1, 0x7F, 0, b"\1" * n, 0x0B], 4: vec([b"\x70\0\0"] * n), 2: vec([b"\0\0\0\1"] * n), 3: vec([0] * n)}
        for i, c in sec.items():
            c = ser(c)
            if len(lens) == 1 and len(c) > 66000:
                continue
            for j, d in enumerate((1, 300)):
                out.append(PRE + bytes([i]) + ser(U(len(c) + d)) + c + b"\1" * d)
                if (i + j) % 3 == 0:
                    out.append(PRE + bytes([i]) + ser(U(len(c) + d)) + c)
            if i not in (3,):
                out += [PRE + bytes([i]) + ser(U(len(c) - 1)) + c, PRE + bytes([i]) + ser(U(len(c))) + c[:-1], (PRE + bytes([i]) + ser(U(len(c))) + c) + bytes([i or 1, 1, 0]) * 2,
                        (PRE + bytes([i]) + ser(U(len(c))) + c) + b"\x0e\0"]
    return out


def entry_sizes(upto=140, top=10):
    """Code entries of every length, bytes left over or missing."""
    out = []
    for n in lengths(upto, top):
        for d in (-1, 0, 1, 2) if n <= upto else (0, 1):
            for z in (1, 0, 0x0B) if d > 0 else (1,):
                body = b"\0" + b"\1" * n + b"\x0b" + bytes([z]) * max(0, d)
                e = Sized(body, delta=min(0, d))
                es = [[e], [b"\2\0\x0b", e], [e, b"\2\0\x0b"]][(n + d + z) % 3]
                out.append(ser([PRE, section(3, vec([0] * len(es))), section(10, vec(es))]))
        # well-formed but for what the entry says of its size
        for d in (1, 2, 3, -1, 128):
            if n <= upto or d == 1:
                e = Sized(b"\0" + b"\1" * n + b"\x0b", delta=d)
                out.append(ser([PRE, section(3, vec([0] * 3)), section(10, vec([e, b"\2\0\x0b", b"\3\0\1\x0b"]))]))
                if n % 2:
                    out.append(ser([PRE, section(3, vec([0] * 3)), section(10, vec([b"\2\0\x0b", e, b"\3\0\1\x0b"]))]))
        # as many runs of locals
        k = n % 40
        body = ser([vec([[U(j % 3), [0x7F, 0x7E, 0x70][j % 3]] for j in range(k)]), b"\1" * (n // 40), 0x0B])
        for d in (-1, 1):
            e = Sized(body + b"\1" * max(0, d), delta=min(0, d))
            out.append(ser([PRE, section(3, vec([0])), section(10, vec([e]))]))
    return out


OTHERS = {1: [1, 0x60, 0, 0], 2: [1, 0, 0, 0, 0], 4: [1, 0x70, 0, 1], 5: [1, 0, 1], 13: [1, 0, 0], 6: [1, 0x7F, 0, 0x41, 5, 0x0B], 7: [1, 1, 0x61, 0, 0], 8: [0], 9: [1, 1, 0, 0]}


def assemble(parts):
    """Sections, given as a dict from their ids, in the prescribed order."""
    return ser([PRE] + [section(i, parts[i]) for i in Gen.ORDER if i in parts])


def subsets():
    """Sets of other sections: none, each, each pair, all, all but one."""
    k = list(OTHERS)
    out = [()] + [(a,) for a in k] + [(a, b) for a in k for b in k if a < b] + [tuple(k)] + [tuple(x for x in k if x != a) for a in k]
    return out


def count_mismatches():
    """Every small combination of function and code counts, explicit or
    absent, beside every set of other sections."""
    out = []
    for n, s in enumerate(subsets()):
        base = {i: OTHERS[i] for i in s}
        if 2 in base and n % 2:
            base[2] = [2, 0, 0, 0, 0, 0, 0, 0, 0]     # two imported functions
        for nf in (None, 0, 1, 2, 3):
            for nc in (None, 0, 1, 2, 3):
                if len(s) == 2 and (nf or 0) == (nc or 0) and (n + (nf or 0)) % 3:
                    continue
                p = dict(base)
                if nf is not None: p[3] = vec([0] * nf)
                if nc is not None: p[10] = vec([b"\2\0\x0b"] * nc)
                out.append(assemble(p))
                if n % 4 == 0:
                    q = dict(p)
                    q[12], q[11] = U(1), [1, 1, 0]
                    out.append(assemble(q))
    return out


def data_mismatches():
    """Every small combination of data counts and segments beside every set
    of other sections, with and without uses of data indices."""
    out = []
    for n, s in enumerate(subsets()):
        base = {i: OTHERS[i] for i in s}
        for dc in (None, 0, 1, 2, 3):
            for nd in (None, 0, 1, 2, 3):
                if len(s) == 2 and (n + (dc or 0) + (nd or 0)) % 2:
                    continue
                p = dict(base)
                if dc is not None: p[12] = U(dc)
                if nd is not None: p[11] = vec([b"\1\0"] * nd)
                use = (n + (dc or 7) + (nd or 5)) % 3
                if use:
                    p[3] = vec([0])
                    p[10] = vec([Sized([0, b"\xfc\x09\0" if use == 1 else b"\1", 0x0B])])
                out.append(assemble(p))
    return out


STRUCT = [([0x02, 0x40], [0x0B]), ([0x03, 0x40], [0x0B]), ([0x04, 0x40], [0x0B]), ([0x04, 0x40, 0x05], [0x0B]), ([0x04, 0x40], [0x05, 0x0B]), ([0x1F, 0x40, 0], [0x0B]),
          ([0x1F, 0x40, 1, 2, 0], [0x0B]), ([0x02, 0x7F], [0x0B]), ([0x04, 0x40, 0x01, 0x05, 0x02, 0x40, 0x0B], [0x0B])]


def data_uses(seed, wide=False):
    """Uses of data indices after bodies of every length, in nests of every
    shape, in the last of several functions."""
    r = random.Random(seed)
    out = []
    def add(before, u, after, dc, ahead=0):
        es = [Sized([0, 0x01, 0x0B])] * ahead + [Sized([0, before, u, after, 0x0B])]
        out.append(ser([PRE, section(3, vec([0] * len(es))), [section(12, U(1)), section(10, vec(es)), section(11, [1, 1, 0])] if dc else section(10, vec(es))]))
    uses = DATA_INS + NEAR_INS[:2]
    fill = [[0x01], [0x41, 0], [0x02, 0x40, 0x0B], [0x0E, 0, 0], [0xFC, 13, 0], [0x04, 0x40, 0x05, 0x0B], [0x20, 0], [0x1C, 1, 0x7F], [0xFD, 12, bytes(16)]]
    for n in list(range(0, 21)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]:
        for j, u in enumerate(uses):
            f = fill[(n + j) % len(fill)] if n % 2 else fill[0]
            add([f] * n, u, [], (n + j) % 4 == 0)
            add([], u, [f] * n, False)
            pre, post = STRUCT[(n + j) % len(STRUCT)]
            add(pre + [f] * n, u, [f] * (n % 3) + post, False)
            add([r.choice(fill) for _ in range(n)] + pre, u, post, False)
        add([], uses[n % 4], [], False, n)
    # one structure right inside another, or with something beside it
    for i, (a, z) in enumerate(STRUCT):
        for j, (b, y) in enumerate(STRUCT):
            for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 64, 65):
                f = fill[0] if n % 2 else fill[(i + j + n) % len(fill)]
                add([a, b, [f] * n], uses[(i + j + n) % 4], [y, z], False)
                if n and (i + j + n) % 3 == 0:
                    add([a, [f] * n, b], uses[(i + j + n) % 4], [y, z], False)
                    add([a, b], uses[(i + j + n) % 4], [y, [f] * n, z], False)
    # nests: every word of three structures, several instructions before
    for n in range(1200 if wide else 500):
        ks = [r.choice(STRUCT) for _ in range(r.choice([2, 3, 3, 4, 5, 6, 8, 12]))]
        pre, post = [], []
        for a, z in ks:
            pre += [[r.choice(fill) for _ in range(r.choice([0, 0, 1, 2, 5]))], a]
            post = [z, [r.choice(fill) for _ in range(r.choice([0, 0, 1, 2]))]] + post
        add(pre, uses[n % len(uses)] if n % 7 else r.choice(uses), post, n % 10 == 0)
    # the use may be in a body that is a structure and nothing else
    for a, z in STRUCT:
        for b, y in STRUCT:
            for c, x in STRUCT:
                add(a + b + c, DATA_INS[(len(a) + len(b) + len(c)) % 4], x + y + z, False)
    return out


def long_names(upto=40, tops=(64, 128, 256, 512, 1024, 2048, 4096), more=(8192, 16384, 65536)):
    """Characters of every width across every usual boundary, at every
    alignment, in each place that has a name; and what is not UTF-8 there."""
    out, w = [], 0
    def put(t):
        nonlocal w
        w += 1
        k = w % 4
        out.append(ser([PRE, section(7, vec([[name(t), 0, 0]]))]) if k == 0 else ser([PRE, section(0, [name(t), b"1"])]) if k == 1
                   else ser([PRE, section(2, vec([[name(t), name(b"q"), 0, 0]]))]) if k == 2 else ser([PRE, section(2, vec([[name(b""), name(t), 0, 0]]))]))
    chars = ["\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode()]
    for n in range(1, upto):
        for c in chars:
            for lead in range(len(c)):
                put(b"a" * lead + c * n)
    for n in tops + more:
        for c in chars:
            for at in range(len(c) + 1):         # the character begins `at` bytes before the boundary
                big = n > 2048
                if not (big and at != 1):
                    put(b"a" * (n - at) + c + b"b" * 5)
                if at in (1, 2) and not (n > 4096 and at == 2):
                    put((b"a" * at + c * (n // len(c) + 2))[: n + 64 - (n + 64 - at) % len(c)])
                if at and at < len(c) and n <= 2048:
                    put(b"a" * (n - at) + c[:at])              # ends in the middle
                    put(b"a" * (n - at) + c[:at] + b"b" * 9)   # or is followed by another
                    put(b"a" * (n - at) + c + c[-1:] + b"b" * 9)
    return out


def contents(small=70, large=(1024, 4096, 8192, 16384, 32768, 65536), pages=(1, 2, 3)):
    """Contents of every small length, and of whole buffers and pages, with
    several fillings, in data segments and custom sections."""
    out = []
    def put(b, k):
        out.append(ser([PRE, section(11, vec([[U(1), name(b)], [U(1), name(b"end")]]))]) if k == 0
                   else ser([PRE, section(11, vec([[U(1), name(b"x")], [U(0), 0x41, 7, 0x0B, name(b)]]))]) if k == 1
                   else ser([PRE, section(11, vec([[U(2), U(3), 0x23, 1, 0x0B, name(b)]]))]) if k == 2
                   else ser([PRE, section(0, [name(b"n"), b]), section(5, [0])]))
    fills = [lambda n: bytes(n), lambda n: b"\xff" * n, lambda n: b"ab" * (n // 2) + bytes(n - n // 2 * 2), lambda n: bytes(range(256)) * (n // 256) + bytes(range(n % 256)),
             lambda n: b"k" * (n - n // 2) + bytes(n // 2), lambda n: bytes(n // 2) + b"k" * (n - n // 2), lambda n: b"\x0b" * n, lambda n: b"\x80" * n]
    for n in range(small):
        for j, f in enumerate(fills):
            put(f(n), (n + j) % 4)
    for n in sorted({v for L in large for v in (L - 1, L, L + 1)}):
        for j, f in enumerate(fills[:6]):
            if n > 9000 and (n + j) % 3:
                continue
            put(f(n), (n + j) % 4)
    for p in pages:
        n = p * 65536
        for k in range(4):
            put(fills[0](n) if k % 2 == 0 else fills[4](n), k)
    return out


def local_runs(wide=False):
    """Runs of locals of every type, of many lengths; several runs in a row,
    of the same type or another."""
    types = [0x7F, 0x7E, 0x7D, 0x7C, 0x7B, 0x70, 0x6F, 0x71, [0x63, 0x70], [0x64, Leb("s33", 5)], [0x63, Leb("s33", 300)]]
    out = []
    one = lambda runs, body=b"\x0b": ser([PRE, section(3, vec([0])), section(10, vec([Sized([vec(runs), body])]))])
    ns = list(range(0, 12)) + [v for v in near_powers(17) if v >= 12] + [300001, 999999] + ([v for v in near_powers(19, 18)] if wide else [])
    for i, n in enumerate(ns):
        for j, t in enumerate(types):
            if n > 70000 and not wide and (i + j) % 3 and t not in (0x7B, 0x7F):
                continue
            out.append(one([[U(n), t]]))
            if n < 5000 or wide:
                out.append(one([[U(1), types[(j + 1) % len(types)]], [U(n), t], [U(2), types[(j + 2) % len(types)]]]))
                out.append(one([[U(n), t], [U(n), t]]))
                out.append(one([[U(n), t], [U(0), types[(j + 3) % len(types)]], [U(1), t]], b"\x20\0\x0b"))
    # many runs
    for k in list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]:
        out += [one([[U(j % 4), types[j % len(types)]] for j in range(k)]), one([[U(1), 0x7F]] * k), one([[U(0), types[j % len(types)]] for j in range(k)]),
                one([[U(j % 2), types[(j // 2) % 3]] for j in range(k)])]
    # one function after another
    for k in (2, 3, 10):
        out.append(ser([PRE, section(3, vec([0] * k)), section(10, vec([Sized([vec([[U(j), types[(j + i) % len(types)]] for j in range(4)]), 0x0B]) for i in range(k)]))]))
    return out


def vector_places():
    """Every place of a vector: what surrounds it, and its elements."""
    body = lambda ins: [PRE, section(3, vec([0])), section(10, vec([Sized([0, ins, 0x0B])]))]
    tp = lambda x: [PRE, section(1, [1, x])]
    nm = lambda j: name(b"%d" % j)
    vt = lambda j: [0x7F, 0x7E, 0x7D, 0x7C, 0x7B, 0x70, 0x6F, [0x63, Leb("s33", j)]][j % 8]
    places = [
        (lambda v: body([0x0E, v, 9]), lambda j: U(j)), (lambda v: body([0x1C, v]), vt), (lambda v: body([0x1F, 0x40, v, 0x0B]), lambda j: [2, U(j)] if j % 3 else [1, U(j), U(j + 1)]),
        (lambda v: tp([0x60, v, 0]), vt), (lambda v: tp([0x60, 0, v]), vt), (lambda v: tp([0x5F, v]), lambda j: [vt(j), j % 2] if j % 3 else [0x78 - j % 2, 1]),
        (lambda v: tp([0x50, v, 0x5F, 0]), lambda j: U(j)), (lambda v: tp([0x4F, v, 0x5F, 0]), lambda j: U(j)), (lambda v: tp([0x4E, v]), lambda j: [0x5E, vt(j), j % 2] if j % 2 else [0x60, 0, vec([vt(j)])]),
        (lambda v: [PRE, section(9, [1, 1, 0, v])], lambda j: U(j)), (lambda v: [PRE, section(9, [1, 5, 0x70, v])], lambda j: [0xD2, U(j), 0x0B]),
        (lambda v: [PRE, section(9, [1, 0, 0x41, 0, 0x0B, v])], lambda j: U(j)), (lambda v: [PRE, section(9, [1, 4, 0x41, 0, 0x0B, v])], lambda j: [0xD0, 0x70, 0x0B] if j % 2 else [0x0B]),
        (lambda v: [PRE, section(1, v)], lambda j: [0x5E, vt(j), j % 2]), (lambda v: [PRE, section(2, v)], lambda j: [nm(j), nm(j + 7), 0, U(j)]), (lambda v: [PRE, section(4, v)], lambda j: [0x70, 0, U(j)]),
        (lambda v: [PRE, section(5, v)], lambda j: [0, U(j)]), (lambda v: [PRE, section(6, v)], lambda j: [vt(j), j % 2, 0x41, Leb("i32", j), 0x0B]),
        (lambda v: [PRE, section(7, v)], lambda j: [nm(j), j % 5, U(j)]), (lambda v: [PRE, section(9, v)], lambda j: [1, 0, vec([U(j)])]), (lambda v: [PRE, section(11, v)], lambda j: [1, nm(j)]),
        (lambda v: [PRE, section(13, v)], lambda j: [0, U(j)]),
        (lambda v: [PRE, section(3, vec([U(j) for j in range(len(v[1]))])), section(10, v)], lambda j: Sized([0, 0x41, Leb("i32", j), 0x0B])),
        (lambda v: [PRE, section(3, v), section(10, vec([b"\2\0\x0b"] * len(v[1])))], lambda j: U(j)),
        (lambda v: [PRE, section(3, [1, 0]), section(10, [1, Sized([v, 0x0B])])], lambda j: [U(j % 3), vt(j)]),
        (lambda v: [PRE, section(11, [1, 1, v])], lambda j: j % 251), (lambda v: [PRE, section(7, [1, v, 0, 0])], lambda j: 97 + j % 26),
    ]
    return places


def announced_counts(ns=(0, 1, 3), bits=range(2, 32)):
    """A few elements where many more are announced: every power of two, at
    each place; what follows is as it would be were they not missing."""
    out = []
    for p, (place, item) in enumerate(vector_places()):
        for b in bits:
            for n in ns:
                for m in ((n + 2**b,) if n else (2**b, 2**32 - 2**b)):
                    v = vec([item(j) for j in range(n)])
                    v[0] = U(m)
                    out.append(ser(place(v)))
    return out


def vector_counts(upto=40, top=9, announced=(-1, 0, 1)):
    """Vectors of every small number of elements, and around powers of two,
    at each place; the count announced off by one; elements all different."""
    out = []
    for p, (place, item) in enumerate(vector_places()):
        for n in lengths(upto, top):
            for d in announced:
                if n + d < 0 or (d and n > 20 and (n + p) % 4):
                    continue
                v = vec([item(j) for j in range(n)])
                v[0] = U(n + d)
                out.append(ser(place(v)))
    return out


def instruction_runs(upto=24, top=9):
    """Expressions of every length, in a body, an initialiser and an element;
    the instructions all different."""
    pick = [lambda j: [0x41, Leb("i32", j)], lambda j: [0x20, U(j)], lambda j: 0x45 + j % 100, lambda j: [0x0C, U(j)], lambda j: [0x28, j % 3, U(j)], lambda j: [0x02, 0x40, 0x0B],
            lambda j: [0x43, j.to_bytes(4, "little")], lambda j: [0x1A, 0x01][j % 2]]
    out = []
    for n in lengths(upto, top):
        for k, f in enumerate(pick):
            if n > 300 and (n + k) % 4:
                continue
            ins = [f(j) for j in range(n)]
            out.append(in_body(ins))
            if n <= 130 and (n + k) % 3 == 0:
                out += [ser([PRE, section(6, vec([[0x7F, 0, ins, 0x0B], [0x7E, 1, 0x42, 1, 0x0B]]))]), ser([PRE, section(9, vec([[5, 0x70, vec([[ins, 0x0B], [0xD2, 1, 0x0B]])]]))]),
                        ser([PRE, section(11, vec([[0, ins, 0x0B, name(b"z")]]))]), ser([PRE, section(4, vec([[0x40, 0, 0x70, 0, 1, ins, 0x0B]]))])]
    return out


def token_words(seed, n):
    """Longer words of structured control, well nested or nearly so."""
    r = random.Random(seed)
    def word(depth):
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if depth == 0 or x < 0.25: out.append(0x01)
            elif x < 0.4: out += [0x02, 0x40] + word(depth - 1) + [0x0B]
            elif x < 0.5: out += [0x03, 0x40] + word(depth - 1) + [0x0B]
            elif x < 0.65: out += [0x04, 0x40] + word(depth - 1) + [0x0B]
            elif x < 0.85: out += [0x04, 0x40] + word(depth - 1) + [0x05] + word(depth - 1) + [0x0B]
            elif x < 0.93: out += [0x1F, 0x40, 0] + word(depth - 1) + [0x0B]
            else: out += [0x1F, 0x40, 1, r.choice([2, 3]), 0] + word(depth - 1) + [0x0B]
        return out
    out = []
    while len(out) < n:
        w = word(r.choice([2, 3, 4, 5, 6]))
        if not 4 < len(w) < 90:
            continue
        k = r.randrange(6)
        if k == 0: w.insert(r.randrange(len(w) + 1), 0x05)
        elif k == 1: w.insert(r.randrange(len(w) + 1), 0x0B)
        elif k == 2: del w[r.randrange(len(w))]
        elif k == 3:
            i, j = r.randrange(len(w)), r.randrange(len(w))
            w[i], w[j] = w[j], w[i]
        out.append(in_body(w))
    return out


def float_bits():
    """Constants with one bit, two adjacent bits, all but one bit set; every
    exponent; in each kind of place."""
    out, w = [], 0
    def put(ins):
        nonlocal w
        w += 1
        k = w % 3
        out.append(in_body([ins, 0x1A]) if k == 0 else ser([PRE, section(6, vec([[0x7D, 0, ins, 0x0B]]))]) if k == 1 else ser([PRE, section(9, vec([[5, 0x70, vec([[ins, 0x0B]])]]))]))
    for op, n in ((0x43, 32), (0x44, 64)):
        top = 2**n - 1
        e = 8 if n == 32 else 11
        vs = [0, top] + [1 << i for i in range(n)] + [3 << i for i in range(n - 1)] + [top ^ (1 << i) for i in range(n)] + [2**i - 1 for i in range(n)] + [top ^ (2**i - 1) for i in range(n)]
        for x in range(2**e) if n == 32 else sorted({0, 1, 2, 2**e - 1, 2**e - 2} | set(range(0, 2**e, 37))):
            for s in (0, 1):
                for f in (0, 1, 1 << (n - e - 2), (1 << (n - e - 2)) + 1, (1 << (n - e - 1)) - 1):
                    vs.append((s << (n - 1)) | (x << (n - e - 1)) | f)
        for v in dict.fromkeys(vs):
            put([op, v.to_bytes(n // 8, "little")])
    for i in range(128):
        for v in ((1 << i), (1 << 128) - 1 - (1 << i), (1 << i) - 1):
            put([0xFD, U(12 + i % 2), v.to_bytes(16, "little")])
    for b in range(256):
        put([0xFD, U(12), bytes([b]) * 16])
        put([0xFD, U(13), bytes((b + j) % 256 for j in range(16))])
    return out


_all = None


def some(seed, n, upto=600):
    """A sample of all the sweeps."""
    global _all
    if _all is None:
        _all = [preambles(), section_sizes(), entry_sizes(), count_mismatches(), data_mismatches(), data_uses(1), long_names(), contents(), local_runs(), vector_counts(), announced_counts(), markers(1, 20), finals(1, 20),
                instruction_runs(), token_words(1, 600), float_bits(), values(["types", "items", "stores", "data", "custom"]), values(["code"], step=7)]
    r = random.Random(seed)
    out = []
    for f in _all:
        k = [b for b in f if len(b) <= upto]
        out += r.sample(k, min(len(k), max(1, n // len(_all))))
    return out


def customs_everywhere(seed):
    """Custom sections, of many names and contents, at each boundary of
    modules with every set of sections; several at once."""
    from families import custom_pair
    r = random.Random(seed)
    g = Gen(seed)
    out = []
    full = {**OTHERS, 3: [1, 0], 10: [1, 2, 0, 0x0B], 12: [1], 11: [1, 1, 0]}
    sets = [tuple(Gen.ORDER)] + [tuple(i for i in Gen.ORDER if i != k) for k in Gen.ORDER] + [(a, b) for a in Gen.ORDER for b in Gen.ORDER if Gen.ORDER.index(a) < Gen.ORDER.index(b)] + [(a,) for a in Gen.ORDER]
    for n, s in enumerate(sets):
        parts = [PRE] + [ser(section(i, full[i])) for i in s]
        ends = [sum(map(len, parts[: j + 1])) for j in range(len(parts))]
        x = b"".join(parts)
        if 10 in s and 3 not in s:       # the code section is where this ends
            ends = ends[: s.index(10) + 1]
        plans = [[e] for e in ends] + [[e, e] for e in ends[:: 3]] + [ends] + [[ends[0], ends[-1]]]
        if len(s) == 2 and n % 2:
            plans = plans[:3]
        for p in plans:
            ins, y, last = [], b"", 0
            for a in p:
                nm, d = custom_pair(r, g)
                body = ser([name(nm), d])
                ins.append({"at": a, "name": list(nm), "data": list(d), "size": len(body)})
                y += x[last:a] + ser(section(0, body))
                last = a
            out.append((x, y + x[last:], ins))
    return out


def customs_among(seed, numbers):
    """Custom sections in great number, before, among and behind others."""
    full = {**OTHERS, 3: [1, 0], 10: [1, 2, 0, 0x0B], 12: [1], 11: [1, 1, 0]}
    parts = [PRE] + [ser(section(i, full[i])) for i in Gen.ORDER]
    ends = [sum(map(len, parts[: j + 1])) for j in range(len(parts))]
    x = b"".join(parts)
    r = random.Random(seed)
    out = []
    for n in numbers:
        for where in (0, 1, 2) if n < 10000 else (seed % 3,):
            at = [ends[0]] * (n - 2) + [ends[3], ends[-1]] if where == 0 else [ends[-3]] * n + [ends[-1]] if where == 1 else sorted(r.choice(ends) for _ in range(n))
            ins, y, last = [], [], 0
            for j, a in enumerate(at):
                nm = b"%x" % j if j % 3 else b""
                ins.append({"at": a, "name": list(nm), "data": [], "size": len(nm) + 1})
                y.append(x[last:a] + ser(section(0, name(nm))))
                last = a
            out.append((x, b"".join(y) + x[last:], ins))
    return out


def huge_names(sizes=(100001, (1 << 20) + 1)):
    out = []
    for n in sizes:
        for k, c in enumerate((b"a", "\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode())):
            if n > 200000 and k % 2:
                continue
            t = b"z" * (n % len(c)) + c * (n // len(c))
            out += [ser([PRE, section(7, vec([[name(t), 0, 0]]))]), ser([PRE, section(2, vec([[name(t), name(b"q"), 0, 0], [name(b""), name(b"x"), 1, 0x70, 0, 1]]))]), ser([PRE, section(0, [name(t), b"1"])])][k % 3 :: 3 if n > 200000 else 1]
        out.append(ser([PRE, section(7, vec([[name(b"a" * (n - 1) + b"\xff"), 0, 0]]))]))
    return out


def million(n=1000001):
    return [ser([PRE, section(9, vec([[1, 0, vec([1] * n)]]))]), ser([PRE, section(13, vec([b"\0\1"] * n))]), in_body(b"\1" * n), in_body([0x0E, vec([2] * n), 0])]


def markers(seed, per=24):
    """Each single byte of each small module (opcodes, markers, flags) takes
    other values, sizes kept fitting."""
    r = random.Random(seed)
    g = Gen(seed, 2)
    out = []
    for t in templates(r, g):
        for ref in walk(t[1:], lambda u: isinstance(u, int) and not isinstance(u, bool)):
            old = get(ref)
            vs = [old ^ (1 << i) for i in range(8)] + [0, 1, 2, 3, 4, 0x40, 0x7F, 0x80, 0xFF, old + 1, old - 1] + [r.randrange(256) for _ in range(max(0, per - 19))] if per < 256 else range(256)
            for v in dict.fromkeys(v % 256 for v in vs):
                put(ref, v)
                out.append(ser(t))
            put(ref, old)
    return list(dict.fromkeys(out))


def finals(seed, step=1):
    """Each integer of each small module at its full length with every final
    byte (and with one byte too many)."""
    r = random.Random(seed)
    g = Gen(seed, 2)
    out, n = [], r.randrange(step)
    pats = [b"\x80", b"\xff", b"\x81", b"\xc0"]
    for t in templates(r, g):
        runs = [id(get(q)) for z in (t[2:] if topic(t) == "code" else []) for e in walk(z, lambda u: isinstance(u, Sized)) for q in walk(get(e).body[:1], lambda u: isinstance(u, Leb))
                if isinstance(get(e).body, list)]
        for ref in walk(t[1:], lambda u: isinstance(u, Leb)):
            old = get(ref)
            k = MAXB[old.kind]
            few = id(old) in runs and old.kind == "u32"      # numbers of locals: accepted, they are expanded
            for last in list(range(128)) + [128, 255]:
                n += 1
                if n % step:
                    continue
                if few and last < 16:
                    continue
                p = pats[n // step % 4] * (k - 1) if n // step % 7 else bytes(128 + r.randrange(128) for _ in range(k - 1))
                put(ref, p + bytes([last]) + (b"\0" if last > 127 else b""))
                out.append(ser(t))
            put(ref, old)
    return out
