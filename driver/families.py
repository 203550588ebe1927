"""Families of inputs, one per topic.  They only choose inputs; what those
mean is for the specification to say."""
import random
from gen import *


def modules(seed, n):
    g = Gen(seed)
    return [g.bytes_module() for _ in range(n)]


def damaged(seed, n):
    g = Gen(seed)
    return [g.mutate(g.bytes_module()) for _ in range(n)]


def garbage(seed, n):
    r = random.Random(seed)
    out = []
    for i in range(n):
        b = bytes(r.choice([r.randrange(256), r.randrange(16), 0x0B]) for _ in range(r.randrange(0, 40)))
        k = r.randrange(4)
        out.append(b if k == 0 else PRE + b if k == 1 else PRE + bytes([r.randrange(14), len(b)]) + b if k == 2
                   else PRE + bytes([r.randrange(14), len(b), r.randrange(3)]) + b)
    return out


def framings(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    for _ in range(n):
        secs = [t for _, t in g.sections(r.choice([0.2, 0.4, 0.8]))]
        k = r.randrange(8)
        if k == 0 and len(secs) > 1:
            i, j = r.sample(range(len(secs)), 2)
            secs[i], secs[j] = secs[j], secs[i]
        elif k == 1 and secs:
            secs.insert(r.randrange(len(secs) + 1), r.choice(secs))
        elif k == 2:
            r.shuffle(secs)
        elif k == 3:
            secs.insert(r.randrange(len(secs) + 1), [r.choice([14, 15, 16, 100, 127, 128, 255]), Sized(g.blob())])
        elif k == 4:
            secs.insert(r.randrange(len(secs) + 1), section(r.randrange(14), [0]))
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            secs.insert(r.randrange(len(secs) + 1), g.custom())
        pre = PRE
        if k == 5:
            p = bytearray(PRE)
            i = r.randrange(8)
            p[i] = r.choice([p[i] ^ (1 << r.randrange(8)), r.randrange(256)])
            pre = bytes(p)
        elif k == 6:
            p = bytearray(PRE)
            i, j = r.sample(range(8), 2)
            p[i], p[j] = p[j], p[i]
            pre = bytes(p)
        out.append(ser([pre, secs], (lambda: r.choice([0, 0, 1, 4])) if r.random() < 0.2 else None))
    return out


def walk(t, pred, acc=None):
    """References (container, index) of the nodes satisfying pred."""
    acc = [] if acc is None else acc
    if isinstance(t, Sized):
        if pred(t.body):
            acc.append((t, "body"))
        walk(t.body, pred, acc)
    elif isinstance(t, list):
        for i, u in enumerate(t):
            if pred(u):
                acc.append((t, i))
            walk(u, pred, acc)
    return acc


def put(ref, v):
    c, i = ref
    if isinstance(c, Sized):
        c.body = v
    else:
        c[i] = v


def get(ref):
    c, i = ref
    return c.body if isinstance(c, Sized) else c[i]


def sizes(seed, n):
    """Section and entry sizes off by a little or a lot, others kept fitting."""
    g = Gen(seed, 2)
    r = g.r
    out = []
    while len(out) < n:
        t = g.module(p=r.choice([0.3, 0.6]), customs=0.15)
        refs = walk(t, lambda u: isinstance(u, Sized))
        if not refs:
            continue
        s = get(r.choice(refs))
        x = r.random()
        if x < 0.35:
            s.delta = r.choice([-1, 1, -2, 2, 3, 5])
        elif x < 0.55:   # bytes left over inside
            s.body = [s.body, g.blob(r.randrange(1, 4))] if r.random() < 0.5 else [s.body, r.choice([[0], [0x0B], [1], [0, 0]])]
        elif x < 0.75:   # the size claims some of what follows, or the following bytes go missing
            s.delta = r.choice([1, 2, 3, 4])
            if r.random() < 0.5:
                t.append(section(0, [name(b"x"), b"yz"]))
        elif x < 0.85:
            s.delta = r.choice([10**3, 2**20, 2**31, 2**32 - 1 - 2**12])
        elif x < 0.95:
            s.pad = r.choice([1, 2, 3, 4])
        if r.random() < 0.25:
            q = get(r.choice(refs))
            q.delta += r.choice([-1, 1])
        out.append(ser(t))
    return out


def entries(wide=False):
    """Code entries: runs of locals, padded or not, a short body, and bytes
    left over or missing, in every combination, in entries first and later."""
    out = []
    bodies = [[0x0B], [0x01, 0x0B], [0x41, 0, 0x0B], [0x02, 0x40, 0x0B, 0x0B], [0x0E, 0, 0, 0x0B]]
    for runs in range(0, 5):
        for w in (1, 3, 5) if wide else (1, 5):
            for body in bodies if wide else bodies[:4]:
                for over in (-3, -2, -1, 0, 1, 2, 3, 4, 6, 9, 17) if wide else (-2, -1, 0, 1, 3, 9):
                    for before in (0, 1):
                        ls = vec([[Leb("u32", 1, w - 1), 0x7F]] * runs)
                        own = ser([ls, body])
                        e = Sized(own + b"\x01" * max(0, over), delta=min(0, over))
                        es = [Sized([vec([[U(1), 0x7E]]), 0x01, 0x0B])] * before + [e]
                        out.append(ser([PRE, section(3, vec([U(0)] * len(es))), section(10, vec(es))]))
    return out


def wide_counts():
    """Counts that agree in their low bits only."""
    out = []
    fn = lambda n: section(3, vec([b"\0"] * n))
    code = lambda n: section(10, vec([b"\2\0\x0b"] * n))
    data = lambda n: section(11, vec([b"\1\0"] * n))
    for low in (0, 1, 3, 44):
        for step in (128, 256, 512, 4096):
            out += [ser([PRE, fn(low + step), code(low)]), ser([PRE, fn(low), code(low + step)]), ser([PRE, fn(low + step), code(low + step)]),
                    ser([PRE, section(12, U(low + step)), data(low)]), ser([PRE, section(12, U(low)), data(low + step)]), ser([PRE, section(12, U(low + step)), data(low + step)])]
        for step in (2**14, 2**16, 2**24, 2**31):
            out.append(ser([PRE, section(12, U(low + step)), data(low)]))
    out += [ser([PRE, fn(2**16 + 1), code(1)]), ser([PRE, fn(1), code(2**16 + 1)]), ser([PRE, fn(2**16), b""])]
    return out


def code_counts(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    for i in range(n):
        nf = r.choice([0, 1, 2, 3, 4, 7, 20])
        nc = nf if r.random() < 0.5 else max(0, nf + r.choice([-1, 1, -2, 2]))
        t = [PRE]
        if not (nf == 0 and r.random() < 0.5):
            t.append(section(3, vec([U(r.choice([j, 100 + j, 127 + j, 300 - j])) for j in range(nf)])))
        if r.random() < 0.2:
            t.append(g.custom())
        if not (nc == 0 and r.random() < 0.5) and r.random() < 0.95:
            # every entry is recognisable by its body and its locals
            t.append(section(10, vec([Sized([vec([[U(j % 3 + 1), r.choice([0x7F, 0x7E, 0x70])]] * (j % 2)),
                                             [0x41, Leb("i32", j)], [0x1A] * (j % 2), 0x0B]) for j in range(nc)])))
        if r.random() < 0.1:
            t.append(g.custom())
        if r.random() < 0.1 and len(t) > 2:
            t[-1], t[-2] = t[-2], t[-1]
        out.append(ser(t))
    return out


DATA_INS = [[0xFC, U(8), U(0), U(0)], [0xFC, U(9), U(1)], [0xFB, U(9), U(0), U(0)], [0xFB, U(18), U(0), U(1)]]
NEAR_INS = [[0xFC, U(10), U(0), U(0)], [0xFC, U(11), U(0)], [0xFC, U(12), U(0), U(0)], [0xFC, U(13), U(0)], [0xFB, U(10), U(0), U(0)],
            [0xFB, U(19), U(0), U(0)], [0xFB, U(8), U(0), U(0)], [0xFB, U(17), U(0), U(0)], [0xD2, U(0)], [0x41, Leb("i32", 0)], [0x01]]


def nest_in(r, ins, depth):
    """Puts an instruction at the given depth of structured instructions."""
    for _ in range(depth):
        pre = [r.choice(NEAR_INS)] * r.randrange(2)
        post = [r.choice(NEAR_INS)] * r.randrange(2)
        k = r.randrange(5)
        if k == 0: ins = [0x02, 0x40, pre, ins, post, 0x0B]
        elif k == 1: ins = [0x03, 0x40, pre, ins, post, 0x0B]
        elif k == 2: ins = [0x04, 0x40, pre, ins, post, 0x05, pre, 0x0B] if r.random() < 0.5 else [0x04, 0x40, pre, ins, post, 0x0B]
        elif k == 3: ins = [0x04, 0x40, pre, 0x05, ins, post, 0x0B]
        else: ins = [0x1F, 0x40, vec([[2, U(0)]] * r.randrange(2)), pre, ins, post, 0x0B]
    return ins


def data_counts(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    for _ in range(n):
        nf = r.randrange(0, 4)
        dc = r.choice([None, None, 0, 1, 2, 3])
        nd = r.choice([None, dc, dc, 0, 1, 2])
        where = r.randrange(nf) if nf and r.random() < 0.6 else -1
        bodies = []
        for j in range(nf):
            b = [nest_in(r, r.choice(NEAR_INS), r.randrange(3)) for _ in range(r.randrange(3))]
            if j == where:
                b.insert(r.randrange(len(b) + 1), nest_in(r, r.choice(DATA_INS), r.choice([0, 1, 1, 2, 3, 6])))
            bodies.append(b)
        t = [PRE]
        outside = r.random() < 0.3
        if nf: t.append(section(3, vec([U(0)] * nf)))
        if outside and r.random() < 0.5:
            t.append(section(6, vec([[0x7F, 0, nest_in(r, r.choice(DATA_INS), r.randrange(2)), 0x0B]])))
        if outside and r.random() < 0.5:
            t.append(section(9, vec([[U(5), 0x70, vec([[r.choice(DATA_INS), 0x0B]])]])))
        if dc is not None: t.append(section(12, U(dc)))
        if nf: t.append(section(10, vec([Sized([0, b, 0x0B]) for b in bodies])))
        if nd is not None:
            t.append(section(11, vec([[U(1), name(g.blob())] if not outside else [U(0), r.choice(DATA_INS), 0x0B, name(b"")] for _ in range(nd)])))
        if r.random() < 0.1:
            t.insert(r.randrange(1, len(t) + 1), g.custom())
        out.append(ser(t))
    return out


def groups(r, kind, v=None):
    """An arbitrary, often invalid, encoding."""
    mx = MAXB[kind]
    x = r.random()
    if x < 0.35:
        k = r.randrange(1, mx + 2)
        return bytes([r.choice([0x80, 0xFF, 0x81, 0xC0, r.randrange(128, 256)]) for _ in range(k - 1)]
                     + [r.choice([0, 1, 3, 7, 8, 0xF, 0x10, 0x3F, 0x40, 0x70, 0x78, 0x7C, 0x7E, 0x7F, r.randrange(128)])])
    if x < 0.6:   # just around the last byte's limits
        fill = r.choice([0x80, 0xFF, r.randrange(128, 256)])
        return bytes([fill] * (mx - 1) + [r.randrange(256)])
    if x < 0.7:
        return bytes([r.choice([0x80, 0xFF])] * mx + [r.choice([0, 1, 0x7F])])
    pool = {"u32": INTEREST_U32, "u64": INTEREST_U64, "i32": INTEREST_I32, "i64": INTEREST_I64,
            "s33": [a for a in INTEREST_I64 if -2**32 <= a < 2**32] + [2**32 - 1, -2**32]}[kind]
    return leb_bytes(kind, r.choice(pool), r.choice([0, 0, 1, 2, mx, mx]))


def integers(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    while len(out) < n:
        only = r.choice([None, [1], [2], [4], [5], [6], [7], [8], [9], [13], [3, 10], [3, 10], [11]])
        t = g.module(p=0.4, only=only, customs=0.0)
        refs = walk(t, lambda u: isinstance(u, Leb))
        if not refs:
            continue
        kinds = sorted({get(q).kind for q in refs})
        k = r.choice(kinds)
        ref = r.choice([q for q in refs if get(q).kind == k])
        old = get(ref)
        put(ref, leb_bytes(k, old.val, r.randrange(0, MAXB[k] + 1)) if r.random() < 0.3 else groups(r, k))
        out.append(ser(t))
    return out


def in_body(ins, locals_=0):
    return ser([PRE, section(3, vec([U(0)])), section(10, vec([Sized([locals_, ins, 0x0B])]))])


def opcodes(seed, rounds):
    g = Gen(seed, 2)
    r = g.r
    out = []
    for _ in range(rounds):
        pad = r.choice([None, None, lambda: r.choice([0, 1, 2])])
        P = lambda ins: ser([PRE, section(3, vec([U(0)])), section(10, vec([Sized([0, ins, 0x0B])]))], pad)
        for op in range(256):
            sh = MAIN_SHAPE.get(op, "")
            if op in CTL:
                out.append(P([op, g.blocktype(), vec([g.catch()]) if op == 0x1F else [], [1], 0x0B]))
            elif op not in (0xFB, 0xFC, 0xFD):
                out.append(P([op, g.imm(sh), [0x1A]]))
        for tab, pre, top in ((FB_SHAPE, 0xFB, 40), (FC_SHAPE, 0xFC, 30), (FD_SHAPE, 0xFD, 300)):
            for op in list(range(top)) + [r.choice([2**14, 2**21, 2**31, 2**32 - 1, r.randrange(2**32)])]:
                out.append(P([pre, U(op), g.imm(tab.get(op, "")), [0x1A]]))
            op = r.choice(list(tab))
            out.append(P([pre, Leb("u32", op, r.randrange(1, 5)), g.imm(tab[op]), [1]]))
            # numbers that agree with an assigned one in some bits only
            for op in tab:
                for k in r.sample(range(5, 32), 2):
                    alias = op ^ (1 << k)
                    if alias not in tab:
                        out.append(P([pre, U(alias), g.imm(tab[op]), [0x1A]]))
                out.append(P([pre, U((op + r.choice([2**8, 2**16, 2**24, 2**31, r.randrange(2**24) << 8])) % 2**32), g.imm(tab[op]), [0x1A]]))
    # every bit of every cast attribute, every alignment, every catch kind and lane
    for b in range(256):
        out.append(in_body([0xFB, U(24), b, U(1), 0x70, 0x6F]))
        out.append(in_body([0xFB, U(25), b, U(1), 0x70, Leb("s33", 3)]))
        out.append(in_body([0x28, U(b), U(5), U(6)]))
        out.append(in_body([0xFD, U(0x54), U(b), U(5), U(6), 7]))
        out.append(in_body([0x1F, 0x40, vec([[b, U(1), U(2)]]), 0x0B]))
        out.append(in_body([0x02, b, 0x0B]))
        out.append(in_body([0x1C, vec([b])]))
        out.append(in_body([0xD0, b]))
        out.append(in_body([0xFB, U(20), b]))
        out.append(in_body([0xFD, U(21), b]))
    return out


def nestings(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    for i in range(n):
        t = []
        # a string of tokens, roughly balanced
        depth = 0
        for _ in range(r.randrange(1, 16)):
            x = r.random()
            if x < 0.35:
                op = r.choice(CTL)
                t.append([op, 0x40 if r.random() < 0.8 else g.blocktype(), vec([g.catch() for _ in range(r.randrange(2))]) if op == 0x1F else []])
                depth += 1
            elif x < 0.5 and depth:
                t.append(0x05)
            elif x < 0.75 and depth:
                t.append(0x0B)
                depth -= 1
            else:
                t.append(r.choice(NEAR_INS))
        t += [0x0B] * (depth + r.choice([0, 0, 0, 1, -1]) if depth else 0)
        k = r.randrange(5)
        if k < 3:
            out.append(in_body(t))
        elif k == 3:
            out.append(ser([PRE, section(6, vec([[0x7F, 0, t, 0x0B], [0x7E, 1, 0x42, 5, 0x0B]]))]))
        else:
            out.append(ser([PRE, section(3, vec([U(0), U(0)])), section(10, vec([Sized([0, t, 0x0B]), Sized([0, 0x41, 7, 0x0B])]))]))
    for d in (1, 2, 10, 50, 100, 127, 128, 129, 255, 256, 257):
        for op in CTL:
            o = [op, 0x40] + ([0] if op == 0x1F else [])
            out.append(in_body([o * d, [0x0B] * d]))
            out.append(in_body([o * d, [0x0B] * (d - 1)]))
            out.append(in_body([o * d, [0x0B] * (d + 1)]))
            out.append(in_body([o * d, [0x05, 0x0B] * d]))
    return out


def one_section(seed, n, ids):
    g = Gen(seed, 3)
    r = g.r
    out = []
    for i in range(n):
        b = ser(g.module(p=0, only=[r.choice(ids)], customs=0), (lambda: r.choice([0, 0, 1])) if r.random() < 0.1 else None)
        out.append(g.mutate(b) if i % 2 else b)
    return out


BASE_ITEMS = {
    2: [[name(b"m"), name(b"n"), 0, U(3)], [name(b"m"), name(b"n"), 1, 0x70, 1, U(1), U(2)], [name(b""), name(b""), 2, 0, U(9)],
        [name(b"a"), name(b"b"), 3, 0x7F, 1], [name(b"a"), name(b"b"), 4, 0, U(7)], [name(b"m"), name(b"n"), 1, 0x63, Leb("s33", 3), 5, U(1), U(2)]],
    4: [[0x70, 0, U(1)], [0x40, 0, 0x6F, 1, U(1), U(2), 0xD0, 0x6F, 0x0B], [0x64, Leb("s33", 2), 4, U(1)]],
    5: [[0, U(1)], [1, U(1), U(2)], [4, U(300)], [5, U(0), U(70000)]],
    6: [[0x7F, 0, 0x41, 5, 0x0B], [0x64, 0x70, 1, 0xD2, U(1), 0x0B], [0x7B, 1, 0x0B]],
    7: [[name(b"x"), 0, U(1)], [name(b""), 4, U(200)]],
    9: [[U(0), 0x41, 1, 0x0B, vec([U(2), U(3)])], [U(1), 0, vec([U(2)])], [U(2), U(4), 0x41, 1, 0x0B, 0, vec([U(5)])], [U(3), 0, vec([U(1)])],
        [U(4), 0x41, 1, 0x0B, vec([[0xD2, U(1), 0x0B]])], [U(5), 0x70, vec([[0xD2, U(1), 0x0B]])],
        [U(6), U(4), 0x41, 1, 0x0B, 0x64, 0x6F, vec([[0xD0, 0x6F, 0x0B]])], [U(7), 0x63, Leb("s33", 4), vec([[0xD0, 4, 0x0B], [0x0B]])]],
    11: [[U(0), 0x41, 1, 0x0B, name(b"\1\2")], [U(1), name(b"\xff\0")], [U(2), U(3), 0x23, 0, 0x0B, name(b"q")]],
    13: [[0, U(5)], [0, U(300)]],
}


def item_bytes(ids):
    """Every byte value at every place of a small item of each form."""
    out = []
    for i in ids:
        for it in BASE_ITEMS[i]:
            body = ser(it)
            for k in range(len(body)):
                for b in range(256):
                    c = bytearray(body)
                    c[k] = b
                    out.append(ser([PRE, section(i, [U(1), bytes(c)])]))
    return out


def utf8ish(r):
    x = r.random()
    if x < 0.4:
        cps = [0, 1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000,
               0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0x200D, 0xFEFF, 0x1F600]
        return "".join(chr(r.choice(cps)) for _ in range(r.randrange(0, 6))).encode()
    if x < 0.7:   # ill-formed in one of the known ways
        bad = [b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x80\x80\x80", b"\xf0\x8f\xbf\xbf",
               b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xf8\x88\x80\x80\x80",
               b"\xed\xa0\xbd\xed\xb8\x80", b"\xc3\x28", b"\xe2\x28\xa1", b"\xf0\x28\x8c\xbc"]
        pre = r.choice([b"", b"a", "é".encode(), b"\0"])
        return pre + r.choice(bad) + r.choice([b"", b"a", b"\x80", "é".encode()])
    if x < 0.9:
        return bytes(r.choice([r.randrange(256), r.randrange(0xC0, 0xF8), r.randrange(0x80, 0xC0)]) for _ in range(r.randrange(1, 7)))
    return ("é" * r.randrange(50, 140)).encode() + r.choice([b"", b"\xc3"])


def names_at(lengths=(1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 127, 128)):
    """Names of many lengths with something unusual at each place."""
    out = []
    odd = [b"\x80", b"\xff", b"\xc3\xa9", b"\xed\xa0\x80", b"\0", b"\xc3"]
    for n in lengths:
        for i in range(n) if n <= 33 else sorted({0, 1, n // 2, n - 9, n - 8, n - 7, n - 2, n - 1}):
            for j, z in enumerate(odd):
                if n > 12 and (i + j + n) % 3:
                    continue
                t = b"a" * i + z + b"a" * max(0, n - i - len(z))
                w = (i + j) % 4
                out.append(ser([PRE, section(7, vec([[name(t), 0, 0]]))]) if w == 0 else ser([PRE, section(0, [name(t), b"1"])]) if w == 1
                           else ser([PRE, section(2, vec([[name(t), name(b"q"), 0, 0]]))]) if w == 2 else ser([PRE, section(2, vec([[name(b""), name(t), 0, 0]]))]))
    return out


def buffers(sizes=(16383, 16384, 16385, 65535, 65536, 65537)):
    """Contents and names around the sizes of larger buffers."""
    r = random.Random(7)
    out = []
    for n in sizes:
        b = bytes(r.randrange(256) for _ in range(n))
        t = "\u00e9" .encode() * (n // 2) + b"a" * (n % 2)
        out += [ser([PRE, section(11, vec([[U(1), name(b)], [U(1), name(b"end")]]))]), ser([PRE, section(0, [name(b"n"), b])]), ser([PRE, section(7, vec([[name(t), 0, 0]]))]),
                ser([PRE, section(11, vec([[U(1), name(b)], [U(1), name(b"end")]]))])[:-6]]
    return out


SMALL_SECTION = {0: [1, 0x78, 9], 1: [1, 0x60, 0, 0], 2: [1, 0, 0, 0, 0], 3: [0], 4: [1, 0x70, 0, 1], 5: [1, 0, 1], 6: [1, 0x7F, 0, 0x0B], 7: [1, 1, 0x61, 0, 0], 8: [5],
                 9: [1, 1, 0, 0], 10: [0], 11: [1, 1, 0], 12: [1], 13: [1, 0, 7]}


def section_triples():
    """Three sections of any kinds, customs between; complete modules with two
    exchanged or one repeated; every section id."""
    sec = lambda i: section(i, SMALL_SECTION[i])
    out = [ser([PRE, sec(a), sec(b), sec(c)]) for a in range(14) for b in range(14) for c in range(14)]
    out += [ser([PRE, sec(a), sec(0), sec(0), sec(b)]) for a in range(1, 14) for b in range(1, 14)]
    out += [ser([PRE, sec(0), sec(a), sec(0), sec(b), sec(0), sec(c)]) for a, b, c in ((6, 13, 5), (13, 5, 6), (9, 12, 10), (12, 9, 10), (10, 12, 11), (1, 2, 1), (3, 10, 3), (11, 10, 11))]
    order = Gen.ORDER
    for i in range(13):
        for j in range(13):
            o = list(order)
            if i < j:
                o[i], o[j] = o[j], o[i]
            else:
                o.insert(j, order[i])      # i = j: twice in a row
            out.append(ser([PRE] + [sec(k) for k in o]))
            out.append(ser([PRE] + [[sec(k), sec(0)] for k in o]))
    out += [ser([PRE] + [sec(k) for k in order]), ser([PRE] + [[sec(0), sec(k)] for k in order] + [sec(0)])]
    for i in range(256):
        out += [ser([PRE, i, 0]), ser([PRE, i, 1, 0]), ser([PRE, sec(1), i, 2, 0, 0]), ser([PRE, i])]
    return out


def data_nests():
    """Each use of a data index at each place of each pair of structured
    instructions, with and without a data count."""
    wraps = [lambda u: [0x02, 0x40, u, 0x0B], lambda u: [0x03, 0x40, u, 0x0B], lambda u: [0x04, 0x40, u, 0x0B], lambda u: [0x04, 0x40, u, 0x05, 0x0B],
             lambda u: [0x04, 0x40, 0x05, u, 0x0B], lambda u: [0x04, 0x40, 0x01, 0x05, 0x01, u, 0x0B], lambda u: [0x1F, 0x40, 0, u, 0x0B],
             lambda u: [0x1F, 0x40, 1, 2, 0, u, 0x0B], lambda u: [0x02, 0x40, 0x0B, u], lambda u: [u, 0x02, 0x40, 0x0B], lambda u: [u, 0x04, 0x40, 0x05, 0x0B],
             lambda u: [0x04, 0x40, 0x05, 0x02, 0x40, 0x0B, 0x0B, u]]
    out = []
    for n, u in enumerate(DATA_INS + NEAR_INS[:4]):
        for i, a in enumerate(wraps + [None]):
            for j, b in enumerate(wraps + [None]):
                ins = u if a is None else a(u)
                ins = ins if b is None else b(ins)
                for k, t in enumerate(([], [section(12, U(1))])):
                    if k and (i + j) % 5:
                        continue
                    before = (i + j + n) % 3
                    after = (i + j + n) % 2
                    bodies = [Sized([0, 0x01, 0x0B])] * before + [Sized([0, ins, 0x0B])] + [Sized([0, 0x0B])] * after
                    out.append(ser([PRE, section(3, vec([0] * len(bodies))), t, section(10, vec(bodies)), [section(11, vec([[1, 0]]))] if k else []]))
    return out


def names(seed, n):
    r = random.Random(seed)
    out = []
    for _ in range(n):
        s = utf8ish(r)
        k = r.randrange(4)
        d = Leb("u32", max(0, len(s) + (r.choice([-1, 1, 5]) if r.random() < 0.12 else 0)))
        nm = [d, s]
        ok = name(b"ok")
        t = {0: section(2, [U(2), nm, ok, 0, U(1), ok, ok, 2, 0, U(1)]), 1: section(2, [U(1), ok, nm, 3, 0x7F, 0]),
             2: section(7, [U(2), ok, 0, U(1), nm, 1, U(2)]), 3: section(0, [nm, r.choice([b"", b"\xff\x00", b"abc"])])}[k]
        out.append(ser([PRE, t]))
    return out


def data_contents(seed, n):
    r = random.Random(seed)
    out = [ser([PRE, section(11, vec([[U(1), name(bytes(range(256)))]]))])]
    for i in range(n):
        k = r.choice([1, 127, 128, 129, 255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 8192, 8193])
        b = bytes(r.randrange(256) for _ in range(k)) if i % 3 else bytes([r.choice([0, 0x0B, 0x80, 0xFF])]) * k
        mode = r.choice([[U(1)], [U(0), 0x41, 5, 0x0B], [U(2), U(r.choice(INTEREST_U32)), 0x23, U(1), 0x0B]])
        t = [mode, name(b)]
        b2 = [U(1), name(b"end")]
        x = ser([PRE, section(11, vec([t, b2]))])
        out.append(x)
        out.append(x[: len(x) - r.randrange(1, 6)])
        out.append(ser([PRE, section(11, [U(1), mode, U(len(b) + 1), b])]))
    return out


def locals_(seed, n):
    g = Gen(seed, 3)
    r = g.r
    out = []
    for _ in range(n):
        nf = r.choice([1, 1, 2, 3])
        runs = lambda: vec([[U(r.choice([0, 0, 1, 1, 2, 3, 127, 128, 300])), g.valtype() if r.random() < 0.7 else r.choice([0x7F, 0x7E])]
                            for _ in range(r.randrange(0, 6))])
        b = ser([PRE, section(3, vec([U(0)] * nf)), section(10, vec([Sized([runs(), [1] * r.randrange(2), 0x0B]) for _ in range(nf)]))])
        out.append(g.mutate(b) if r.random() < 0.3 else b)
    return out


def split_total(r, total):
    k = r.randrange(1, 6)
    parts = []
    for _ in range(k):
        c = min(total, r.choice([0, 1, 2**16, 2**31 - 1, 2**31, 2**32 - 1, r.randrange(2**32)]))
        parts.append(c)
        total -= c
    while total > 0:
        parts.append(min(total, 2**32 - 1))
        total -= parts[-1]
    r.shuffle(parts)
    return parts


def locals_bound(seed, n):
    """Totals around 2^32-1 over several functions; the last entry is always
    malformed, so that no accepted module has to be expanded."""
    r = random.Random(seed)
    out = []
    T = [2**32 - 1, 2**32 - 2, 2**32, 2**32 + 1, 2**33, 2**31, 2**34, 3, 0]
    for i in range(n):
        entries = [split_total(r, r.choice(T if r.random() < 0.4 else T[:2])) for _ in range(r.randrange(1, 4))]
        es = [Sized([vec([[U(c), r.choice([0x7F, 0x7E, 0x70, 0x7B])] for c in e]), 0x0B]) for e in entries]
        last = Sized([0, 0xFF, 0x0B]) if r.random() < 0.8 else Sized([0, 0x41], 0)
        out.append(ser([PRE, section(3, vec([U(0)] * (len(es) + 1))), section(10, vec(es + [last]))]))
    return out


def constants(seed, n):
    g = Gen(seed, 1)
    r = g.r
    out = []
    for i in range(n):
        k = i % 4
        ins = [[0x43, g.f32()], [0x44, g.f64()], [0xFD, U(12), g.blob(16)], [0xFD, U(13), g.blob(16)]][k]
        w = r.randrange(4)
        if w == 0: out.append(in_body([ins, 0x1A]))
        elif w == 1: out.append(in_body(nest_in(r, ins, r.randrange(1, 4))))
        elif w == 2: out.append(ser([PRE, section(6, vec([[r.choice([0x7D, 0x7C, 0x7B]), 0, ins, 0x0B]] * r.randrange(1, 3)))]))
        else: out.append(ser([PRE, section(9, vec([[U(5), 0x70, vec([[ins, 0x0B]])]]))]))
    return out


def vectors(seed, n):
    """Counts off by a little, the elements as before."""
    g = Gen(seed, 3)
    r = g.r
    out = []
    while len(out) < n:
        t = g.module(p=0.4, only=r.choice([None, [1], [1], [2], [4], [5], [6], [7], [9], [9], [13], [3, 10], [3, 10], [3, 10], [11]]), customs=0)
        refs = walk(t, lambda u: isinstance(u, list) and len(u) == 2 and isinstance(u[0], Leb) and u[0].kind == "u32"
                    and ((isinstance(u[1], list) and u[0].val == len(u[1])) or (isinstance(u[1], bytes) and u[0].val == len(u[1]))))
        if not refs:
            continue
        if r.random() < 0.75:
            v = get(r.choice(refs))
            x = r.random()
            if x < 0.45:
                v[0] = U(max(0, v[0].val + r.choice([-1, 1, 2])))
            elif x < 0.65 and isinstance(v[1], list) and v[1]:
                del v[1][r.randrange(len(v[1]))]
            elif x < 0.85 and isinstance(v[1], list) and v[1]:
                v[1].insert(r.randrange(len(v[1])), r.choice(v[1]))
            elif isinstance(v[1], list) and v[1] and r.random() < 0.8:   # really longer
                k = r.choice([5, 64, 127, 128, 130])
                v[1] = [v[1][j % len(v[1])] for j in range(k)]
                v[0] = U(k)
            else:
                v[0] = U(r.choice([127, 128, 2**14, 2**31, 2**32 - 1]))
        out.append(ser(t))
    return out


# ------------------------------------------------ C16, C17: quantities

HUGE = [2**32 - 1, 2**32 - 2, 2**31, 2**31 - 1, 2**30, 2**28, 2**24, 2**20, 2**16]


def huge_counts(seed, n):
    """A count or length says much more than is there; the enclosing sizes
    say so too, or fit what is there; the input ends soon or goes on."""
    g = Gen(seed, 2)
    r = g.r
    out = []
    while len(out) < n:
        t = g.module(p=0.5, only=r.choice([None, [1], [1], [2], [4], [5], [6], [7], [9], [9], [13], [3, 10], [3, 10], [11], [12]]), customs=0.2)
        refs = walk(t, lambda u: isinstance(u, list) and len(u) == 2 and isinstance(u[0], Leb) and u[0].kind == "u32"
                    and ((isinstance(u[1], list) and u[0].val == len(u[1])) or (isinstance(u[1], bytes) and u[0].val == len(u[1]))))
        szs = walk(t, lambda u: isinstance(u, Sized))
        if not refs or not szs:
            continue
        c = r.choice(HUGE)
        if r.random() < 0.8:
            v = get(r.choice(refs))
            v[0] = U(c)
        if r.random() < 0.8:
            # the sizes around it claim as much
            for q in szs:
                s = get(q)
                if r.random() < 0.8:
                    s.delta = min(2**32 - 2**16, c + r.choice([0, 0, 100]))
        b = ser(t)
        out.append(b[: r.randrange(9, len(b) + 1)] if r.random() < 0.3 and len(b) > 9 else b)
    return out


def every_huge_length():
    """Each place that announces a length, with each huge length and hardly
    any content, all enclosing sizes being as large as they can."""
    M = U(2**32 - 1)
    sec = lambda i, *body: ser([PRE, i, M, *body])
    code = lambda *ins: ser([PRE, section(3, vec([U(0)])), 10, M, 1, M, 0, *ins])
    out = []
    for c in HUGE:
        L = lambda: U(c)
        for tail in (b"", b"\0", b"\0" * 40, b"\x7f" * 40, b"\x0b" * 3):
            for i in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13):
                out.append(sec(i, L(), tail) if i != 10 else ser([PRE, section(3, vec([U(0)])), 10, M, L(), tail]))
            out += [sec(0, L(), tail), sec(0, name(b"x"), tail),
                    sec(1, 1, 0x4E, L(), tail), sec(1, 1, 0x50, L(), tail), sec(1, 1, 0x5F, L(), tail), sec(1, 1, 0x60, L(), tail), sec(1, 1, 0x60, 0, L(), tail),
                    sec(2, 1, L(), tail), sec(2, 1, 0, L(), tail), sec(7, 1, L(), tail),
                    sec(9, 1, 1, 0, L(), tail), sec(9, 1, 0, 0x0B, L(), tail), sec(9, 1, 5, 0x70, L(), tail), sec(9, 1, 4, 0x0B, L(), tail),
                    sec(11, 1, 1, L(), tail), sec(11, 1, 0, 0x0B, L(), tail), sec(11, 1, 2, 0, 0x0B, L(), tail),
                    code(0x0E, L(), tail), code(0x1C, L(), tail), code(0x1F, 0x40, L(), tail),
                    ser([PRE, section(3, vec([U(0)])), 10, M, 1, M, L(), tail]),
                    ser([PRE, section(3, vec([U(0)])), 10, M, 1, L(), tail])]
            out += [ser([PRE, i, U(c), tail]) for i in range(14)]
    return sorted(set(out))


def bulk(k):
    """Well-formed modules in which one thing occurs k times."""
    sec = lambda i, item: ser([PRE, section(i, vec([item] * k))])
    body = lambda ins: in_body(ins)
    out = [sec(1, b"\x60\0\0"), sec(1, b"\x5f\0"), sec(1, b"\x4e\0"), sec(1, b"\x50\0\x60\0\0"), sec(1, b"\x5e\x7f\0"),
           sec(2, b"\0\0\0\0"), sec(4, b"\x70\0\0"), sec(4, b"\x40\0\x70\0\0\x0b"), sec(5, b"\0\0"), sec(6, b"\x7f\0\x0b"), sec(7, b"\0\0\0"),
           sec(9, b"\1\0\0"), sec(9, b"\5\x70\0"), sec(9, b"\5\x70\1\x0b"), sec(11, b"\1\0"), sec(11, b"\0\x0b\0"), sec(13, b"\0\0"),
           ser([PRE, section(3, vec([0] * k)), section(10, vec([b"\2\0\x0b"] * k))]),
           ser([PRE, section(9, vec([[1, 0, vec([0] * k)]]))]), ser([PRE, section(9, vec([[5, 0x70, vec([0x0B] * k)]]))]),
           ser([PRE, section(1, vec([[0x60, vec([0x7F] * k), vec([0x7E] * k)]]))]),
           ser([PRE, section(1, vec([[0x5F, vec([b"\x78\1"] * k)]]))]), ser([PRE, section(1, vec([[0x4E, vec([b"\x5f\0"] * k)]]))]),
           ser([PRE, section(1, vec([[0x50, vec([0] * k), b"\x5f\0"]]))]),
           ser([PRE, section(11, vec([[1, name(b"\xa5" * k)]]))]), ser([PRE, section(7, vec([[name(b"a" * k), 0, 0]]))]),
           ser([PRE, section(0, [name(b"a" * k), b"b" * k])]), ser([PRE] + [section(0, [0])] * k),
           body(b"\1" * k), body(b"\x41\0" * k), body(b"\x41\xff\xff\xff\xff\7" * k), body(b"\x02\x40\x0b" * k), body(b"\x04\x40\x05\x0b" * k),
           body(b"\x1f\x40\0\x0b" * k), body(b"\x0e\0\0" * k), body([0x0E, vec([0] * k), 0]), body([0x1C, vec([0x7F] * k)]), body(b"\x1c\0" * k),
           body([0x1F, 0x40, vec([b"\2\0"] * k), 0x0B]), body(b"\xfd\x0c" + b"\7" * 16 * 1), body((b"\xfd\x0c" + b"\7" * 16) * k),
           body(b"\x28\0\0" * k), body(b"\xfb\x18\0\0\x6e\x6e" * k),
           ser([PRE, section(3, vec([0])), section(10, vec([Sized([vec([b"\1\x7f", b"\1\x7e"] * (k // 2)), 0x0B])]))]),
           ser([PRE, section(3, vec([0])), section(10, vec([Sized([vec([b"\0\x7f"] * k), 0x0B])]))])]
    return out


def bulk_distinct(k):
    """As bulk, with elements that all differ."""
    nm = lambda j: name(b"%06d" % j)
    return [ser([PRE, section(7, vec([[nm(j), 0, U(j)] for j in range(k)]))]), ser([PRE, section(2, vec([[nm(j), nm(k - j), 0, U(j)] for j in range(k)]))]),
            ser([PRE, section(2, vec([[name(b"env"), nm(j), 0, U(j)] for j in range(k)]))]), ser([PRE] + [section(0, [nm(j), b"%d" % j]) for j in range(k)]),
            ser([PRE, section(1, vec([[0x60, 0, vec([[0x63, Leb("s33", j)]])] for j in range(k)]))]), ser([PRE, section(1, vec([[0x5F, vec([[0x64, Leb("s33", j), j % 2] for j in range(k)])]]))]),
            ser([PRE, section(11, vec([[U(1), name(b"%d" % j)] for j in range(k)]))]), ser([PRE, section(9, vec([[1, 0, vec([U(j)])] for j in range(k)]))]),
            ser([PRE, section(9, vec([[1, 0, vec([U(j) for j in range(k)])]]))]), ser([PRE, section(6, vec([[0x7F, 0, 0x41, Leb("i32", j), 0x0B] for j in range(k)]))]),
            ser([PRE, section(3, vec([U(j) for j in range(k)])), section(10, vec([Sized([0, 0x41, Leb("i32", j), 0x0B]) for j in range(k)]))]),
            in_body([[0x10, U(j)] for j in range(k)]), in_body([0x0E, vec([U(j) for j in range(k)]), 0]), in_body([[0xFC, U(8), U(j), U(0)] for j in range(k)]),
            in_body([0x1F, 0x40, vec([[0, U(j), U(0)] for j in range(k)]), 0x0B]), in_body([[0x02, Leb("s33", j), 0x0B] for j in range(k)]),
            ser([PRE, section(1, vec([[0x50, vec([U(j) for j in range(k)]), b"\x5f\0"]]))])]


def deep(seed, depth):
    """Structured instructions nested to a depth, in every mixture."""
    r = random.Random(seed)
    outs = []
    kinds = [(b"\x02\x40", b"\x0b"), (b"\x03\x40", b"\x0b"), (b"\x04\x40", b"\x0b"), (b"\x04\x40\x05", b"\x0b"), (b"\x04\x40", b"\x05\x0b"),
             (b"\x1f\x40\0", b"\x0b"), (b"\x1f\x40\2\0\0\0\2\0", b"\x0b"), (b"\x02\x7f", b"\x0b")]
    for k in range(len(kinds) + 2):
        ks = [kinds[k] if k < len(kinds) else r.choice(kinds) for _ in range(depth)]
        pre, post = b"".join(a for a, _ in ks), b"".join(z for _, z in reversed(ks))
        outs += [in_body(pre + post), in_body(pre + b"\x01" + post), in_body(pre), in_body(pre + b"\xff" + post), in_body(pre + b"\x05" + post),
                 ser([PRE, section(6, vec([[0x7F, 0, pre + post, 0x0B]]))]), ser([PRE, section(9, vec([[5, 0x70, vec([[pre, post, 0x0B]])]]))]),
                 in_body(pre + post)[:-2]]
    return outs


def big_damaged(seed, n):
    """Long inputs with one fault somewhere, or cut somewhere."""
    r = random.Random(seed)
    base = [b for b in bulk(6000)]
    out = []
    for _ in range(n):
        b = bytearray(r.choice(base))
        k = r.randrange(4)
        if k == 0: b = b[: r.randrange(len(b))]
        elif k == 1: b[r.randrange(8, len(b))] = r.randrange(256)
        elif k == 2: b[r.randrange(len(b) // 2, len(b))] ^= 1 << r.randrange(8)
        else: del b[r.randrange(8, len(b))]
        out.append(bytes(b))
    return out


def many_elements(seed, n):
    """Vectors of many elements with a fault in a late one, inside others."""
    g = Gen(seed, 2)
    r = g.r
    out = []
    for _ in range(n):
        k = r.choice([12, 100, 130, 300, 300, 700])
        at = r.choice([r.randrange(k), k - 1, min(k - 1, r.choice([127, 128, 255, 256, 257, 511, 512]))])
        bad = lambda good, evil: vec([evil if j == at else good for j in range(k)])
        w = r.randrange(9)
        lead = r.randrange(4)
        if w == 0: s = section(1, vec([b"\x5f\0"] * lead + [[0x60, bad(0x7F, r.choice([0x50, 0x20, 0x6F ^ 0x60])), 0]]))
        elif w == 1: s = section(1, vec([b"\x5f\0"] * lead + [[0x4E, bad(b"\x5f\0", b"\x55")]]))
        elif w == 2: s = section(1, vec([b"\x5f\0"] * lead + [[0x5F, bad(b"\x7f\0", b"\x7f\2")]]))
        elif w == 3: s = section(1, vec([b"\x5f\0"] * lead + [[0x50, bad(0, b"\xff\xff\xff\xff\xff\x01"), 0x5F, 0]]))
        elif w == 4: s = section(9, vec([b"\1\0\0"] * lead + [[1, 0, bad(0, b"\xff\xff\xff\xff\x1f")]]))
        elif w == 5: s = section(9, vec([b"\1\0\0"] * lead + [[5, 0x70, bad(0x0B, b"\xff\x0b")]]))
        elif w == 6: s = [section(3, vec([0] * (lead + 1))), section(10, vec([b"\2\0\x0b"] * lead + [Sized([0, 0x0E, bad(0, b"\xff\xff\xff\xff\x1f"), 0, 0x0B])]))]
        elif w == 7: s = [section(3, vec([0] * (lead + 1))), section(10, vec([b"\2\0\x0b"] * lead + [Sized([bad(b"\1\x7f", b"\1\x50"), 0x0B])]))]
        else: s = [section(3, vec([0] * (lead + 1))), section(10, vec([b"\2\0\x0b"] * lead + [Sized([0, 0x1F, 0x40, bad(b"\0\0\0", b"\4\0"), 0x0B, 0x0B])]))]
        out.append(ser([PRE, s]))
    return out


# ------------------------------------------------------------ C24, C25

def custom_pair(r, g):
    """Name and content of a custom section, often like something else."""
    nm = r.choice([b"", r.choice(CUSTOM_NAMES), b"name", "\u20ac".encode(), g.nm()[1] if isinstance(g.nm()[1], bytes) else b"n", b"x" * r.choice([127, 128])])
    d = r.choice([b"", b"\0", PRE, b"\1\4\1\x60\0\0", b"\x0a\4\1\2\0\x0b", b"\x0b\1\0", bytes([r.randrange(256) for _ in range(r.randrange(12))]), b"\xff" * 9, b"\0\1\0",
                  b"\0asm", bytes(range(64)), b"z" * r.choice([31, 32, 33, 120, 130]), bytes(r.randrange(1, 9)), b"\0\4\3abc\0\0", b"ab" + bytes(r.randrange(1, 9))])
    return nm, d


def with_customs(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    while len(out) < n:
        t = [PRE] + [s for _, s in g.sections(r.choice([0.15, 0.4, 0.8]), r.choice([None, None, [3, 10], [11, 12], [10, 3, 12, 11]]))]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            t.insert(r.randrange(1, len(t) + 1), g.custom())
        k = r.randrange(6)
        parts = [ser(s) for s in t]
        # offsets of the boundaries, while they still are boundaries
        ends = [sum(len(p) for p in parts[: i + 1]) for i in range(len(parts))]
        x = b"".join(parts)
        bad = len(x)
        if k == 0:      # another fault, later than where customs go in
            j = r.randrange(len(parts))
            p = bytearray(parts[j])
            if j and p:
                p[r.randrange(len(p))] = r.randrange(256)
                parts[j] = bytes(p)
                bad = ends[j - 1]
        elif k == 1 and len(parts) > 1:
            j = r.randrange(1, len(parts))
            parts.append(parts[j])
            bad = ends[-1]
        elif k == 2 and len(parts) > 2:
            i, j = sorted(r.sample(range(1, len(parts)), 2))
            parts[i], parts[j] = parts[j], parts[i]
            bad = ends[i - 1]
        elif k == 3:
            cut = r.randrange(8, len(x) + 1)
            x2 = x[:cut]
            parts = [x2]
            bad = max([e for e in ends if e <= cut], default=8)
        x = b"".join(parts)
        spots = [e for e in ends if e <= bad and e <= len(x)]
        ats = sorted(r.choice(spots) for _ in range(r.choice([1, 1, 2, 3])))
        ins, y, last = [], b"", 0
        for a in ats:
            nm, d = custom_pair(r, g)
            body = ser([name(nm), d])
            ins.append({"at": a, "name": list(nm), "data": list(d), "size": len(body)})
            y += x[last:a] + ser(section(0, body))
            last = a
        out.append((x, y + x[last:], ins))
    return out


def customs_alone(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    for _ in range(n):
        t = [PRE]
        for _ in range(r.randrange(1, 4)):
            nm, d = custom_pair(r, g)
            s = Sized([name(nm), d], r.choice([0, 0, 0, 0, 0, -1, 1, 2]), r.choice([0, 0, 1, 4]))
            if r.random() < 0.15:
                s.body = r.choice([[], [5, b"ab"], [2, b"\xc3\x28"], [3, b"\xe2\x82"], [b"\x81\0", b"a"], [b"\x80"], [b"\xff\xff\xff\xff\x0f", b"abc"]])
            t.append([0, s])
            if r.random() < 0.3:
                t.append(section(1, vec([])) if len(t) == 2 else b"")
        out.append(ser(t))
    return out


def recoded(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    while len(out) < n:
        t = g.module(p=r.choice([0.3, 0.5]), only=r.choice([None, None, [1], [2], [4], [6], [9], [13], [3, 10], [3, 10], [11]]), customs=0.1)
        p = r.choice([0.05, 0.3, 1.0])
        x = ser(t)
        y = ser(t, lambda: r.randrange(1, 10) if r.random() < p else 0)
        if r.random() < 0.15:    # a fault that does not depend on it
            tail = r.choice([b"\x0f", b"\1", b"\0\1\1", b"\x63\0"])
            x, y = x + tail, y + tail
        if x != y:
            out.append((x, y, []))
    return out


def recoded_singly(seed, n):
    g = Gen(seed, 2)
    r = g.r
    out = []
    for _ in range(n):
        t = g.module(p=0.3, customs=0.05)
        x = ser(t)
        if len(x) > 300:
            continue
        for u in [get(q) for q in walk(t, lambda u: isinstance(u, (Leb, Sized)))]:
            kind = "u32" if isinstance(u, Sized) else u.kind
            for pad in (range(1, MAXB[kind]) if r.random() < 0.3 else [r.randrange(1, MAXB[kind])]):
                u.pad = pad
                y = ser(t)
                u.pad = 0
                if y != x:
                    out.append((x, y, []))
    return out


def templates(r, g):
    """One small module for each place in which an integer can stand."""
    out = [[PRE, section(i, vec([it]))] for i in BASE_ITEMS for it in BASE_ITEMS[i]]
    body = lambda ins: [PRE, section(3, vec([U(0)])), section(10, vec([Sized([vec([[U(1), 0x7F], [U(2), 0x63, Leb("s33", 3)]]), ins, 0x0B])]))]
    L = lambda v: Leb("s33", v)
    out += [[PRE, section(1, vec([[0x4E, vec([[0x50, vec([U(1), U(2)]), 0x5F, vec([[0x63, L(4), 1], [0x78, 0]])], [0x4F, vec([U(3)]), 0x5E, 0x64, L(5), 1]])]]))],
            [PRE, section(1, vec([[0x60, vec([0x7F, [0x63, L(64)]]), vec([[0x64, L(200)]])]]))],
            [PRE, section(8, U(7))], [PRE, section(12, U(1)), section(11, vec([[U(1), name(b"a")]]))], [PRE, section(0, [name(b"nm"), b"abc"])],
            [PRE, section(3, vec([U(300), U(2)])), section(10, vec([Sized([0, 0x0B]), Sized([vec([[U(0), 0x7E]]), 0x01, 0x0B])]))]]
    for op in CTL:
        out.append(body([op, L(64), vec([[r.randrange(4), U(1), U(2)][: 3]]) if op == 0x1F else [], [0x01], 0x0B]))
        out.append(body([op, 0x40, vec([[2, U(64)]]) if op == 0x1F else [], [0x02, L(5), 0x0B], 0x0B]))
    for op in sorted(MAIN_SHAPE):
        if MAIN_SHAPE[op]:
            out.append(body([op, g.imm(MAIN_SHAPE[op]), 0x1A]))
    out.append(body([0xD0, L(64), 0xD0, 0x70]))
    out.append(body([0x1C, vec([0x7F, [0x63, L(64)]])]))
    for tab, pre in ((FB_SHAPE, 0xFB), (FC_SHAPE, 0xFC), (FD_SHAPE, 0xFD)):
        for shape in sorted(set(tab.values())):
            for op in r.sample([o for o in tab if tab[o] == shape], min(4, sum(tab[o] == shape for o in tab))):
                out.append(body([pre, U(op), g.imm(shape), 0x1A]))
    return out


POOL = {"u32": INTEREST_U32, "u64": INTEREST_U64, "i32": INTEREST_I32, "i64": INTEREST_I64,
        "s33": [0, 1, 63, 64, 65, 127, 128, 129, 8191, 8192, 2**16, 2**20, 2**27, 2**31, 2**32 - 1]}    # a negative one is not a number but a type


def recoded_each(seed, rounds=1):
    """Each integer of each template, with several values, valid there or not,
    encoded in two ways."""
    g = Gen(seed, 2)
    r = g.r
    out = []
    for _ in range(rounds):
        for t in templates(r, g):
            for u in [get(q) for q in walk(t, lambda u: isinstance(u, Leb))]:
                old, mx = u.val, MAXB[u.kind]
                vals = [old, 64, r.randrange(0, 16), r.randrange(0, 16), r.choice(POOL[u.kind]), r.choice(POOL[u.kind])]
                if old == 64: vals += [63, 65, 128, 8192]
                for v in dict.fromkeys(vals):
                    u.val = v
                    u.pad = 0
                    x = ser(t)
                    for pad in {1, mx, r.randrange(1, mx + 1)}:
                        u.pad = pad
                        y = ser(t)
                        if y != x:
                            out.append((x, y, []))
                u.val, u.pad = old, 0
    return out


# ------------------------------------------------------------ C26

def histories():
    """Inputs that stop, or fail, in the middle of something."""
    b2 = lambda *ins: in_body(list(ins))
    out = []
    for op in CTL:
        o = [op, 0x40] + ([0] if op == 0x1F else [])
        whole = b2(o, o, 1, 0x0B, 0x0B)
        out += [whole[:-4], b2(o, o, 0xFF), b2(o, 0x05, 0x05), whole[: len(whole) - 2]]
    out += [ser([PRE, section(1, vec([[0x4E, vec([[0x60, vec([0x7F, 0x20]), 0]])]]))]), ser([PRE, section(2, vec([[name(b"a"), name(b"\xff"), 0, 0]]))]),
            ser([PRE, section(7, vec([[name(b"abc"), 9, 0]]))]), ser([PRE, section(0, [name(b"x"), b"yz"]), 99]), ser([PRE, section(0, [name(b"x")])])[:-1],
            ser([PRE, section(6, vec([[0x7F, 0, 0x41]]))]), ser([PRE, section(9, vec([[5, 0x70, vec([[0xD2]])]]))]), ser([PRE, section(11, vec([[0, 0x41, 0, 0x0B, 9]]))]),
            ser([PRE, section(12, U(1)), section(10, vec([]))]), ser([PRE, section(3, vec([0, 0])), section(10, vec([b"\x04\1\1\x7f"]))]), b"", PRE[:5], PRE, PRE + b"\1",
            ser([PRE, section(3, vec([0])), section(10, vec([Sized([vec([[U(2**32 - 1), 0x7F]]), 0xFF])]))]), ser([PRE, section(3, vec([0])), section(10, vec([Sized([0, 0xFC, 9, 0, 0x0B])]))]),
            ser([PRE, 5, U(2**31), 1])]
    return out


def near(seed, n):
    """(a, b): two inputs that differ in one bit, or one byte, or a swap."""
    g = Gen(seed, 2)
    r = g.r
    out = []
    while len(out) < n:
        a = ser(g.module(p=0.3, customs=0.2))
        if not 20 < len(a) < 150:
            continue
        spots = range(8, len(a))
        for i in spots:
            for k in r.sample(range(8), 2):
                b = bytearray(a)
                b[i] ^= 1 << k
                out.append((a, bytes(b)))
        for _ in range(8):
            i, j = r.choice(spots), r.choice(spots)
            b = bytearray(a)
            b[i], b[j] = b[j], b[i]
            out.append((a, bytes(b)))
    # the same name, nearly, in each place that has one
    for s in (b"abc", b"env", b"memory", "\u00e9\u00e8".encode(), b"\0\0"):
        for i in range(len(s)):
            for k in range(8):
                t = bytearray(s)
                t[i] ^= 1 << k
                for w in range(3):
                    m = lambda z: ser([PRE, section(7, vec([[name(z), 0, 0]]))]) if w == 0 else ser([PRE, section(0, [name(z), b"1"])]) if w == 1 \
                        else ser([PRE, section(2, vec([[name(z), name(b"q"), 0, 0]]))])
                    out.append((m(s), m(bytes(t))))
    return out
