"""Array values: stored in a message and read back unchanged, exact wire format, accessors, export, hostile payloads."""
import random, struct
import m_array as A
TECHNIQUE = "runtime monitoring: independent packer/unpacker and accessor model as oracle on generated arrays and mutated payloads, under ASan/UBSan"
NOTE = "Arrays of up to about 12 values and a few kB; the reference packer in vf/m_array.py is trusted."

TID = dict(le=2, be=3, h=4, blob=5, ustr=6, istr=7, sep=8, msg=9, fixp=10, str=11, nsep=12, stx=13, err=14, vain=15, hdlc=16)
TAGS = ["a", "ab", "b", "x", "len", "æ", "T" * 60]


def rnd_array(rng):
    ops, els = [], []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 12])):
        t = rng.choice(["vain", "u", "i", "fixp", "str", "str", "strj", "strz", "blob"])
        tag = rng.choice(TAGS) if rng.random() < 0.75 else None
        tt = tag or "-"
        if t == "vain":
            ops.append("vain:%s" % tt)
            els.append(A.El("vain", 0, 1, tag, b"", 0))
        elif t in ("u", "i", "fixp"):
            v = rng.choice([0, 1, 255, (1 << 63) - 1, rng.getrandbits(63), rng.getrandbits(10)])
            if t == "u" and rng.random() < 0.3:
                v = rng.choice([1 << 63, A.M64, rng.getrandbits(64)])
            if t != "u" and rng.random() < 0.4:
                v = -v - rng.randrange(2)
            ops.append("%s:%s:%d" % (t, tt, v))
            els.append(A.El("fixp" if t == "fixp" else "h", 1 if t == "i" else 0, 1, tag, struct.pack("<Q", v & A.M64), 0))
        else:
            n = rng.choice([0, 1, 2, 7, 8, 9, 30, 255, 256, 700])
            b = bytes(rng.choice(b'ab"\\ 19,\n\xff\0') for _ in range(n))
            if t == "strz":
                b = b.replace(b"\0", b"z")
            if t == "blob" and not b:
                b = b"\0"
            ops.append("%s:%s:%s" % (t, tt, b.hex() or "-"))
            els.append(A.El("blob" if t == "blob" else "str", 1 if t == "strj" else 0, 1, tag, b, 0))
    return ops, els


def pack(els, version=7):
    out = b""
    for e in els:
        t = e.tag.encode() if e.tag else b""
        d = e.data
        if e.ident in ("h", "fixp"):
            d = b"".join(struct.pack(">Q", x[0]) for x in struct.iter_unpack("<Q", e.data))
        out += struct.pack(">BBIII", TID["be"] if e.ident == "h" else TID[e.ident], e.flags, len(t), len(d), e.count) + t + d
    return out


def find(els, tag):
    for e in els:
        if e.tag == tag:
            return e
    return None


def hx(s):
    b = s if isinstance(s, bytes) else s.encode()
    return b.hex() or "-"


def want_get(els, tag, idx):
    e = find(els, tag)
    u = i = ull = "-"
    if e is None:
        return "- - - ERR"
    if e.ident == "h" and idx < e.count:
        raw = struct.unpack_from("<Q", e.data, 8 * idx)[0]
        sv = A.s64(raw)
        if e.flags & 1:
            i = str(sv)
            u = str(raw) if sv >= 0 else "-"
        else:
            u = str(raw)
            i = str(raw) if raw < 1 << 63 else "-"
    if e.ident == "h":
        ull = str(struct.unpack_from("<Q", e.data)[0])
        s = ",".join(str(A.s64(x[0]) if e.flags & 1 else x[0]) for x in struct.iter_unpack("<Q", e.data)).encode()
    elif e.ident == "fixp":
        v = A.s64(struct.unpack("<Q", e.data)[0])
        ull = str(abs(v) >> 24) if v >= 0 else "?"
        s = None
    elif e.ident == "vain":
        ull, s = "0", b""
    else:
        d = e.data[:len(e.data) // e.count][:255] if e.data else b""
        p = 0
        t = d.split(b"\0")[0]
        t2 = t.lstrip(b" \t\n\v\f\r")
        neg = t2[:1] == b"-"
        t3 = t2[1:] if t2[:1] in (b"-", b"+") else t2
        while p < len(t3) and 48 <= t3[p] <= 57:
            p += 1
        v = int(t3[:p] or b"0")
        ull = str(min(v, A.M64)) if v > A.M64 else str(-v & A.M64 if neg else v)
        if e.ident == "msg":
            ull = "?"  # starts with fields in host order, no meaning as text
        s = None if e.ident == "msg" else e.data.hex().encode() if e.ident in ("blob", "hdlc") else e.data.split(b"\0")[0]
    return "%s %s %s %s" % (u, i, ull, "?" if s is None else (s.hex() or "-"))


def same(want, got):
    w, g = want.split(" "), got.split(" ")
    return len(w) == len(g) and all(a == "?" and b not in ("ERR",) or a == b for a, b in zip(w, g))


def m_cmd(rng, els):
    tags = sorted({e.tag for e in els if e.tag}) + ["nosuch"]
    pick = rng.sample(tags, rng.randint(0, min(3, len(tags))))
    topic = rng.choice([b"", b"t", b"a/b/c", b"x" * 300])
    ts = rng.choice([0, 1, 1 << 60, rng.getrandbits(64)])
    return "M %s %d%s" % (hx(topic), ts, "".join(" " + hx(t) for t in pick)), (topic, ts, pick)


def check_m(ctx, els, cmd, info, r):
    topic, ts, pick = info
    packable = all(not (e.ident in ("blob", "sep", "stx", "nsep", "hdlc", "msg") and not e.data) for e in els)
    if not packable:
        return
    f = r.split(" ")
    if f[:2] != ["SAME", "HDR"]:
        return ctx.violation("roundtrip", "array changed by storing it in a message: %s -> %s\narray %s" % (cmd, r[:1500], " ".join(e.dump() for e in els)), cmd)
    sel = [e for e in els if not pick or e.tag in pick]
    found = len(sel)
    ctx.stat("roundtrips")
    if any(e.ident == "fixp" for e in sel):
        if f[2] == "0":
            ctx.violation("fixp-export", "%s -> %s" % (cmd, r[:300]), cmd)
    else:
        ex = b"".join(e.export() for e in sel)
        if f[2] != "0" or (f[4] if f[4] != "-" else "") != ex.hex() or int(f[3]) != found:
            ctx.violation("export", "exported bytes differ: %s -> %s\nwant found %d %s" % (cmd, r[:1500], found, ex.hex()), cmd)
        ctx.stat("exports")
    want = A.mkmsg(topic, pack(els), ts, 1, 11)
    if f[5] != want.hex():
        ctx.violation("packed-format", "message differs: %s\ngot  %s\nwant %s" % (cmd, f[5][:2000], want.hex()[:2000]), cmd)
    if int(f[6]) != len(els):
        ctx.violation("iterate", "%s iterated %s of %d values" % (cmd, f[6], len(els)), cmd)
    look = r.split(" |")[1:]
    for t, l in zip(pick, look):
        e = find(els, t)
        if l[:2] != ("11" if e else "00"):
            ctx.violation("has-tag", "%s: tag %s: %s" % (cmd, t, l[:100]), cmd)
        elif "DIFFER" in l or (e and l.split(" ", 1)[1] != e.dump()):
            ctx.violation("value-by-tag", "%s: tag %s got %s want %s" % (cmd, t, l[:600], e.dump()), cmd)


def mutate(rng, b):
    x = bytearray(b)
    for _ in range(rng.randint(1, 4)):
        if not x:
            break
        i = rng.randrange(len(x))
        r = rng.random()
        if r < 0.3:
            x[i] = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 15, 16, 17, 0x7f, 0x80, 0xff])
        elif r < 0.5:
            x[i] = rng.randrange(256)
        elif r < 0.7:
            x[i:i + 4] = struct.pack(">I", rng.choice([0, 1, 2, 7, 8, 9, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0]))
        elif r < 0.85:
            del x[i:i + rng.randint(1, 9)]
        else:
            x[i:i] = rng.randbytes(rng.randint(1, 9))
    return bytes(x)


def check(ctx):
    ctx.rule = ("one evaluation = one array stored in a message and read back, one accessor call, array operation or hostile payload "
                "compared with the model; distinct = distinct arrays/payloads")
    rng = random.Random(ctx.seed)
    groups, metas = [], []
    for _ in range(ctx.scale(2500, 40000)):
        g, m = [], []
        if rng.random() < 0.6:
            ops, els = rnd_array(rng)
            g.append("B " + " ".join(ops))
            m.append(("B", els, None))
        else:
            tree = [("val", A.gen_value(rng, [])) for _ in range(rng.randint(1, 6))]
            g.append("D " + A.tree_text(tree, rng).encode().hex())
            m.append(("D", None, None))
            b = A.gen_data(rng, tree)
            rc, used, els = A.parse(tree, b)
            if rc:
                continue
            g.append("P " + hx(b))
            m.append(("P", els, None))
        for _ in range(2):
            c, info = m_cmd(rng, els)
            g.append(c)
            m.append(("M", els, info))
        for _ in range(3):
            t = rng.choice(TAGS + A.NAMES)
            e = find(els, t)
            idx = rng.choice([0, 0, 1, 2, (e.count - 1) if e else 0, (e.count if e else 0), 0xffffffff])
            g.append("G %s %d" % (hx(t), idx))
            m.append(("G", els, (t, idx)))
        cur = list(els)
        for _ in range(rng.randint(0, 3)):
            o = rng.choice(["trim", "rotf", "rotr", "clr", "strip", "dup"])
            pre = ""
            if o == "trim":
                k = rng.randint(0, len(cur))
                o = "trim:%d" % k
                cur = cur[:k]
            elif o == "dup":
                cur = cur + cur
            elif o == "rotf":
                cur = cur[-1:] + cur[:-1]
            elif o == "rotr":
                cur = cur[1:] + cur[:1]
            elif o == "clr":
                t = rng.choice(TAGS + A.NAMES)
                o = "clr:" + t
                pre = "%d " % sum(e.tag == t for e in cur)
                cur = [e for e in cur if e.tag != t]
            elif o == "strip":
                k = rng.choice(["h", "str", "blob", "vain"])
                o = "strip:%d" % TID[k]
                cur = [e for e in cur if e.ident != k]
            g.append("O " + o)
            m.append(("O", list(cur), pre))
        if cur:
            c, info = m_cmd(rng, cur)
            g.append(c)
            m.append(("M", list(cur), info))
        # hostile payloads
        p = pack(els)
        if els:
            g.append("A " + hx(p))
            m.append(("A", els, "same"))
        for _ in range(4):
            g.append("A " + hx(mutate(rng, p)))
            m.append(("A", None, None))
        groups.append(g)
        metas.append(m)
    big = 64
    bg = [sum(groups[i::big], []) for i in range(big)]
    bm = [sum(metas[i::big], []) for i in range(big)]
    for g, m, o in zip(bg, bm, ctx.drv("arr", bg)):
        lost = False
        for c, (k, els, info), r in zip(g, m, o):
            if r is None:
                lost = True
            if k in "BD":
                lost = r is None
            if lost:
                continue
            ctx.count()
            dump = lambda: "".join(" " + e.dump() for e in els)
            if k == "B":
                ctx.distinct(c)
                ctx.sample(c[:200])
                if r != dump():
                    ctx.violation("build", "%s\ngot  %s\nwant %s" % (c, r[:1500], dump()[:1500]), c)
            elif k == "M":
                check_m(ctx, els, c, info, r)
            elif k == "G":
                w = want_get(els, *info)
                ctx.stat("accesses")
                if not same(w, r):
                    ctx.violation("access", "tag %r index %d of %s\ngot  %s\nwant %s (unsigned, signed, converted, string)" % (info[0], info[1], dump()[:1500], r[:600], w[:600]), c)
            elif k == "O":
                w = "%s%d%s" % (info, len(els), dump())
                ctx.stat("operations")
                if r != w:
                    ctx.violation("operation", "%s\ngot  %s\nwant %s" % (c, r[:1500], w[:1500]), c)
            elif k == "A":
                ctx.distinct(c)
                ctx.stat("payload_" + ("accepted" if r.startswith("0 ") else "rejected"))
                if r.startswith("0 ") and "UNSTABLE" in r:
                    ctx.violation("unstable", "accepted payload changes when stored again: %s -> %s" % (c[:2000], r), c)
                if info == "same" and all(e.ident != "msg" for e in els) and not r.startswith("0 %d" % len(els)) and all(e.data or e.ident in ("str", "vain") for e in els):
                    ctx.violation("own-payload-rejected", "%s -> %s" % (c[:2000], r), c)
    ctx.require("roundtrips", 500)
    ctx.require("accesses", 500)
    ctx.require("payload_rejected", 100)
    ctx.require("payload_accepted", 100)
