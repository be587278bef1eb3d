"""Value conversions (mangler recipes) and fixed point numbers against a reference."""
import random, struct
import m_array as A
TECHNIQUE = "runtime monitoring: reference conversions as oracle on generated values and recipes, under ASan/UBSan"
NOTE = "Recipes up to 5 methods; numeric text up to 64 bytes; fixed point input restricted to exactly representable values."

METHODS = ["h2str", "h2vain", "blob2str", "blob2blob", "blob2hex", "str2str", "str2blob", "str2h", "str2vain", "msg2blob", "vain2h", "vain2str", "hchar2str"]
BLOBISH = {"blob", "sep", "msg", "str", "nsep", "stx", "hdlc"}
STRISH = {"str", "sep", "nsep", "stx"}
TRY, SB, SS = 1, 2, 4
NP = object()


def one(m, e, flags):
    """-> El, NP or None (not modelled)"""
    E = lambda ident, fl, cnt, data: A.El(ident, fl, cnt, e.tag, data, 0)
    src, dst = m.split("2")
    if m == "hchar2str":
        src, dst = "h", "str"
    if dst == e.ident:
        return e
    if src == "h" and e.ident != "h" or src == "vain" and e.ident != "vain" or src == "msg" and e.ident != "msg":
        return NP
    if src == "blob" and (e.ident not in BLOBISH or flags & SB and e.ident != "blob"):
        return NP
    if src == "str" and (e.ident not in STRISH or flags & SS and e.ident != "str"):
        return NP
    if src == "h":
        nums = [A.s64(x[0]) if e.flags & 1 else x[0] for x in struct.iter_unpack("<Q", e.data)]
    if m == "h2str":
        if e.count == 1:
            return E("str", 0, 1, b"%d" % nums[0])
        return E("str", 0, e.count, b"".join(b"%20d" % x for x in nums))
    if m == "h2vain":
        return E("vain", 0, 1, b"") if e.count == 1 and nums[0] == 0 else NP
    if m == "hchar2str":
        return E("str", 0, 1, bytes(nums)) if all(0 <= x <= 255 for x in nums) else NP
    if m in ("blob2str", "blob2blob", "str2str", "str2blob", "msg2blob"):
        if e.ident == "msg":
            return None  # host order representation
        if m in ("str2blob", "blob2blob") and not e.data:
            return NP
        return E(dst, e.flags, e.count, e.data)
    if m == "blob2hex":
        return None if e.ident == "msg" else E("str", e.flags, e.count, e.data.hex().encode())
    if m == "str2vain":
        return E("vain", 0, 1, b"") if e.count <= 1 and not e.data else NP
    if m == "vain2h":
        return E("h", 0, 1, bytes(8))
    if m == "vain2str":
        return E("str", 0, 1, b"")
    if m == "str2h":
        if not e.data or any(c not in b"0123456789 +-" for c in e.data):
            return NP
        n = len(e.data) // e.count
        if n > 64:
            return NP
        out = b""
        signed = b"-" in e.data
        for i in range(e.count):
            t = e.data[i * n:(i + 1) * n].lstrip(b" ")
            body = t[1:] if t[:1] in (b"+", b"-") else t
            if not body.isdigit():
                return NP
            v = int(t)
            if signed:
                v = max(min(v, (1 << 63) - 1), -(1 << 63))
            else:
                v = min(v, A.M64)
            out += struct.pack("<Q", v & A.M64)
        return E("h", 1 if signed else 0, e.count, out)
    raise AssertionError(m)


def recipe(ms, e, flags):
    cur, done = e, False
    for m in ms:
        if m == "blob2hex" and cur.ident == "str" and not flags & SB:
            r = one("blob2hex_".rstrip("_"), A.El("blob", cur.flags, cur.count, cur.tag, cur.data, 0), 0)
        else:
            r = one(m, cur, flags)
        if r is None:
            return None
        if r is NP:
            if not flags & TRY:
                return NP
            continue
        cur, done = r, True
    return cur if done else NP


def rnd_value(rng):
    t = rng.choice(["h", "h", "str", "str", "str", "blob", "vain", "sep", "stx", "nsep", "fixp", "hdlc", "msg"])
    cnt = rng.choice([1, 1, 1, 2, 3, 7])
    fl = 0
    if t == "h":
        fl = rng.randrange(2)
        d = b"".join(struct.pack("<Q", rng.choice([0, 1, 65, 255, 256, 1 << 63, A.M64, A.M64 - 5, rng.getrandbits(64), rng.randrange(128)])) for _ in range(cnt))
        if rng.random() < 0.3:
            d = b"".join(struct.pack("<Q", rng.randrange(256)) for _ in range(cnt))
    elif t == "str" and rng.random() < 0.7:
        w = rng.choice([1, 2, 5, 20, 21, 64, 65])
        d = b"".join((rng.choice([b"", b"", b"-", b"+", b"--"]) + str(rng.choice([0, 1, 7, rng.getrandbits(3 * min(w, 25)), rng.getrandbits(64)])).encode())[:w].rjust(w, rng.choice([b" ", b" ", b"0"])) for _ in range(cnt))
        if rng.random() < 0.1:
            d = bytes(rng.choice(b"0 -+a\0") for _ in d)
    elif t == "vain":
        d, cnt = b"", 1
    elif t == "fixp":
        d, cnt = struct.pack("<Q", rng.getrandbits(64)), 1
    elif t == "msg":
        d, cnt = A.mkmsg(b"t", b"abc"), 1
    elif t == "str" and rng.random() < 0.4:
        d, cnt = b"", 1
    else:
        d = rng.randbytes(rng.choice([1, 2, 9, 70]) * cnt)
        if t in ("str", "nsep", "hdlc"):
            fl = 0
    return A.El(t, fl, cnt, rng.choice([None, "a", "tag"]), d, 0)


def fixdec(v):
    """%.10Lf of an exactly represented number (at most 24 binary decimals)"""
    from decimal import Decimal, getcontext, ROUND_HALF_EVEN
    getcontext().prec = 60
    d = Decimal(abs(v)) / Decimal(1 << 24)
    q = d.quantize(Decimal("1e-10"), rounding=ROUND_HALF_EVEN)
    return ("-" if v < 0 else "") + "{:f}".format(q)


def check(ctx):
    import checks.c07_array_msg as C7
    ctx.rule = "one evaluation = one value converted by one recipe, or one fixed point number converted, compared with the reference; distinct = distinct (value, recipe)"
    rng = random.Random(ctx.seed)
    groups, meta = [], []
    for _ in range(ctx.scale(6000, 80000)):
        els = [rnd_value(rng) for _ in range(rng.randint(1, 5))]
        g = ["A2 " + C7.pack(els).hex()]
        m = [(els, None)]
        for _ in range(rng.randint(1, 5)):
            ms = [rng.choice(METHODS) for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
            flags = rng.choice([TRY, TRY, TRY | SB | SS, TRY | SB, TRY | SS, 0])
            g.append("V %d %s" % (flags, ",".join(ms)))
            m.append((els, (ms, flags)))
        groups.append(g)
        meta.append(m)
    k = 32
    bg = [sum(groups[i::k], []) for i in range(k)]
    bm = [sum(meta[i::k], []) for i in range(k)]
    for g, m, o in zip(bg, bm, ctx.drv("arr", bg)):
        lost = False
        for c, (els, info), r in zip(g, m, o):
            if info is None:
                lost = r is None or not r.startswith("0 ")
                if r is not None and lost:
                    ctx.violation("load", "%s -> %s" % (c[:500], r[:300]), c)
                continue
            if r is None:
                lost = True
            if lost:
                continue
            got = r[1:].split(" ")
            if len(got) != len(els):
                ctx.violation("conversion", "%s: %s" % (c, r[:1000]), c)
                continue
            for e, gv in zip(els, got):
                ctx.count()
                w = recipe(*[info[0], e, info[1]])
                if w is None:
                    continue
                ws = "NP" if w is NP else w.dump()
                ctx.stat("not_possible" if w is NP else "converted")
                ctx.distinct((c, e.dump()))
                if w is not NP:
                    ctx.sample("%s by %s -> %s" % (e.dump()[:80], ",".join(info[0]), ws[:80]))
                if ws != gv:
                    ctx.violation("conversion", "value %s by %s\ngot  %s\nwant %s" % (e.dump()[:600], c, gv[:600], ws[:600]), c)
    cmds, want = [], []
    for _ in range(ctx.scale(20000, 400000)):
        s = A.gen_fixp(rng).encode()
        tail = rng.choice([b"", b",", b" 1", b"x", b"-"])
        try:
            e = A.parse_value(dict(type="fixp", len=0, len_ref=None, sign=False, count=1, count_ref=None, tag=None), [], s + b",", 0)
        except A.Fail:
            continue
        v = A.s64(struct.unpack("<Q", e.data)[0])
        h = "%016x" % (v & A.M64)
        cmds.append("X " + (s + tail).hex())
        want.append("0 %d %d %s 16#%s.%s %d" % (v, e.used, fixdec(v), h[:10], h[10:], v))
    for c, w, r in zip(cmds, want, ctx.drv("arr", cmds)):
        if r is None:
            continue
        ctx.count()
        ctx.stat("fixp")
        ctx.distinct(c)
        if r != w:
            ctx.violation("fixp", "%r\ngot  %s\nwant %s (status value consumed decimal hex back)" % (bytes.fromhex(c[2:]), r, w), c)
    ctx.require("converted", 2000)
    ctx.require("not_possible", 500)
    ctx.require("fixp", 2000)
