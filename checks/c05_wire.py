"""RRR message wire format: construction, framing over a stream, rejection."""
import os, random, sys
import m_wire as W
TECHNIQUE = "runtime monitoring: independent codec as oracle for every produced and received byte stream, mutated streams, ASan/UBSan"
NOTE = ("Random and mutated streams up to some 100 kB, random chunking over a real socket pair; the reference codec "
        "(vf/m_wire.py) and zlib's CRC are trusted.")


def rb(rng, n):
    return rng.randbytes(n)


def topic(rng):
    r = rng.random()
    if r < 0.2:
        return b""
    if r < 0.3:
        return "".join(chr(rng.choice([0xe5, 0x20ac, 0x1f600, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd7ff, 0xe000])) for _ in range(rng.randint(1, 9))).encode()
    if r < 0.33:
        return bytes(rng.randint(1, 127) for _ in range(rng.choice([255, 256, 4000, 65535])))
    return "/".join(rng.choice(["a", "bb", "topic", "", "$x"]) for _ in range(rng.randint(1, 4))).encode()


def ln(rng):
    r = rng.random()
    return 0 if r < 0.15 else rng.randint(1, 60) if r < 0.8 else rng.choice([255, 256, 257, 1000, 4095, 4096, 4097]) if r < 0.97 else rng.choice([65535, 65536, 70000, 300000])


def some(rng):
    """-> (command or None, wire bytes)"""
    r = rng.random()
    if r < 0.6:
        t, d = topic(rng), rb(rng, ln(rng))
        ty, cl, ts = rng.randint(1, 5), rng.choice([1, 11]), rng.choice([0, 1, 2**64 - 1, rng.getrandbits(64)])
        return "N %d %d %d %s %s %d" % (ty, cl, ts, W.h(t), W.h(d), rng.randrange(4)), W.msg(ty, cl, ts, t, d)
    if r < 0.72:
        fl = 0
        for b in (4, 8, 16, 32, 1 << 12, 1 << 13, 1 << 14, 1 << 15):
            fl |= b if rng.random() < 0.3 else 0
        v = rng.getrandbits(32)
        return "K %d %d" % (fl, v), W.head(b"", fl | 1, v)
    if r < 0.84:
        s = lambda n: bytes(rng.randint(1, 255) for _ in range(n))
        f, p, m = s(rng.choice([0, 5, 126, 127, 128, 200])), s(rng.choice([0, 1, 10])), s(rng.choice([0, 1, 30, 300]) if rng.random() < 0.95 else rng.choice([65534, 65535, 65536, 65600]))
        if rng.random() < 0.03:
            p = s(rng.choice([65533, 65534, 65535, 66000]))
        a = (rng.choice([0, 1, 2**31 - 1, rng.randint(0, 9999)]), rng.randint(0, 255), rng.randint(0, 255), rng.getrandbits(32))
        return "L %s %d %d %d %d %s %s" % (W.h(f), *a, W.h(p), W.h(m)), W.log(f, *a, p, m)
    if r < 0.94:
        p = bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 1, 10, 511, 512])))
        d = rb(rng, rng.choice([0, 1, 20, 511, 512]))
        a = (rng.randint(0, 3), rng.randint(0, 15), rng.getrandbits(32))
        return "T %d %d %d %s %s" % (*a, W.h(p), W.h(d)), W.stats(*a, p, d)
    a, pr = rb(rng, rng.choice([0, 1, 16, 28, 127, 128])), rng.randint(0, 255)
    return "A %d %s" % (pr, W.h(a)), W.addr(pr, a)


def hostile(rng):
    """message with correct checksums which (mostly) has to be rejected"""
    r = rng.randrange(10)
    if r == 0:
        t, d = rb(rng, rng.randint(0, 9)), rb(rng, rng.randint(0, 9))
        return W.msg(rng.randint(0, 15), rng.choice([0, 1, 2, 10, 11, 12, 15]), 5, b"t", d)
    if r == 1:
        t, d = b"a/b", rb(rng, rng.randint(0, 9))
        return W.msg(1, 1, 5, t, d, tl=rng.choice([3 + len(d) + 1, 65535, 3 + len(d), 256, len(d) + 2]))
    if r == 2:
        return W.msg(1, 1, 5, rng.choice([b"\xc0\x80", b"\xed\xa0\x80", b"ab\xff", b"\xf4\x90\x80\x80", b"\xe2\x82", b"a\0b", b"a\0\xff", b"\x80", b"\xc3", b"\xf8\x88\x80\x80\x80", b"\xe0\x9f\xbf"]), b"d")
    if r == 3:
        return W.head(rb(rng, rng.randint(0, 40)), rng.choice([0, 1, 2, 3, 4, 6, 8, 10, 16, 32, 64, 5, 7, 9, 0x41, 0x101, 0x801, 0xffff, rng.getrandbits(16)]), 1)
    if r == 4:
        return W.head(rb(rng, rng.randint(0, 20)), 2, 0, size=rng.choice([0, 1, 17, 18, 19]))
    if r == 5:
        return W.head(rb(rng, rng.choice([0, 1, 11, 12, 13, 28, 130, 136, 137, 138, 139])), rng.choice([2, 6, 8, 16]), 0)
    if r == 6:
        b = bytearray(W.log(b"f", 1, 2, 3, 4, b"pre", b"text")[18:])
        b[135:137] = rng.choice([0, 1, 3, 4, 5, 8, 9, 10, 65535]).to_bytes(2, "big")
        if rng.random() < 0.3:
            b[-1] = 65
        return W.head(bytes(b), 16, 0)
    if r == 7:
        n = rng.choice([0, 1, 5, 512, 513, 514, 600, 1000, 1025])
        p = bytes(rng.randint(1, 255) for _ in range(n - 1)) + b"\0" if n else b""
        return W.head(bytes([rng.choice([0, 1, 2, 3, 4, 255])]) + rng.choice([0, 1, 15, 16, 1 << 31]).to_bytes(4, "big") + rng.choice([n, n, n, n + 1, max(n - 1, 0), 65535]).to_bytes(2, "big")
                      + p + rb(rng, rng.choice([0, 1, 100, 512, 513, 600, 1024])), 6, 9)
    if r == 8:
        return W.head(rb(rng, rng.choice([0, 1, 17, 128, 129, 130, 200])), 8, 0)
    m = W.msg(1, 1, 5, b"t", rb(rng, 5)) if rng.random() < 0.7 else W.log(b"f", 1, 2, 3, 4, b"pre", b"text") if rng.random() < 0.5 else W.addr(1, b"abcd")
    return W.head(m[18:], int.from_bytes(m[8:10], "big"), 0, dcrc=rng.choice([0, 0, 0xffffffff, 1, rng.getrandbits(32)]))


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i = rng.randrange(len(b))
        r = rng.random()
        if r < 0.5:
            b[i] ^= 1 << rng.randrange(8)
        elif r < 0.8:
            b[i] = rng.randrange(256)
        elif r < 0.9 and len(b) > 1:
            del b[i]
        else:
            b.insert(i, rng.randrange(256))
    return bytes(b)


def chunks(rng, n):
    out, left = [], n
    style = rng.randrange(4)
    while left > 0 and len(out) < 400:
        k = {0: lambda: 1, 1: lambda: rng.randint(1, 30), 2: lambda: rng.randint(1, 5000), 3: lambda: left}[style]()
        if len(out) > 350:
            k = left
        out.append(min(k, left))
        left -= out[-1]
    return ",".join(map(str, out)) or "1"


def make(args):
    seed, n = args
    rng = random.Random(seed)
    prod, recv = [], []
    for _ in range(n):
        parts, mutated = [], rng.random()
        for _ in range(rng.randint(1, 6)):
            c, w = some(rng)
            if len(prod) < n * 2:
                prod.append((c, w.hex()))
            parts.append(w)
        if mutated < 0.3:
            parts.insert(rng.randrange(len(parts) + 1), hostile(rng))
        s = b"".join(parts)
        if 0.3 <= mutated < 0.5:
            s = mutate(rng, s)
        if 0.5 <= mutated < 0.6:
            s = s[:rng.randrange(len(s))]
        exp, rej = W.stream(s)
        recv.append(("S %s %d %s" % (W.h(s), rng.randrange(2), chunks(rng, len(s))), exp, rej))
    return prod, recv


def check(ctx):
    from multiprocessing import Pool
    ctx.rule = ("one evaluation = one message built and serialised, or one byte stream received through the socket reader in "
                "random pieces, compared with the reference codec; distinct = distinct streams with at least one accepted or rejected message")
    n = ctx.scale(700, 9000)
    rng = random.Random(ctx.seed * 7919)
    with Pool(8) as pool:
        sets = pool.map(make, [(ctx.seed * 99991 + i, n) for i in range(8)])
    cmds = [[c for c, _ in p] + [c for c, _, _ in r] for p, r in sets]
    out = ctx.drv("wire", cmds, timeout=ctx.scale(240, 800))
    for (p, r), o in zip(sets, out):
        for (c, want), got in zip(p, o):
            if got is None:
                continue
            ctx.count()
            ctx.stat("produced")
            if got != want:
                ctx.violation("produced-differs", "command %s\ngot  %s\nwant %s" % (c[:2000], got[:3000], want[:3000]), c)
        for (c, exp, rej), got in zip(r, o[len(p):]):
            if got is None:
                continue
            ctx.count()
            ctx.distinct(c)
            ctx.stat("streams")
            ctx.stat("delivered", len(exp))
            ctx.stat("rejected", int(rej))
            toks = got.split()
            if toks[:-1] != exp:
                ctx.violation("received-differs", "stream: %s\ngot  %s\nwant %s%s" % (c[:4000], got[:3000], " ".join(exp)[:3000], " then rejection" if rej else ""), c)
            elif rej and toks[-1] != "rc2":
                ctx.violation("not-rejected", "stream: %s\nended with %s" % (c[:4000], toks[-1]), c)
    # UTF-8 validation
    ucmds, uexp = [], []
    for _ in range(ctx.scale(20000, 200000)):
        k = rng.randrange(4)
        b = "".join(chr(rng.choice([rng.randint(0, 127), rng.randint(128, 0x7ff), rng.randint(0x800, 0xd7ff), rng.randint(0xe000, 0x10ffff)])) for _ in range(rng.randint(1, 5))).encode()
        if k == 1:
            b = mutate(rng, b)
        elif k == 2:
            b = bytes(rng.choice([0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0x41, 0, 0xff]) for _ in range(rng.randint(1, 6)))
        ucmds.append("U " + W.h(b))
        uexp.append("0" if W.valid_utf8(b) else "1")
    for c, e, g in zip(ucmds, uexp, ctx.drv("wire", ucmds)):
        ctx.count()
        ctx.stat("utf8")
        if g is not None and g != e:
            ctx.violation("utf8", "%s: got %s want %s" % (c, g, e), c)
    ctx.sample(sets[0][1][0][0][:200])
    ctx.sample(" ".join(sets[0][1][1][1])[:200])
    ctx.require("produced", 1000)
    ctx.require("delivered", 1000)
    ctx.require("rejected", 200)
