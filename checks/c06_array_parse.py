"""Array definitions: parse result against a reference parser; independent of chunking."""
import os, random, sys
import m_array as A
TECHNIQUE = "runtime monitoring: reference-model oracle on every parse of generated definitions/inputs under ASan/UBSan, all prefixes of each input"
NOTE = ("Random definitions and inputs up to a few kB; the reference parser (vf/m_array.py) is trusted; fixed point inputs are "
        "limited to values with exact conversion.")


def work(args):
    seed, n = args
    rng = random.Random(seed)
    res = []
    for _ in range(n):
        tree = A.gen_tree(rng)
        text = A.tree_text(tree, rng)
        bufs = []
        for _ in range(4):
            b = A.gen_data(rng, tree)
            r = rng.random()
            if r < 0.2 and b:
                b = b[:rng.randrange(len(b))]
            elif r < 0.45 and b:
                x = bytearray(b)
                for _ in range(rng.randint(1, 3)):
                    i = rng.randrange(len(x))
                    x[i] = rng.choice([0, 1, 2, 0xff, 0x22, 0x5c, 0x7e, 0x7d, 0x2d, 0x30, rng.randrange(256)])
                b = bytes(x)
            elif r < 0.7:
                b += rng.randbytes(rng.randint(1, 20))
            bufs.append((b, rng.random() < 0.25 and len(b) < 700))
        res.append((tree, text, bufs))
    return res


def streams(args):
    seed, n = args
    rng = random.Random(seed)
    res = []
    for _ in range(n):
        tree = A.gen_tree(rng)
        text = A.tree_text(tree, rng)
        if "msg" in text or "REWIND" in text:
            continue
        res.append(("D " + text.encode().hex(), None))
        for _ in range(2):
            sync = rng.random() < 0.5
            b = b"".join((rng.randbytes(rng.randint(1, 6)) if rng.random() < 0.2 else b"") + A.gen_data(rng, tree) for _ in range(rng.randint(1, 5)))
            want, pos, rej = [], 0, False
            while pos < len(b):
                try:
                    rc, used, els = A.parse(tree, b[pos:])
                except A.Undecided:
                    want = None
                    break
                if rc == 0:
                    if used == 0:
                        rej = True
                        break
                    want.append("[" + "".join(e.dump() + ";" for e in els) + "]")
                    pos += used
                elif rc == 4:
                    break
                elif sync:
                    pos += 1
                else:
                    rej = True
                    break
            if want is None:
                continue
            ch, left = [], len(b)
            one = rng.random() < 0.4
            while left > 0 and len(ch) < 300:
                k = left if len(ch) > 250 else min(left, 1 if one else rng.randint(1, 40))
                ch.append(k)
                left -= k
            res.append(("R %s %d %d %s" % (b.hex() or "-", rng.randrange(2) | sync << 1, rng.choice([1, 7, 64, 4096]), ",".join(map(str, ch)) or "1"), (want, rej)))
    return res


def check(ctx):
    from multiprocessing import Pool
    ctx.rule = ("one evaluation = one parse of one input (or of one prefix of it) by a generated definition, compared value by value "
                "with the reference parser; distinct = distinct (definition, input) pairs that parsed at least one value")
    n = ctx.scale(900, 9000)
    with Pool(8) as pool:
        sets = pool.map(work, [(ctx.seed * 100003 + i, n) for i in range(ctx.scale(8, 24))])
    groups, meta = [], []
    for s in sets:
        g, m = [], []
        for tree, text, bufs in s:
            g.append("D %s%s" % (text.encode().hex(), " c" if len(text) & 1 else ""))
            m.append(("D", tree, text, None))
            for b, allpre in bufs:
                g.append(("F " if allpre else "P ") + (b.hex() or "-"))
                m.append(("F" if allpre else "P", tree, text, b))
        groups.append(g)
        meta.append(m)
    out = ctx.drv("arr", groups)
    for g, m, o in zip(groups, meta, out):
        skip = False
        for c, (k, tree, text, b), r in zip(g, m, o):
            if r is None:
                skip = True
                continue
            if k == "D":
                skip = False
                ctx.stat("definitions")
                if r != "OK":
                    ctx.violation("definition-rejected", "documented definition rejected (%s):\n%s" % (r, text), text)
                    skip = True
                continue
            if skip:
                continue
            try:
                rc, used, els = A.parse(tree, b)
            except A.Undecided:
                ctx.stat("undecided")
                continue
            want = "%d %d" % (rc, used) + ("".join(" " + e.dump() for e in els) if rc == 0 else "")
            if k == "F":
                first, bad, rest = r.split(" ", 2)
                ctx.count(len(b))
                ctx.stat("prefixes", len(b))
                if bad != "-1":
                    ctx.violation("prefix-dependent", "result depends on how much data had arrived (%s bytes vs all):\n%s\ninput %s\n%s" % (bad, text, b.hex(), r[:1500]), c)
                    continue
                r = rest
            ctx.count()
            ctx.stat({0: "parsed", 2: "rejected", 4: "incomplete"}[rc])
            if rc == 0 and els:
                ctx.distinct((text, b))
                ctx.stat("values", len(els))
                ctx.sample("%s <- %s" % (" ".join(text.split()), b[:40].hex()))
            if r != want:
                ctx.violation("parse-differs", "definition:\n%s\ninput: %s\ngot:  %s\nwant: %s" % (text, b.hex(), r[:3000], want[:3000]), c)
    # records received from a stream socket in pieces
    cmds, exp = [], []
    with Pool(8) as pool:
        for s in pool.map(streams, [(ctx.seed * 7907 + i, ctx.scale(150, 2500)) for i in range(8)]):
            cmds.append([c for c, _ in s])
            exp.append([e for _, e in s])
    for o, cs, es in zip(ctx.drv("wire", cmds), cmds, exp):
        for c, e, g in zip(cs, es, o):
            if e is None or g is None:
                continue
            ctx.count()
            want, rej = e
            ctx.stat("stream_records", len(want))
            toks = g.split(" ")[1:]
            if toks[:-1] != want:
                ctx.violation("stream-differs", "records read from a socket: %s\ngot  %s\nwant %s" % (c[:3000], g[:2000], " ".join(want)[:2000]), c)
            elif rej and toks[-1] != "rc2":
                ctx.violation("stream-not-rejected", "%s -> %s" % (c[:3000], toks[-1]), c)
            ctx.distinct(c)
    # overlarge counts taken from the data
    cmds, exp = [], []
    rng = random.Random(ctx.seed + 7)
    for t, ln in [("be", 4), ("be", 8), ("le", 2), ("h", 1), ("blob", 1024), ("blob", 1), ("sep", 64), ("stx", 16), ("be", 3)]:
        for cnt in [0x20000000, 0x40000001, 0x40000000, 0x80000001, 0xffffffff, 0x00400001, 0x04000001, 0x10000001, 0x55555556]:
            text = "be4#n,%s%d@{n};" % (t, ln)
            tree = [("val", dict(type="be", len=4, len_ref=None, sign=False, count=1, count_ref=None, tag="n")),
                    ("val", dict(type=t, len=ln, len_ref=None, sign=False, count=1, count_ref="n", tag=None))]
            b = cnt.to_bytes(4, "big") + rng.randbytes(64)
            cmds += [["D " + text.encode().hex(), "P " + b.hex()]]
            rc, used, els = A.parse(tree, b)
            exp.append((text, b, rc))
    for (text, b, rc), o in zip(exp, ctx.drv("arr", cmds)):
        ctx.count()
        if o[1] is not None and not o[1].startswith("%d " % rc):
            ctx.violation("big-count", "%s input %s: got %s want rc %d" % (text, b.hex(), o[1][:300], rc))
    ctx.require("parsed", 500)
    ctx.require("prefixes", 1000)
    ctx.require("rejected", 50)
    ctx.require("stream_records", 300)
