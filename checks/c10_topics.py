"""MQTT topic names, filters and matching: the three implementations against the reference."""
import random
import m_topic as T
TECHNIQUE = "runtime monitoring: differential oracle over all matching implementations of the library and an independent one, ASan/UBSan"
NOTE = ("Random and exhaustive short topics and filters; topics with NUL bytes are left out. A '$' first in any level is not matched by "
        "wildcards (as the project's tests require; the MQTT specification only says so for the first level).")


def hx(b):
    return b.hex() or "-"


def check(ctx):
    ctx.rule = "one evaluation = one filter/topic pair matched by every implementation, or one name validated; distinct = distinct pairs"
    rng = random.Random(ctx.seed * 31337)
    cmds, exp = [], []
    # all short combinations
    alpha = [b"a", b"", b"$", b"b"]
    import itertools
    names = [b"/".join(x) for n in (1, 2, 3) for x in itertools.product(alpha[:3], repeat=n)]
    filts = [b"/".join(x) for n in (1, 2, 3) for x in itertools.product([b"a", b"", b"+", b"#", b"$"], repeat=n)]
    filts = [f for f in filts if f and T.filter_ok(f)]
    names = [n for n in names if n]
    pairs = [(f, n) for f in filts for n in names]
    for _ in range(ctx.scale(60000, 600000)):
        t = T.rand_topic(rng)
        if not t:
            continue
        f = T.rand_filter(rng, t)
        if T.filter_ok(f) and f:
            pairs.append((f, t))
    for f, t in pairs:
        cmds.append("M %s %s" % (hx(f), hx(t)))
        exp.append(("1" if T.match(f, t) else "0") * 5)
        ctx.distinct((f, t))
    npairs = len(pairs)
    for _ in range(ctx.scale(30000, 200000)):
        r = rng.random()
        b = T.rand_filter(rng) if r < 0.5 else bytes(rng.choice(b"ab/+#$/+#") for _ in range(rng.randint(1, 7)))
        if r > 0.85:
            b = bytearray(b or b"a")
            b.insert(rng.randrange(len(b) + 1), rng.choice([0x80, 0xc3, 0xff, 0xe2, 0xf4, 1, 127]))
            b = bytes(b)
        if rng.random() < 0.002:
            b = b"a/" * rng.choice([32767, 32768, 40000]) + rng.choice([b"a", b"", b"#"])
        if not b:
            continue
        cmds.append("V " + hx(b))
        exp.append("f%d n%d e%d" % (not T.filter_ok(b), not T.name_ok(b), not T.name_ok(b)))
        ctx.distinct(b)
    for i, (c, e, g) in enumerate(zip(cmds, exp, ctx.drv("route", cmds))):
        if g is None:
            continue
        ctx.count()
        if i < npairs:
            ctx.stat("matches" if e[0] == "1" else "mismatches")
        else:
            ctx.stat("invalid_filters" if e[1] == "1" else "valid_filters")
        if g != e:
            ctx.violation("match" if i < npairs else "validate", "%s %s: got %s want %s" % (c[:300], [bytes.fromhex(x) if x != "-" else b"" for x in c.split()[1:]] if len(c) < 300 else "", g, e), c)
    ctx.sample(["%s %s %s" % x for x in (pairs[-1] + (exp[npairs - 1],), pairs[-2] + (exp[npairs - 2],))])
    ctx.require("matches", 5000)
    ctx.require("mismatches", 5000)
    ctx.require("invalid_filters", 1000)
