"""Route/method definitions (discern stacks): acceptance, evaluation, bail."""
import random
import m_topic as T
TECHNIQUE = "runtime monitoring: reference stack machine against parsed and executed definitions, hostile definitions, ASan/UBSan/LSan"
NOTE = ("Definitions of up to some 80 operations, up to 3 definitions in a row; the outcome per message is the sequence of applied "
        "destinations and whether processing bailed. End-to-end routing between instances is observed by a smaller number of daemon runs.")


def hx(b):
    return b.hex() or "-"


OPS = {"AND": 2, "OR": 2, "NOT": 1, "APPLY": 2, "POP": 1, "BAIL": 1}


def step(st, op, arg):
    """type check one operation; None = invalid"""
    if op in ("T", "H", "TRUE", "FALSE"):
        st.append("b")
    elif op in ("D", "I"):
        st.append("d")
    else:
        if len(st) < OPS[op]:
            return None
        if op in ("AND", "OR"):
            if st[-1] != "b" or st[-2] != "b":
                return None
            st.pop()
        elif op == "NOT":
            if st[-1] != "b":
                return None
        elif op == "APPLY":
            if st[-1] != "d" or st[-2] != "b":
                return None
            st.pop()
        elif op == "POP":
            st.pop()
        elif op == "BAIL":
            if st[-1] != "b":
                return None
            st.pop()
    return None if len(st) >= 64 else st


TAGS = [b"a", b"ab", b"axb", b"ayb", b"b", b"a1", b"tag", b"A", b"long_tag_name_x", b"long_tag_name_y"]
DESTS = ["x", "y", "inst-1", "inst_2", "X"]


def gen(rng, topic, bad):
    """-> (operations, valid)"""
    ops, st = [], []
    deep = rng.random() < 0.05
    while True:
        c = ["T", "H", "TRUE", "FALSE"] * (1 if len(st) < (66 if deep else 4) else 0)
        if deep and len(st) < 66:
            c = c * 6
        nb = len(st)
        if nb and st[-1] == "b":
            c += ["D", "D", "D", "NOT", "POP", "BAIL"]
            if nb > 1 and st[-2] == "b":
                c += ["AND", "OR"] * 2
        if nb and st[-1] == "d":
            c = ["APPLY"] * 8 + ["POP"]
        if not nb:
            c += ["D"] if rng.random() < 0.05 else []
        if bad and rng.random() < 0.15:
            c = list(OPS) + ["D"]
        if len(ops) > 60 and not deep and nb:
            c = ["POP"]
        op = rng.choice(c)
        arg = None
        if op == "T":
            while arg is None or not T.filter_ok(arg) or not arg or arg[:1] in (b" ", b"#") and False or arg.strip() != arg:
                arg = T.rand_filter(rng, topic)
        elif op == "H":
            arg = rng.choice(TAGS)
        elif op == "D":
            arg = rng.choice(DESTS).encode()
            op = rng.choice(["D", "D", "D", "I"])
        ops.append((op, arg))
        st = step(st, op, arg)
        if st is None:
            return ops, False
        if not st:
            return ops, True
        if bad and rng.random() < 0.03:
            return ops, False  # ends too early


def text(rng, ops):
    s = b""
    def noise():
        return b"".join(rng.choice([b"# a comment POP\n", b"\t", b"\n", b"", b"", b"  "]) for _ in range(2))
    for op, arg in ops:
        s += noise() + op.encode()
        if arg is not None:
            s += rng.choice([b" ", b"\t", b"  "]) + arg + (rng.choice([b"\n", b"\t", b"\r\n"]) if op == "T" else rng.choice([b"\n", b" ", b"\t"]))
            end = None
        else:
            end = len(s)
            s += rng.choice([b"\n", b" ", b"\t\n"])
    return s, end


def run(progs, cls, topic, tags):
    out = []
    for ops in progs:
        st = []
        for op, arg in ops:
            if op == "T":
                st.append(bool(topic) and T.match(arg, topic))
            elif op == "H":
                st.append(cls == "a" and arg in tags)
            elif op in ("TRUE", "FALSE"):
                st.append(op == "TRUE")
            elif op in ("D", "I"):
                st.append(arg.decode())
            elif op == "AND":
                b = st.pop()
                st[-1] = st[-1] and b
            elif op == "OR":
                b = st.pop()
                st[-1] = st[-1] or b
            elif op == "NOT":
                st[-1] = not st[-1]
            elif op == "APPLY":
                d = st.pop()
                out.append(("+" if st[-1] else "-") + d)
            elif op == "POP":
                st.pop()
            elif op == "BAIL":
                if st.pop():
                    return out + ["bail"]
    return out + ["end"]


def check(ctx):
    ctx.rule = ("one evaluation = one to three definitions parsed and run twice on one message; distinct = distinct definitions; "
                "the applied destinations, the bail outcome, the parser's end position and refusals are compared")
    rng = random.Random(ctx.seed * 65537)
    cmds, exp = [], []
    for _ in range(ctx.scale(25000, 250000)):
        topic = b"" if rng.random() < 0.1 else T.rand_topic(rng)
        progs, texts, ok, want = [], [], True, ""
        for i in range(rng.choice([1, 1, 2, 3])):
            bad = rng.random() < 0.12
            ops, valid = gen(rng, topic, bad)
            t, end = text(rng, ops)
            if valid and rng.random() < 0.2:
                t += rng.choice([b"POP\n", b"garbage", b"D x APPLY\n"])
            progs.append(ops)
            texts.append(t)
            want += "P%d " % (end + len(ops[-1][0])) if False else ("P%d " % end if valid else "F%d " % i)
            ok &= valid
        cls = rng.choice("daaa")
        tags = [rng.choice(TAGS) for _ in range(rng.choice([0, 1, 2, 4, 6]))]
        if ok:
            n = len(progs)
            want += "names" + "".join(" n%d" % i for i in range(n)) + " dests" + "".join(" n%d:%s" % (i, a.decode()) for i, p in enumerate(progs) for o, a in p if o in ("D", "I"))
            r = run(progs, cls, topic, tags)
            want += (" run " + " ".join(r)) * 2
        cmds.append("D %s %s %s %s %d" % (",".join(map(hx, texts)), cls, hx(topic), ",".join(hx(t) for t in tags + ([b""] if not tags else [])), rng.randrange(2)))
        exp.append(want.strip())
        ctx.distinct(tuple(texts))
        ctx.stat("accepted" if ok else "refused")
        if ok:
            ctx.stat("bailed", int(r[-1] == "bail"))
            ctx.stat("applied", len(r) - 1)
    nmodel = len(cmds)
    # damaged definitions: only memory errors and inconsistent faults count
    for _ in range(ctx.scale(8000, 80000)):
        ops, _v = gen(rng, T.rand_topic(rng), True)
        t, _e = text(rng, ops)
        m = bytearray(t)
        for _ in range(rng.randint(1, 6)):
            k = rng.randrange(len(m) + 1)
            if rng.random() < 0.5:
                m[k:k + rng.randint(0, 4)] = rng.choice([b"#", b"+", b"T ", b"H", b"\xff", b"APPLY", b"BAIL", b"{", b"D\n", b"TRUE"])
            else:
                del m[k:k + rng.randint(1, 10)]
        cmds.append("D %s a 61 61 0" % (bytes(m).replace(b"\0", b"") or b"\n").hex())
        exp.append(None)
    for c, e, g in zip(cmds, exp, ctx.drv("route", cmds)):
        if g is None:
            continue
        ctx.count()
        if e is None:
            ctx.stat("damaged")
            if "INCONSISTENT" in g:
                ctx.violation("fault-code", "%s: %s" % (c[:1000], g), c)
            continue
        if g.strip() != e:
            a = c.split()
            ctx.violation("route" if e.find("F") < 0 else "route-refusal", "definitions:\n%s\nclass %s topic %s tags %s\ngot  %s\nwant %s" % (
                "\n---\n".join(bytes.fromhex(x).decode("utf8", "replace") for x in a[1].split(",")), a[2], a[3], a[4], g, e), c)
    ctx.sample(bytes.fromhex(cmds[0].split()[1].split(",")[0]).decode("utf8", "replace")[:300])
    ctx.sample(exp[0][:200])
    ctx.require("accepted", 5000)
    ctx.require("refused", 500)
    ctx.require("bailed", 500)
