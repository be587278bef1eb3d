"""Condition expressions: value against a reference evaluator; malformed expressions are rejected or evaluated, never crash."""
import random
import m_array as A
TECHNIQUE = "runtime monitoring: reference evaluator as oracle on generated expressions and variable values, under ASan/UBSan"
NOTE = "Expressions up to depth 5; both sides of && and || are evaluated (as in the program); reference evaluator trusted."


def check(ctx):
    ctx.rule = "one evaluation = one expression evaluated and compared; distinct = distinct (expression, values) yielding a value"
    rng = random.Random(ctx.seed)
    cmds, exp = [], []
    for i in range(ctx.scale(30000, 500000)):
        env, names = {}, rng.sample(A.NAMES, rng.randint(0, 5))
        for n in names:
            sg = rng.random() < 0.4
            v = rng.choice([0, 0, 1, 2, 3, 5, 10, 63, 64, 65, 255, 1 << 31, 1 << 32, (1 << 63) - 1, rng.getrandbits(62), rng.getrandbits(7)])
            if sg and rng.random() < 0.5:
                v = -v - (1 if v == (1 << 63) - 1 and rng.random() < .5 else 0)
            elif not sg and rng.random() < 0.2:
                v = rng.choice([1 << 63, A.M64, rng.getrandbits(64)])
            env[n] = (v & A.M64, sg)
        t = A.cond_gen(rng, names + (["undef"] if rng.random() < 0.05 else []), rng.choice([0, 1, 2, 3, 3, 4, 5]))
        text = "(" + A.cond_text(t, rng) + ")"
        vals = " ".join("%s=%d=%d" % (n, v, s) for n, (v, s) in env.items())
        if rng.random() < 0.15:
            x = bytearray(text.encode())
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(len(x) + 1)
                r = rng.random()
                if r < .4 and k < len(x):
                    del x[k]
                elif r < .7:
                    x[k:k] = rng.choice([b"(", b")", b"&", b"|", b"<", b">", b"=", b"!", b"~", b"{", b"}", b"-", b"+", b"*", b"\0", b"AND", b"{a}", b"0x", b"9" * 30, b" "])
                elif k < len(x):
                    x[k] = rng.randrange(256)
            cmds.append("C %s %s" % (bytes(x).hex() or "-", vals))
            bal, closed = 0, not x
            for c in bytes(x):
                bal += (c == 40) - (c == 41)
                closed |= bal <= 0
            exp.append(None if closed else "ERR")
            continue
        cmds.append("C %s %s" % (text.encode().hex(), vals))
        try:
            exp.append(str(A.cond_eval(t, env.get)[0]))
        except A.CondErr:
            exp.append("EVALERR")
    for c, e, r in zip(cmds, exp, ctx.drv("arr", cmds)):
        if r is None:
            continue
        ctx.count()
        if e is None:
            ctx.stat("malformed_" + ("rejected" if r == "ERR" else "accepted"))
        elif e == "ERR":
            ctx.stat("unbalanced")
            if r != "ERR":
                ctx.violation("unbalanced-accepted", "expression %r gave %s" % (bytes.fromhex(c.split(" ")[1]), r), c)
        else:
            ctx.stat("errors" if e == "EVALERR" else "values")
            if e != "EVALERR":
                ctx.distinct(c)
                ctx.sample("%r -> %s" % (bytes.fromhex(c.split(" ")[1]).decode(), e))
            if r != e:
                ctx.violation("value", "expression %r with %s\ngot  %s\nwant %s" % (bytes.fromhex(c.split(" ")[1]).decode(), c.split(" ")[2:], r, e), c)
    ctx.require("values", 5000)
    ctx.require("errors", 50)
    ctx.require("malformed_rejected", 100)
