"""MQTT broker ACL files: parsing and access decisions."""
import random
import m_topic as T
TECHNIQUE = "runtime monitoring: reference evaluation of generated rule files against the loaded ones, hostile files, ASan/UBSan/LSan"
NOTE = ("Rule files of up to 8 rules with random layout. Subscriptions with wildcards are judged by the rule the broker documents in its "
        "source (a '#' subscription only matches '#' rules); whether this is safe is recorded as a finding, see DESIGN.md.")


def hx(b):
    return b.hex() or "-"


def cs(rng, w):
    return rng.choice([w, w.lower(), w.capitalize(), "".join(rng.choice([c, c.lower()]) for c in w)])


def rand_file(rng):
    rules, s = [], ""
    sp = lambda: rng.choice([" ", "\t", "  ", " \t"])

    def noise():
        return "".join(rng.choice(["\n", "# comment TOPIC x\n", "  \n", "\t# USER a WRITE\n", "", "", ""]) for _ in range(2))
    users = ["alice", "bob", "Bob", "al", "system_user", "u1"]
    for _ in range(rng.randint(1, 8)):
        f = T.rand_filter(rng)
        while not T.filter_ok(f) or not f or f[:1] == b" ":
            f = T.rand_filter(rng)
        s += noise() + cs(rng, "TOPIC") + sp() + f.decode() + "\n"
        dflt, us = "DENY", []
        order = ["U"] * rng.choice([0, 0, 1, 2, 3]) + ["D"] * rng.choice([0, 1, 1])
        rng.shuffle(order)
        for o in order:
            a = rng.choice(["DENY", "READ", "WRITE"])
            s += noise() + rng.choice(["", "\t", "   "])
            if o == "D":
                s += cs(rng, "DEFAULT") + sp() + cs(rng, a) + rng.choice(["\n", " \n", "\n\n", "\r\n"])
                dflt = a
            else:
                u = rng.choice(users)
                s += cs(rng, "USER") + sp() + u + sp() + cs(rng, a) + rng.choice(["\n", "\t\n", "\n\n"])
                us.append((u, a))
        rules.append((f, dflt, us))
    if rng.random() < 0.3:
        s = s.rstrip("\r\n\t ") if not s.rstrip("\n").endswith(" ") else s
        # a file may end right after a value
        if rules and not s.split("\n")[-1].strip():
            s += "\n"
    return rules, s


BROKEN = ["TOPIC a\nDEFAULT READ\nDEFAULT READ\n", "DEFAULT READ\n", "TOPIC a\nDEFAULT\nREAD\n", "TOPIC a\nUSER READ\n", "TOPIC a\nUSER x READS\n",
          "TOPIC a#\n", "TOPIC a/+b\n", "TOPIC #/a\n", "TOPIC\na\n", "TOPIC a\nUSER x WRITE y\n", "TOPIC a\nUSER x\nWRITE\n", "TOPIC a\nFOO\n", "x\n",
          "TOPIC a\nDEFAULT ALLOW\n", "TOPIC a\nUSER x:y READ\n", "USER x READ\nTOPIC a\n", "TOPIC a\nDEFAULT READ USER x WRITE\n"]


def check(ctx):
    ctx.rule = ("one evaluation = one access decision for a generated rule file, user, operation and topic, or one damaged file; "
                "distinct = distinct (file, question)")
    rng = random.Random(ctx.seed * 4241)
    groups, exps = [], []
    for _ in range(ctx.scale(600, 6000)):
        rules, s = rand_file(rng)
        g, e = ["L " + hx(s.encode())], [("load", "0", s)]
        for _ in range(25):
            r = rng.choice(rules)[0]
            t = b"/".join(rng.choice(T.LEVELS) if l in (b"+", b"#") or rng.random() < 0.1 else l for l in r.split(b"/"))
            if rng.random() < 0.2:
                t += b"/" + rng.choice(T.LEVELS)
            u = rng.choice(["", "alice", "bob", "Bob", "system_user", "u1", "BOB"])
            kind = rng.choice(["pub", "sub"])
            if kind == "sub" and rng.random() < 0.5:
                t = T.rand_filter(rng, t)
            if not t or not (T.filter_ok(t) if kind == "sub" else T.name_ok(t)):
                continue
            g.append("A %s %s %s" % (kind, hx(t), hx(u.encode())))
            e.append((kind, T.acl_decide(rules, kind, t, u), s))
        b = rng.choice(BROKEN)
        pre = rng.choice(["", "TOPIC z\n\tDEFAULT READ\n", "# c\n"]) if b.startswith("TOPIC") else rng.choice(["", "# c\n"])
        g.append("L " + hx((pre + b).encode()))
        e.append(("broken", "1", pre + b))
        g.append("A sub 7a -")
        e.append(("after-broken", "DENY", pre + b))
        # arbitrary damage: only memory errors count
        m = bytearray(s.encode())
        for _ in range(rng.randint(1, 5)):
            k = rng.randrange(len(m))
            if rng.random() < 0.5:
                m[k] = rng.choice(b"#+/ \n\t\0\xffTUD")
            else:
                del m[k:k + rng.randint(1, 20)]
            if not m:
                m = bytearray(b"T")
        g.append("L " + hx(bytes(m)))
        e.append(("damaged", None, ""))
        groups.append(g)
        exps.append(e)
    n = 8
    big, bige = [sum(groups[i::n], []) for i in range(n)], [sum(exps[i::n], []) for i in range(n)]
    for g, e, o in zip(big, bige, ctx.drv("route", big)):
        for c, (kind, want, s), got in zip(g, e, o):
            if got is None:
                continue
            ctx.count()
            ctx.stat(kind)
            ctx.distinct((s, c))
            if want in ("ALLOW", "DENY"):
                ctx.stat(want.lower())
            if want is not None and got != want:
                ctx.violation(kind, "rule file:\n%s\ncommand %s (%s)\ngot %s want %s" % (s, c[:500], [bytes.fromhex(x) for x in c.split()[2:3]], got, want), c)
    # soundness of wildcard subscriptions: two scenarios which are known to fail, listed in known-findings.txt
    fixed = ["L " + hx(b"TOPIC a/b\n DEFAULT READ\n"), "A sub %s -" % hx(b"a/+"), "L " + hx(b"TOPIC #\n DEFAULT READ\nTOPIC secret/x\n DEFAULT DENY\n"), "A sub %s -" % hx(b"#"), "A sub %s -" % hx(b"secret/x")]
    o = ctx.drv("route", [fixed])[0]
    ctx.count(3)
    if o[1] == "ALLOW":
        ctx.violation("acl-wildcard-plus", "with only READ on a/b granted, the subscription a/+ is granted, which also covers a/c", fixed[1])
    if o[3] == "ALLOW":
        ctx.violation("acl-wildcard-hash", "with secret/x denied in the bottom most rule, the subscription # is granted, which covers secret/x", fixed[3])
    if o[4] != "DENY":
        ctx.violation("acl-deny-ignored", "subscription to secret/x granted: %s" % o[4], fixed[4])
    ctx.sample(exps[0][1][2][:300])
    ctx.require("allow", 1000)
    ctx.require("deny", 1000)
