"""Reference semantics of MQTT topics/filters and ACL rules (OASIS spec and rrr.conf(5))."""


def valid_utf8(b):
    try:
        b.decode("utf8")
        return True
    except UnicodeDecodeError:
        return False


def filter_ok(b):
    if len(b) > 65535 or not valid_utf8(b):
        return False
    lv = b.split(b"/")
    for i, l in enumerate(lv):
        if b"#" in l and (l != b"#" or i != len(lv) - 1):
            return False
        if b"+" in l and l != b"+":
            return False
    return True


def name_ok(b):
    return len(b) > 0 and valid_utf8(b) and b"#" not in b and b"+" not in b


def match(f, t):
    if not f or not t:
        return False
    fl, tl = f.split(b"/"), t.split(b"/")
    for i, x in enumerate(fl):
        if i >= len(tl):
            return False
        if x in (b"#", b"+"):
            if tl[i][:1] == b"$":
                return False
            if x == b"#":
                return True
        elif x != tl[i]:
            return False
    return len(fl) == len(tl)


def acl_covers(rule, sub):
    """rule of an ACL file vs a subscription filter"""
    if not rule or not sub:
        return False
    rl, sl = rule.split(b"/"), sub.split(b"/")
    for i, x in enumerate(rl):
        if i >= len(sl):
            return False
        if x == b"#":
            return True
        if sl[i] == b"#":
            return False
        if x == b"+" or sl[i] == b"+":
            if x[:1] == b"$":
                return False
        elif x != sl[i]:
            return False
    return len(rl) == len(sl)


def acl_decide(rules, kind, topic, user):
    """rules: [(filter, default action, [(user, action)])]; kind pub|sub"""
    res = False
    for f, dflt, users in rules:
        if not (acl_covers(f, topic) if kind == "sub" else match(f, topic)):
            continue
        act = dflt
        if user:
            for u, a in users:
                if u == user:
                    act = a
        res = act == "WRITE" or (kind == "sub" and act == "READ")
    return "ALLOW" if res else "DENY"


LEVELS = [b"a", b"b", b"aa", b"", b"$SYS", b"$", b"c d", "\u00e5".encode(), b"ab", b"0"]


def rand_topic(rng, n=None):
    return b"/".join(rng.choice(LEVELS) for _ in range(n or rng.randint(1, 5)))


def rand_filter(rng, topic=None):
    """valid filter, often derived from a topic so that matches are common"""
    lv = (topic if topic is not None and rng.random() < 0.8 else rand_topic(rng)).split(b"/")
    r = rng.random()
    lv = [b"+" if rng.random() < 0.35 else rng.choice(LEVELS) if rng.random() < 0.1 else l for l in lv]
    if r < 0.15 and len(lv) > 1:
        lv = lv[:-1]
    elif r < 0.25:
        lv.append(rng.choice(LEVELS + [b"+"]))
    if rng.random() < 0.35:
        lv = lv[:rng.randint(0, len(lv))] + [b"#"]
    return b"/".join(lv)
