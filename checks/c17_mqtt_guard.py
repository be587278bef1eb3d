"""MQTT broker: only the clients, actions and packets which are allowed have an effect."""
import base64, hashlib, os, random, struct, tempfile, time
import m_mqtt as B
import m_topic as T
import mqtt as M
import e2e as E
TECHNIQUE = "runtime monitoring: the real broker with generated password and ACL files, observed by a reference model while hostile clients send forbidden, damaged and mutated packets, under ASan/UBSan/LSan and TSan"
NOTE = ("Forbidden packets are a table of some 100 kinds which the protocol obliges the server to refuse, sent in random order with mutations of valid traffic in between. "
        "Subscriptions with wildcards are judged by the rule the broker documents in its source (see C11 and the findings there).")

PW = {}


def pwhash(pw, r):
    """as rrr_passwd makes them"""
    k = pw
    if k not in PW:
        salt = r.randbytes(32)
        h = hashlib.pbkdf2_hmac("sha256", pw.encode(), salt, 20000, 256)
        PW[k] = "$1$%s$%s" % (base64.b64encode(salt).decode(), base64.b64encode(h).decode())
    return PW[k]


LV = ["a", "b", "c", "$x"]


def topic(r):
    return "/".join(r.choice(LV) for _ in range(r.randint(1, 3)))


def filt(r):
    lv = ["+" if r.random() < 0.25 else x for x in topic(r).split("/")]
    if r.random() < 0.3:
        lv = lv[:r.randint(0, len(lv))] + ["#"]
    return "/".join(lv) or "#"


NAMES = ["ann", "bob", "Bob", "al", "u1"]
PWS = ["secret", "s", "pass word", "p\u00e5ss", "x" * 300, "$1$a$b", "a:b,c"]


def rules(r):
    """ACL file as structure and text"""
    rs, s = [], ""
    for _ in range(r.randint(1, 7)):
        f = filt(r) if r.random() < 0.8 else "#"
        dflt, us = "DENY", []
        s += "TOPIC %s\n" % f
        if r.random() < 0.7:
            dflt = r.choice(["DENY", "READ", "WRITE", "WRITE"])
            s += "\tDEFAULT %s\n" % dflt
        for _ in range(r.choice([0, 1, 1, 2])):
            u, a = r.choice(NAMES), r.choice(["DENY", "READ", "WRITE"])
            s += " USER %s %s\n" % (u, a)
            us.append((u, a))
        rs.append((f.encode(), dflt, us))
    return rs, s


# ---- access

def access(ctx, seed, variant, nops):
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix="acl-", dir=ctx.tmp())
    conf, users, perm = "", {}, "mqtt"
    if r.random() < 0.85:
        for n in r.sample(NAMES, r.randint(2, len(NAMES))):
            users[n] = (r.choice(PWS), r.choice([["mqtt"], ["mqtt", "other"], ["other", "mqtt"], [], ["mqt"], ["mqttx"], ["other"]]) if r.random() < 0.7 else ["mqtt", "other"])
        ls = []
        for n, (pw, ps) in users.items():
            ls.append("%s:%s:%s\n" % (n, ",".join(ps), pwhash(pw, r)))
        r.shuffle(ls)
        dis = r.random() < 0.3
        if dis:
            ls.insert(r.randint(0, len(ls)), "dis:mqtt:\n")
        open(d + "/pw", "w").write("".join(ls))
        conf += "mqtt_broker_password_file=%s/pw\n" % d
        if r.random() < 0.3:
            perm = "other"
            conf += "mqtt_broker_permission_name=other\n"
    anon = not users
    if r.random() < 0.6:
        anon = r.random() < 0.7
        conf += "mqtt_broker_require_authentication=%s\n" % ("no" if anon else "yes")
    acl = None
    if r.random() < 0.85:
        rs, text = rules(r)
        open(d + "/acl", "w").write(text)
        conf += "mqtt_broker_acl_file=%s/acl\n" % d

        def acl(kind, t, u):
            return T.acl_decide(rs, "sub" if kind == "s" else "pub", t if isinstance(t, bytes) else t.encode(), u or "") == "ALLOW"
    v3disc = r.random() < 0.4
    if v3disc:
        conf += "mqtt_broker_v31_disconnect_on_publish_deny=yes\n"
    b = B.Bench(ctx, seed, variant, extra=conf, retry=60, acl=acl, v3disc=v3disc)
    b.what += "\n" + conf + (open(d + "/acl").read() if acl else "") + "".join("%s %r\n" % x for x in users.items())

    def ok(u, pw, ver):
        if u is None:
            return anon
        return u in users and pw == users[u][0] and perm in users[u][1]

    def creds():
        x = r.random()
        if x < 0.15 or not users:
            return r.choice([(None, None), ("ann", "secret")]) if x < 0.5 else (None, None)
        u = r.choice(list(users))
        pw = users[u][0]
        if x < 0.65:
            return u, pw
        return r.choice([(u, pw + "x"), (u, pw[:-1] or "y"), (u, pw.swapcase()), (u, r.choice(PWS)), (u, ""), (u.swapcase(), pw), (u + "x", pw), ("nobody", pw),
                         ("dis", ""), ("dis", "secret"), (u, pwhash(pw, r)), (u, " " + pw), (u, None), (r.choice(list(users)), pw), (u + ":mqtt", pw), ("", pw), (u + "\n", pw), ("rrr", "rrr")])
    n = 0
    b.refusals = []
    try:
        for op in range(nops):
            up = [c for c in b.cl.values() if c.conn]
            x = r.random()
            if not up or (x < 0.3 and len(up) < 5):
                u, pw = creds()
                ver = r.choice([3, 4, 4, 5, 5])
                if ver != 5 and u is None and pw is not None:
                    continue
                n += 1
                c = b.client("k%d" % n)
                u2 = u      # a user name of length zero is never accepted
                good = ok(u2, pw, ver) if u2 is not None else anon
                if pw is None and u2 is not None:
                    good = False
                w = None
                if r.random() < 0.3:
                    t = topic(r)
                    w = M.Will(t, b.payload(c, 5), r.choice([0, 1, 2]), 0)
                wdeny = w and b.acl is not None and not b.acl("w", w.topic, u2 or "")
                ctx.distinct(("connect", ver, good, u is None, pw is None, bool(w), bool(wdeny)))
                if good and not wdeny:
                    b.connect(c, ver=ver, clean=True, lives=0, user=u, pw=pw, will=w)
                    c.user = u2 or ""
                    ctx.stat("admitted")
                else:
                    refuse(b, c, ver, u, pw, w)
                    if u in users and pw:
                        # the broker computes the password hash meanwhile, which takes some time with sanitizers
                        b.pump(0.7 * b.slow)
                    ctx.stat("refused_will" if good else "refused_anonymous" if u2 is None else "refused_credentials")
                    del b.cl[c.cid]
                continue
            c = r.choice(up)
            if x < 0.5:
                b.settle()
                b.subscribe(c, [(filt(r), r.choice([0, 1, 2])) for _ in range(r.choice([1, 1, 2, 3]))])
                ctx.stat("subscribes")
            elif x < 0.9:
                t, q = topic(r), r.choice([0, 1, 2])
                ret = int(r.random() < 0.2)
                if b.denied(c, t, "w") and v3disc and c.ver != 5:
                    b.settle()
                    w = c.will
                    b.post(c, t, b.payload(c, 5), q, ret)
                    b.gone(c.conn, "denied PUBLISH of a V3 client with v31_disconnect_on_publish_deny")
                    ctx.stat("v3_disconnected")
                    c.conn = None
                    if w:
                        b.will_out(c, w, None)
                    del b.cl[c.cid]
                    continue
                b.publish(c, t, b.payload(c), q, ret)
                if b.denied(c, t, "w"):
                    ctx.stat("publishes_denied")
            elif x < 0.95:
                b.settle()
                b.drop(c, r.choice(["normal", "abrupt"]))
                b.settle()
                del b.cl[c.cid]
            else:
                b.settle(quiet=0.2)
        b.settle(quiet=0.5)
        refused(b)
        b.settle(quiet=0.5)
        ctx.stat("access_scenarios")
    except B.Stop:
        pass
    except E.NotUp:
        b.end()
        if not b.d.bad:
            raise
        return
    finally:
        b.end()


def refuse(b, c, ver, u, pw, w):
    """start a connection which must not be admitted; refused() judges what comes back"""
    conn = b.raw(ver)
    b.log("%s: CONNECT v%d user %r password %r will %s, to be refused" % (c, ver, u, pw, w and w.topic))
    # everything a client not admitted sends along is ignored
    t = b.rng.choice(["a", "b", "a/b"])
    conn.send(M.connect(ver, c.cid, 1, 0, w, u, pw) + M.subscribe(ver, 7, [("#", 0)]) + M.publish(ver, t, b"refused", 0) + M.publish(ver, t, b"refused", 1, 1, 0, 9))
    b.refusals.append((conn, c, ver, "%s user %r password %r will %s" % (c, u, pw, w and w.topic)))


def refused(b):
    """a refused client gets nothing but a CONNACK with a reason, and then its connection is closed"""
    e = time.time() + 25 * b.slow
    for conn, c, ver, what in b.refusals:
        first = True
        while True:
            for x in conn.pull(0.3):
                b.log("%s <- %s" % (c, x))
                if first and x.t == M.CONNACK and x.reason and not x.present:
                    first = False
                    continue
                if x.t == M.DISCONNECT and ver == 5:
                    continue
                b.bad("not-refused", "%s: received %s" % (what, x))
            if not conn.open or time.time() > e:
                break
        if conn.open:
            b.bad("not-closed", "%s: was not admitted but the connection is still open" % what)
        conn.close()
        b.ctx.count()
    b.refusals = []


# ---- hostile

def F(t, fl, body=b""):
    return M.frame(t, fl, body)


def S(s):
    return M.st(s)


def forbidden(ver):
    """name, packet which a server has to answer by closing the connection"""
    five = ver == 5
    p0 = b"\0" if five else b""
    pid = b"\0\5"
    L = [
        ("second CONNECT", M.connect(ver, "hx")),
        ("QoS 3", F(3, 6, S("h/t") + pid + p0 + b"x")),
        ("PUBLISH packet ID 0", F(3, 2, S("h/t") + b"\0\0" + p0 + b"x")),
        ("PUBLISH topic +", F(3, 0, S("h/+") + p0 + b"x")),
        ("PUBLISH topic #", F(3, 0, S("h/#") + p0 + b"x")),
        ("PUBLISH topic bad UTF-8", F(3, 0, S(b"h/\xc3\x28") + p0 + b"x")),
        ("PUBLISH topic surrogate", F(3, 0, S(b"h/\xed\xa0\x80") + p0 + b"x")),
        ("PUBLISH topic overlong", F(3, 0, S(b"h/\xc0\x80") + p0 + b"x")),
        ("PUBLISH topic with NUL", F(3, 0, S(b"h/\0x") + p0 + b"x")),
        ("PUBLISH topic beyond end", F(3, 0, b"\0\x50h/t")),
        ("PUBLISH empty", F(3, 0, b"")),
        ("PUBLISH one byte", F(3, 0, b"\0")),
        ("PUBLISH without ID", F(3, 2, S("h/t"))),
        ("PUBLISH half an ID", F(3, 2, S("h/t") + b"\0")),
        ("PUBLISH empty topic", F(3, 0, S("") + p0 + b"x")),
        ("SUBSCRIBE flags 0", F(8, 0, pid + p0 + S("h/a") + b"\0")),
        ("SUBSCRIBE flags 3", F(8, 3, pid + p0 + S("h/a") + b"\0")),
        ("SUBSCRIBE no filter", F(8, 2, pid + p0)),
        ("SUBSCRIBE ID 0", F(8, 2, b"\0\0" + p0 + S("h/a") + b"\0")),
        ("SUBSCRIBE QoS 3", F(8, 2, pid + p0 + S("h/a") + b"\3")),
        ("SUBSCRIBE reserved bits", F(8, 2, pid + p0 + S("h/a") + b"\xc0")),
        ("SUBSCRIBE without options", F(8, 2, pid + p0 + S("h/a"))),
        ("SUBSCRIBE second without options", F(8, 2, pid + p0 + S("h/a") + b"\0" + S("h/b"))),
        ("SUBSCRIBE filter beyond end", F(8, 2, pid + p0 + b"\0\x20h/a\0")),
        ("SUBSCRIBE bad UTF-8", F(8, 2, pid + p0 + S(b"h/\xff") + b"\0")),
        ("SUBSCRIBE NUL", F(8, 2, pid + p0 + S(b"h/\0") + b"\0")),
        ("SUBSCRIBE empty body", F(8, 2, b"")),
        ("SUBSCRIBE one byte", F(8, 2, b"\0")),
        ("UNSUBSCRIBE flags 0", F(10, 0, pid + p0 + S("h/a"))),
        ("UNSUBSCRIBE no filter", F(10, 2, pid + p0)),
        ("UNSUBSCRIBE ID 0", F(10, 2, b"\0\0" + p0 + S("h/a"))),
        ("UNSUBSCRIBE beyond end", F(10, 2, pid + p0 + b"\0\x20h/a")),
        ("PUBREL flags 0", F(6, 0, pid)),
        ("PUBACK flags 2", F(4, 2, pid)),
        ("PUBREC flags 1", F(5, 1, pid)),
        ("PUBCOMP flags 8", F(7, 8, pid)),
        ("PUBACK empty", F(4, 0)),
        ("PUBACK one byte", F(4, 0, b"\0")),
        ("PUBREL empty", F(6, 2)),
        ("PUBACK ID 0", F(4, 0, b"\0\0")),
        ("PINGREQ flags", F(12, 4)),
        ("DISCONNECT flags", F(14, 1)),
        ("type 0", b"\0\0"),
        ("type 0 with body", b"\0\3abc"),
        ("length of 5 bytes", b"\x30\xff\xff\xff\xff\x01"),
        ("CONNACK", F(2, 0, b"\0\0" + p0)),
        ("SUBACK", F(9, 0, pid + p0 + b"\0")),
        ("UNSUBACK", F(11, 0, pid + p0 + (b"\0" if five else b""))),
        ("PINGRESP", F(13, 0)),
        ("PINGREQ with body", F(12, 0, b"xyz")),
    ]
    if five:
        def pub(ps, t="h/t"):
            return F(3, 0, S(t) + ps + b"x")
        L += [
            ("AUTH", F(15, 0, b"\x18\0")),
            ("properties beyond end", pub(b"\x20")),
            ("property length of 5 bytes", pub(b"\x80\x80\x80\x80\x01")),
            ("unknown property", pub(b"\2\x7f\0")),
            ("property 0", pub(b"\2\0\0")),
            ("property of CONNECT in PUBLISH", pub(b"\5\x11\0\0\0\1")),
            ("property of CONNACK in PUBLISH", pub(b"\2\x24\1")),
            ("property cut", pub(b"\3\2\0\0")),
            ("string property beyond its block", pub(b"\4\3\0\5ab")),
            ("user property without value", pub(b"\4\x26\0\1a")),
            ("content type twice", pub(b"\x08\3\0\1a\3\0\1b")),
            ("expiry twice", pub(b"\x0a\2\0\0\0\1\2\0\0\0\1")),
            ("topic alias 0", pub(b"\3\x23\0\0")),
            ("topic alias although none is allowed", pub(b"\3\x23\0\5")),
            ("topic alias only", pub(b"\3\x23\0\1", "")),
            ("payload format 2", pub(b"\2\1\2")),
            ("response topic with wildcard", pub(b"\6\x08\0\3a/+")),
            ("content type bad UTF-8", pub(b"\4\3\0\1\xff")),
            ("subscription ID 0", F(8, 2, pid + b"\2\x0b\0" + S("h/a") + b"\0")),
            ("SUBSCRIBE retain handling 3", F(8, 2, pid + b"\0" + S("h/a") + b"\x30")),
            ("SUBSCRIBE property not allowed", F(8, 2, pid + b"\5\2\0\0\0\1" + S("h/a") + b"\0")),
            ("SUBSCRIBE No Local on shared", None),
            ("PUBACK property not allowed", F(4, 0, pid + b"\0\2\1\1")),
            ("PUBACK properties beyond end", F(4, 0, pid + b"\0\x20")),
            ("DISCONNECT property not allowed", F(14, 0, b"\0\2\1\1")),
            ("DISCONNECT properties cut", F(14, 0, b"\0\5\x11\0")),
            ("CONNACK property in DISCONNECT", F(14, 0, b"\0\3\x21\0\1")),
        ]
    else:
        L += [
            ("type 15", F(15, 0)),
            ("PUBACK of 3 bytes", F(4, 0, pid + b"\0")),
            ("DISCONNECT with body", F(14, 0, b"\0\0")),
        ]
    return [x for x in L if x[1] is not None]


def connects():
    """name, CONNECT packets which are to be refused"""
    def c(name=b"MQTT", lv=4, fl=2, ka=60, rest=S("hy"), ps=b""):
        return F(1, 0, S(name) + bytes([lv, fl]) + struct.pack(">H", ka) + ps + rest)
    L = [
        ("protocol name", c(b"MQTX")), ("protocol name long", c(b"MQTTMQTTMQTT")), ("protocol name empty", c(b"")), ("protocol name MQ", c(b"MQ")),
        ("level 6", c(lv=6)), ("level 0", c(lv=0)), ("level 255", c(lv=255)), ("level 3 of MQTT", c(lv=3)), ("level 4 of MQIsdp", c(b"MQIsdp", 4)),
        ("reserved flag", c(fl=3)), ("will QoS 3", c(fl=0x1e, rest=S("hy") + S("h/w") + S("x"))), ("will QoS without will", c(fl=0x0a)),
        ("will retain without will", c(fl=0x22)), ("password without user", c(fl=0x42, rest=S("hy") + S("pw"))),
        ("no client ID, clean 0", c(fl=0, rest=S(""))), ("client ID with NUL", c(rest=S(b"h\0y"))), ("client ID bad UTF-8", c(rest=S(b"h\xff"))),
        ("client ID beyond end", c(rest=b"\0\x20hy")), ("no client ID", c(rest=b"")), ("half a length", c(rest=b"\0")),
        ("will topic missing", c(fl=6)), ("will message missing", c(fl=6, rest=S("hy") + S("h/w"))), ("will topic wildcard", c(fl=6, rest=S("hy") + S("h/#") + S("x"))),
        ("will topic empty", c(fl=6, rest=S("hy") + S("") + S("x"))), ("will topic bad UTF-8", c(fl=6, rest=S("hy") + S(b"h/\xff") + S("x"))),
        ("user missing", c(fl=0x82)), ("trailing bytes", c(rest=S("hy") + b"abc")), ("flags", b"\x11" + c()[1:]),
        ("user bad UTF-8", c(fl=0xc2, rest=S("hy") + S(b"\xff") + S("x"))), ("reserved client ID", c(rest=S("mqtt-client-0"))),
        ("body of 5 bytes", F(1, 0, b"\0\4MQT")), ("empty body", F(1, 0)),
        ("PUBLISH first", M.publish(4, "h/t", b"x")), ("SUBSCRIBE first", M.subscribe(4, 1, [("#", 0)])), ("PINGREQ first", F(12, 0)), ("PUBREL first", M.ack(4, 6, 1)),
        ("DISCONNECT first", F(14, 0)), ("HTTP", b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"), ("zeros", b"\0" * 20), ("ones", b"\xff" * 20),
        ("v5 properties missing", c(lv=5, rest=b"")), ("v5 properties beyond end", c(lv=5, ps=b"\x20")), ("v5 unknown property", c(lv=5, ps=b"\2\x7f\0")),
        ("v5 session expiry twice", c(lv=5, ps=b"\x0a\x11\0\0\0\1\x11\0\0\0\1")), ("v5 receive maximum 0", c(lv=5, ps=b"\3\x21\0\0")), ("v5 packet size 0", c(lv=5, ps=b"\5\x27\0\0\0\0")),
        ("v5 request problem 2", c(lv=5, ps=b"\2\x17\2")), ("v5 request response 2", c(lv=5, ps=b"\2\x19\2")), ("v5 auth data only", c(lv=5, ps=b"\4\x16\0\1a")),
        ("v5 auth method", c(lv=5, ps=b"\6\x15\0\3xyz")), ("v5 property of PUBLISH", c(lv=5, ps=b"\5\2\0\0\0\1")),
        ("v5 will properties beyond end", c(lv=5, fl=6, ps=b"\0", rest=S("hy") + b"\x20" + S("h/w") + S("x"))),
        ("v5 will property not allowed", c(lv=5, fl=6, ps=b"\0", rest=S("hy") + b"\3\x21\0\1" + S("h/w") + S("x"))),
        ("v5 will payload format 2", c(lv=5, fl=6, ps=b"\0", rest=S("hy") + b"\2\1\2" + S("h/w") + S("x"))),
        ("v5 will response topic wildcard", c(lv=5, fl=6, ps=b"\0", rest=S("hy") + b"\4\x08\0\1#" + S("h/w") + S("x"))),
    ]
    return L


def valid(r, ver):
    """traffic of a hostile client, before mutation"""
    ps = []
    if ver == 5:
        ps = [x for x in [(1, 1), (2, 60), (3, "ct"), (8, "h/re"), (9, b"\0\1corr"), (38, ("k", "v")), (38, ("", ""))] if r.random() < 0.3]
    x = r.randint(0, 9)
    t = r.choice(["h/t", "h/a/b", "h", "a", "b/c"])
    if x < 4:
        return M.publish(ver, t, r.randbytes(r.choice([0, 3, 100])), r.choice([0, 1, 2]), r.choice([0, 0, 1]), 0, r.randint(1, 9), ps)
    if x < 6:
        return M.subscribe(ver, r.randint(1, 9), [(r.choice(["h/#", "h/+", "#", "+/+", "a/b"]), r.choice([0, 1, 2])) for _ in range(r.randint(1, 3))])
    if x == 6:
        return M.unsubscribe(ver, r.randint(1, 9), ["h/#"])
    if x == 7:
        return M.ack(ver, r.choice([4, 5, 6, 7]), r.randint(1, 9), r.choice([0, 0, 0x80]) if ver == 5 else 0)
    if x == 8:
        return F(12, 0)
    return M.connect(ver, "h%d" % r.randint(0, 99), r.choice([0, 1]), 0, M.Will("h/w", b"hw", r.randint(0, 2), r.randint(0, 1)) if r.random() < 0.3 else None)


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([0, 1, 1, 2, 5])):
        x = r.randint(0, 6)
        i = r.randrange(len(b)) if b else 0
        if not b:
            break
        if x == 0:
            b[i] ^= 1 << r.randint(0, 7)
        elif x == 1:
            b[i] = r.choice([0, 1, 127, 128, 255])
        elif x == 2:
            del b[i:i + r.choice([1, 1, 2, 10])]
        elif x == 3:
            b[i:i] = r.randbytes(r.choice([1, 2, 10]))
        elif x == 4:
            del b[i:]
        elif x == 5 and len(b) > 1:
            b[1] = max(0, min(127, len(b) - 2 + r.choice([0, 0, 1, -1, 3])))
        elif x == 6:
            b[i:i] = b[i:i + 8]
    return bytes(b)


def hostile(ctx, seed, variant, nops):
    r = random.Random(seed)
    d = tempfile.mkdtemp(prefix="hos-", dir=ctx.tmp())
    open(d + "/pw", "w").write("good:mqtt:%s\n" % pwhash("gp", r))
    # the hostile clients are anonymous and may write to h/ only
    rs = [(b"#", "READ", [("good", "WRITE")]), (b"$x/#", "READ", [("good", "WRITE")]), (b"h/#", "WRITE", [])]
    open(d + "/acl", "w").write("".join("TOPIC %s\nDEFAULT %s\n%s" % (f.decode(), a, "".join("USER %s %s\n" % u for u in us)) for f, a, us in rs))

    def acl(kind, t, u):
        return T.acl_decide(rs, "sub" if kind == "s" else "pub", t if isinstance(t, bytes) else t.encode(), u or "") == "ALLOW"
    b = B.Bench(ctx, seed, variant, extra="mqtt_broker_password_file=%s/pw\nmqtt_broker_acl_file=%s/acl\nmqtt_broker_require_authentication=no\n" % (d, d),
                retry=60, acl=acl, hostile=b"h/")
    open_ = []      # (name, conn, until)
    table = [("v%d " % v + n, v, p) for v in (3, 4, 5) for n, p in forbidden(v)] + [("CONNECT " + n, 0, p) for n, p in connects()]
    r.shuffle(table)

    def sweep(final=False):
        for x in open_[:]:
            name, conn, until = x
            try:
                for p in conn.pull(0):
                    if p.t not in (M.DISCONNECT, M.CONNACK, M.PUBLISH) or (p.t == M.CONNACK and not p.reason):
                        b.bad("answered:" + name, "%s was answered by %s" % (name, p))
            except M.Malformed as e:
                b.bad("malformed-answer", "%s was answered by a malformed packet: %s" % (name, e))
            if not conn.open:
                ctx.stat("forbidden_refused")
                ctx.distinct(("forbidden", name))
                ctx.count()
                conn.close()
                open_.remove(x)
            elif time.time() > until:
                b.bad("tolerated:" + name, "connection which sent a forbidden packet (%s) is still open after 25 s" % name)

    try:
        cs = []
        for i in range(3):
            c = b.client("cl%d" % i)
            b.connect(c, ver=[4, 5, r.choice([3, 4, 5])][i], clean=True, lives=0, user="good", pw="gp")
            c.user = "good"
            b.subscribe(c, [(r.choice(["#", "+/+", "a/#", "h/#"]), r.choice([0, 1, 2])) for _ in range(2)])
            cs.append(c)
        cap = r.sample(range(4000), 1)[0]
        for op in range(nops):
            x = r.random()
            if x < 0.25:
                c = r.choice(cs)
                b.publish(c, topic(r), b.payload(c, r.choice([0, 10, 300])), r.choice([0, 1, 2]), int(r.random() < 0.1), b.rprops(c))
            elif x < 0.65 and len(open_) < 40:
                name, v, p = table[op % len(table)]
                if v:
                    conn = b.raw(v)
                    conn.send(M.connect(v, "h%d" % r.randint(0, 10 ** 6), 1, 0))
                    k, rest = b.wait1(conn)
                    if k is None or k.t != M.CONNACK or k.reason:
                        b.bad("refused", "CONNECT of a hostile client was not accepted: %s" % k)
                else:
                    conn = b.raw(5 if "v5" in name else 4)
                b.log("hostile %s: %s" % (name, p.hex()[:200]))
                if r.random() < 0.3 and len(p) > 2:
                    k = r.randrange(1, len(p))
                    conn.send(p[:k])
                    b.pump(0.01)
                    conn.send(p[k:])
                else:
                    conn.send(p)
                if name.split(" ", 1)[1] in ("HTTP", "body of 5 bytes"):
                    pass
                open_.append((name, conn, time.time() + 25 * b.slow))
            else:
                v = r.choice([3, 4, 5])
                conn = b.raw(v)
                bs = b""
                if r.random() < 0.9:
                    bs = M.connect(v, "h%d" % r.randint(0, 9), r.choice([0, 1]), r.choice([0, 0, 60]), M.Will("h/w", b"hw", r.randint(0, 2)) if r.random() < 0.2 else None,
                                   *(r.choice([("good", "bad"), (None, None)]) if r.random() < 0.3 else ()), ps=[(17, 100)] if v == 5 and r.random() < 0.3 else ())
                    if r.random() < 0.3:
                        bs = mutate(r, bs)
                for _ in range(r.choice([1, 3, 10, 40])):
                    m = valid(r, v)
                    bs += mutate(r, m) if r.random() < 0.5 else m
                b.log("hostile mutated: %s" % bs.hex()[:400])
                while bs:
                    k = r.choice([len(bs), len(bs), 1, 5, 50])
                    conn.send(bs[:k])
                    bs = bs[k:]
                    if r.random() < 0.1:
                        b.pump(0.003)
                ctx.stat("mutated_connections")
                if r.random() < 0.6:
                    time.sleep(0.005)
                    conn.close()
                else:
                    b.held = getattr(b, "held", []) + [conn]
                    if len(b.held) > 20:
                        b.held.pop(0).close()
            b.pump(0)
            if op % 10 == 9:
                sweep()
                for c in cs:
                    b.ping(c)
            if b.d.p.poll() is not None:
                b.bad("ended", "the broker ended")
        while open_:
            b.pump(0.1)
            sweep()
            for c in cs:
                b.ping(c)
        b.settle(quiet=0.3)
        ctx.stat("hostile_scenarios")
    except B.Stop:
        pass
    except E.NotUp:
        b.end()
        if not b.d.bad:
            raise
        return
    finally:
        b.end()


def check(ctx):
    ctx.rule = "clients are admitted exactly by the password file, actions allowed exactly by the ACL file, forbidden packets end their connection and nothing else"
    one = os.environ.get("VF_MQTT")
    n = ctx.scale(48, 240)
    jobs = [(ctx.seed * 1700009 + i, "tsan" if i % 8 == 7 else "asan") for i in range(n)]
    if one:
        jobs = [(int(one), os.environ.get("VF_VARIANT", "asan"))]
    else:
        ctx.build("tsan", "rrr")
    ctx.build("asan", "rrr")
    nops = ctx.scale(80, 160)
    ctx.par(lambda j: (hostile if j[0] % 2 else access)(ctx, j[0], j[1], nops * (2 if j[0] % 2 else 1)), jobs, workers=12)
    if not one:
        for s, k in (("access_scenarios", n // 6), ("hostile_scenarios", n // 6), ("admitted", 20), ("refused_credentials", 20), ("refused_anonymous", 5), ("refused_will", 5),
                     ("publishes_denied", 20), ("publish_denied", 5), ("v3_disconnected", 3), ("subscribes", 20), ("forbidden_refused", 200), ("mutated_connections", 100), ("delivered_qos2", 5)):
            ctx.require(s, k)
