"""HTTP/1 messages: framing over a growing buffer, headers, bodies and form data."""
import random, re
import m_http as M
TECHNIQUE = "runtime monitoring: messages generated together with what has to be received (oracle by construction), all fragmentations metamorphically compared, exact-size buffers under ASan/UBSan, mutated messages"
NOTE = ("Messages up to some 100 kB; header values starting with a separator and quoted parameters with separators in them are not generated "
        "(documented as naive in the parser); trailers and chunk extensions are refused by design.")


def expect(m):
    return dict(uri=m.uri.hex(), ms=m.method.encode().hex(), m=m.method, v=m.version.decode(), conn=m.conn)


ITEM = re.compile(r"\{([^=]*)=([^/]*)/([^/]*)/(\d+)/((?:\([^()]*\))*)\}")
TOP = re.compile(r"^(?:K (\d+)|U top=(\d+))((?: !\w+)*) v=(\S+) m=(\S+) f=(\S+) code=(\d+) conn=(\S+) uri=(\S+) ms=(\S+) H\[(.*?)\] B\[(\w*)\] F\[(.*?)\] A\[(.*?)\] P\[(.*)\]$")


def un(x):
    return b"" if x in ("-", "~") else bytes.fromhex(x)


def judge_req(m, r):
    t = TOP.match(r or "")
    if not t:
        return "request not understood: %s" % (r or "")[:60]
    n, _, flags, v, meth, fmt, code, conn, uri, ms, hd, body, fields, arrs, parts = t.groups()
    if flags:
        return "failure in post processing:" + flags
    if int(n) != len(m.wire):
        return "length of the message: %s instead of %d" % (n, len(m.wire))
    for k, a, b in (("version", v, m.version.decode()), ("method", meth, m.method), ("format", fmt, m.fmt), ("connection", conn, m.conn),
                    ("uri", uri, m.uri.hex()), ("method string", ms, m.method.encode().hex())):
        if a != b:
            return "%s: got %s expected %s" % (k, a, b)
    w = headers(m, hd)
    if w:
        return w
    if body != m.body.hex():
        return "body: got %s expected %s" % (body[:200], m.body.hex()[:200])
    if fields != M.fields_text(m.fields):
        return "fields: got %s expected %s" % (fields[:300], M.fields_text(m.fields)[:300])
    if arrs != m.arrays:
        return "JSON arrays: got %s expected %s" % (arrs[:300], m.arrays[:300])
    if m.parts:
        got = re.findall(r"<.*? B\[(\w*)\]", parts)
        if got != [p[1].hex() for p in m.parts]:
            return "parts: got %s" % got
    return None


def headers(m, hd):
    items = ITEM.findall(hd)
    pos, prev = 0, None
    for n, x in m.headers:
        x = x.strip(b" \t")
        # further values of the previous field
        while pos < len(items) and prev and un(items[pos][0]).lower() == prev and items[pos][1] == "~":
            pos += 1
        if pos >= len(items):
            return "header %r lost" % n
        it = items[pos]
        if un(it[0]).lower() != n.lower():
            return "header name: got %r expected %r" % (un(it[0]), n)
        if un(it[1]) != x:
            return "header %r value: got %r expected %r" % (n, un(it[1])[:100], x[:100])
        ln = n.lower()
        if ln == b"content-length" and int(it[3]) != int(x):
            return "content-length value"
        if ln in (b"host", b"connection", b"transfer-encoding") and un(it[2]) != x:
            return "header %r parsed value: got %r" % (n, un(it[2]))
        if ln == b"content-type":
            if un(it[2]) != x.split(b";")[0]:
                return "content-type: got %r" % un(it[2])
            for kv in x.split(b";")[1:]:
                k, v = kv.strip().split(b"=")
                if "(%s=%s)" % (k.hex(), v.strip(b'"').hex()) not in it[4]:
                    return "content-type parameter %r: got %s" % (kv, it[4])
        pos += 1
        prev = n.lower()
    return None


def judge_res(m, r):
    t = TOP.match(r or "")
    if not t:
        return "response not understood: %s" % (r or "")[:60]
    n, top, flags, v, meth, fmt, code, conn, uri, ms, hd, body, fields, arrs, parts = t.groups()
    if m.unknown:
        if top is None or int(top) != len(m.wire) - len(m.body):
            return "response without stated length: got %s" % r[:40]
    elif n is None or int(n) != len(m.wire):
        return "length of the message: %s instead of %d" % (n, len(m.wire))
    if int(code) != m.code or v != m.version.decode() or conn != m.conn:
        return "got code %s version %s connection %s" % (code, v, conn)
    w = headers(m, hd)
    if w:
        return w
    if not m.unknown and body != m.body.hex():
        return "body: got %s expected %s" % (body[:200], m.body.hex()[:200])
    return None


def broken(rng, m):
    """message which must not be accepted as complete"""
    w = m.wire
    top = w.index(b"\r\n\r\n") + 4
    r = rng.randrange(9)
    if r == 0:
        return w.replace(b" HTTP/1.", b" HTTP/2.", 1)
    if r == 1:
        return w.replace(m.method.encode(), b"BREW", 1)
    if r == 2:
        return w.replace(b" ", b"", 1)
    if r == 3 and m.headers:
        n = m.headers[0][0] + b":"
        return w.replace(b"\r\n" + n, b"\r\n" + n[:-1], 1) if b":" not in m.headers[0][1] else None
    if r == 4 and m.body and not m.chunked:
        return re.sub(rb"(?i)content-length:\s*\d+", lambda x: x.group(0) + rng.choice([b"x", b" 1", b".0", b"e1"]), w, 1)
    if r == 5 and m.body and not m.chunked:
        return re.sub(rb"(?i)(content-length:\s*)\d+", lambda x: x.group(1) + rng.choice([b"18446744073709551615", b"18446744073709551600", b"-1", b"+5", b"0x10", b"99999999999999999999999"]), w, 1)
    if r == 6 and m.chunked:
        return w[:top] + rng.choice([b"ffffffffffffffff\r\n", b"fffffffffffffff0\r\n", b"xyz\r\n", b"-1\r\n", b"1ffffffffffffffff\r\n", b"\r\n\r\nab\r\n", b" 3\r\n"]) + w[top:]
    if r == 7 and m.chunked:
        return w[:-2] + rng.choice([b"X: y\r\n\r\n", b"ab", b"\n\r"])
    if r == 8:
        return w[:rng.randint(1, len(w) - 1)]
    return None


def mutate(rng, w):
    b = bytearray(w)
    for _ in range(rng.choice([1, 1, 2, 5])):
        k = rng.randrange(5)
        p = rng.randrange(len(b)) if b else 0
        if k == 0 and b:
            b[p] = rng.randrange(256)
        elif k == 1:
            b[p:p] = rng.choice([b"\r\n", b"%", b";", b",", b"=", b" ", b":", b"--", b"\0", b"%4", b'"', b"("])
        elif k == 2 and b:
            del b[p:p + rng.randint(1, 5)]
        elif k == 3 and b:
            q = rng.randrange(len(b))
            b[p:p] = b[q:q + rng.randint(1, 30)]
        elif b:
            b = b[:p] + b[p + 1:]
    return bytes(b) or b"x"


def check(ctx):
    rng = random.Random(ctx.seed * 7919 + 13)
    cmds, meta = [], []

    def add(kind, q, m, data, cuts):
        cmds.append("S %s %s %s" % (q, M.h(data), ",".join(map(str, cuts))))
        meta.append((kind, m, data, cuts))
    for i in range(ctx.scale(6000, 60000)):
        m = M.request(rng, small=True)
        tail = b"" if rng.random() < 0.7 else M.request(rng, small=True).wire
        data = m.wire + tail
        c = M.cuts(rng, len(data))
        add("req", "Q", m, data, c)
        ctx.distinct(("req", m.method, m.fmt, m.chunked, len(m.body) and len(m.body).bit_length(), len(m.headers), len(m.fields), len(c)))
    for i in range(ctx.scale(3000, 30000)):
        m = M.response(rng)
        tail = b"HTTP/1.1 200 OK\r\n" if not m.unknown and rng.random() < 0.2 else b""
        c = M.cuts(rng, len(m.wire + tail))
        if m.unknown:
            c = [x for x in c if x <= len(m.wire) - len(m.body)] + [len(m.wire)]
        add("res", "R", m, m.wire + tail, c)
        ctx.distinct(("res", m.code, m.unknown, len(m.body).bit_length(), len(m.headers)))
    for i in range(ctx.scale(3000, 30000)):
        m = M.request(rng, small=True)
        b = broken(rng, m)
        if b is None or b == m.wire:
            continue
        add("bad", "Q", m, b, M.cuts(rng, len(b)))
    pairs = []
    for i in range(ctx.scale(4000, 40000)):
        q = rng.choice("QQQR")
        m = M.request(rng, small=True) if q == "Q" else M.response(rng)
        w = mutate(rng, m.wire)
        if len(w) > 3000:
            w = w[:3000]
        a = len(cmds)
        add("mut", q, m, w, [len(w)])
        add("mut", q, m, w, M.cuts(rng, len(w)))
        pairs.append(a)
    res = ctx.drv("http", cmds)
    for (kind, m, data, cuts), r, c in zip(meta, res, cmds):
        if r is None:
            continue
        ctx.count()
        if kind in ("req", "res"):
            w = (judge_req if kind == "req" else judge_res)(m, r)
            ctx.stat(kind)
            if m.chunked if kind == "req" else False:
                ctx.stat("chunked")
            if len(cuts) > 1:
                ctx.stat("fragmented")
            if w:
                ctx.violation("http-%s:%s" % (kind, w.split(":")[0][:40]), "%s\nmessage: %r\ncuts %s\ngot %s" % (w, data[:1500], cuts[:20], r[:1500]), "echo '%s' | h_http" % c)
            elif ctx.evals % 1500 == 1:
                ctx.sample("%s %r cuts %s" % (kind, data[:120], cuts[:5]))
        elif kind == "bad":
            ctx.stat("broken_refused" if r[0] == "E" else "broken_waiting")
            if r[0] not in "EI":
                ctx.violation("http-broken-accepted", "message %r\ngot %s" % (data[:1500], r[:500]), "echo '%s' | h_http" % c)
    for a in pairs:
        r1, r2 = res[a], res[a + 1]
        if r1 is None or r2 is None:
            continue
        ctx.stat("mutated_" + r1[0])
        if r1[0] == "U" or r2[0] == "U":
            # what is in the buffer differs when length is unknown
            r1, r2 = r1.split(" B[")[0], r2.split(" B[")[0]
        if r1 != r2:
            ctx.violation("http-fragmentation", "in one piece: %s\nfragments %s: %s\nmessage %r" % (r1[:600], meta[a + 1][3], r2[:600], meta[a][2][:1500]),
                          "printf '%%s\\n' '%s' '%s' | h_http" % (cmds[a][:4000], cmds[a + 1][:4000]))
    ctx.rule = "one evaluation per message given to the parser; distinct: method/format/framing/sizes"
    for k, v in (("req", 3000), ("res", 1500), ("chunked", 300), ("fragmented", 2000), ("broken_refused", 500), ("broken_waiting", 100),
                 ("mutated_K", 300), ("mutated_E", 300), ("mutated_I", 100)):
        ctx.require(k, v)
