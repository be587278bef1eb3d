"""Generator of HTTP/1 messages together with what a receiver has to see."""
import random
TOKEN = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"
POOL = []  # field names to be preferred
METHODS = ["GET", "HEAD", "OPTIONS", "DELETE", "PATCH", "PUT", "POST"]


def h(b):
    return b.hex() if b else "-"


def rb(rng, n, alpha=None):
    return bytes(rng.choice(alpha) for _ in range(n)) if alpha else rng.randbytes(n)


def tok(rng, lo=1, hi=12):
    return rb(rng, rng.randint(lo, hi), TOKEN)


UNRES = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~")


def pct(rng, b, plus):
    """percent-encode with random freedom"""
    o = bytearray()
    for c in b:
        if c in UNRES and rng.random() < 0.9:
            o.append(c)
        elif c == 32 and plus and rng.random() < 0.5:
            o += b"+"
        else:
            o += (b"%%%02X" if rng.random() < 0.5 else b"%%%02x") % c
    return bytes(o)


def field_list(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5])
    res = []
    for _ in range(n):
        nm = rng.choice(POOL) if POOL and rng.random() < 0.5 else rng.randbytes(rng.randint(1, 8)) if rng.random() < 0.4 else tok(rng)
        v = None if rng.random() < 0.15 else b"" if rng.random() < 0.1 else rng.randbytes(rng.randint(1, 12)) if rng.random() < 0.4 else tok(rng)
        res.append((nm, v))
    return res


def form(rng, fl):
    o = []
    for n, v in fl:
        o.append(pct(rng, n, True) + (b"" if v is None else b"=" + pct(rng, v, True)))
    return b"&".join(o)


VCH = bytes(c for c in range(33, 127) if c not in b";,=")


def value(rng):
    r = rng.random()
    if r < 0.1:
        return b""
    if r < 0.6:
        return b" ".join(rb(rng, rng.randint(1, 8), VCH) for _ in range(rng.randint(1, 4)))
    if r < 0.7:
        return rb(rng, rng.randint(1, 6), VCH) + b"="
    if r < 0.8:
        return rb(rng, rng.randint(1, 6), VCH) + b"=="
    if r < 0.9:
        return b"; ".join(rb(rng, rng.randint(1, 6), VCH) + b"=" + rb(rng, rng.randint(1, 6), VCH) for _ in range(rng.randint(1, 4)))
    return rb(rng, rng.choice([200, 1000, 4000]), VCH)


def casing(rng, s):
    r = rng.random()
    return s if r < 0.4 else s.lower() if r < 0.6 else s.upper() if r < 0.8 else bytes(c ^ 32 if chr(c).isalpha() and rng.random() < 0.5 else c for c in s)


def header_line(rng, n, v):
    lead = rng.choice([b" ", b" ", b" ", b"", b"  ", b"\t"]) if v else rng.choice([b" ", b""])
    return n + b":" + lead + v + (rng.choice([b" ", b"\t ", b""]) if v and rng.random() < 0.2 else b"") + b"\r\n"


def chunked(rng, body):
    o, pos = bytearray(), 0
    while pos < len(body):
        n = min(len(body) - pos, rng.choice([1, 2, 3, 10, 16, 17, 255, 256, 1000, 5000]))
        hx = b"%x" % n
        if rng.random() < 0.3:
            hx = hx.upper()
        if rng.random() < 0.2:
            hx = b"0" * rng.randint(1, 6) + hx
        o += hx + b"\r\n" + body[pos:pos + n] + b"\r\n"
        pos += n
    o += rng.choice([b"0", b"0", b"000"]) + b"\r\n\r\n"
    return bytes(o)


class Msg:
    pass


def jsval(rng):
    r = rng.randrange(5)
    if r == 0:
        s = "".join(rng.choice(["a", "Z", " ", "\"", "\\", "/", "\n", "å", "€", "😀", "\u0001"]) for _ in range(rng.randint(0, 8)))
        return s
    if r == 1:
        return rng.choice([0, 1, -1, 2**63 - 1, -2**63, rng.randint(-10**6, 10**6), rng.getrandbits(62)])
    if r == 2:
        return rng.choice([0.5, -0.25, 1024.0, 3.75, -1000000.125])
    if r == 3:
        return rng.random() < 0.5
    return None


def json_objs(rng, depth=0):
    """-> (python value, list of arrays in order of appearance)"""
    if rng.random() < 0.3 and depth < 2:
        subs = [json_objs(rng, depth + 1) for _ in range(rng.randint(0, 3))]
        return [s[0] for s in subs], [a for s in subs for a in s[1]]
    o, own, below = {}, [], []
    for i in range(rng.randint(0, 5)):
        k = "k%d" % i if rng.random() < 0.7 else "".join(rng.choice("abå\" /") for _ in range(rng.randint(1, 5))) + str(i)
        if rng.random() < 0.2 and depth < 2:
            o[k], a = json_objs(rng, depth + 1)
            below += a
        else:
            o[k] = jsval(rng)
            own.append((k, o[k]))
    return o, below + [own]


def jsarr(arrs):
    """the arrays as printed by the driver"""
    o = []
    for a in arrs:
        s = "{"
        for k, v in a:
            kx = k.encode().hex() or "-"
            if isinstance(v, bool):
                s += "(h,%s,u%d)" % (kx, v)
            elif isinstance(v, int):
                s += "(h,%s,s%d)" % (kx, v & (2**64 - 1))
            elif isinstance(v, float):
                s += "(fixp,%s,%s)" % (kx, int(v * 2**24).to_bytes(8, "little", signed=True).hex())
            elif v is None:
                s += "(vain,%s,-)" % kx
            else:
                s += "(str,%s,%s)" % (kx, v.encode().hex() or "-")
        o.append(s + "}")
    return "".join(o)


def request(rng, small=False, upgrade=False, tag=None):
    import json
    m = Msg()
    meth = rng.choice(METHODS)
    has_body = meth in ("PATCH", "PUT", "POST") and rng.random() < 0.85
    m.method = meth
    path = b"/" + b"/".join(tok(rng, 0, 6) for _ in range(rng.randint(0, 3)))
    q = field_list(rng)
    m.jarrs = []
    if tag:
        path, q = b"/" + tag + path, [(b"id", tag)] + q
    m.path, m.query = path, list(q)
    m.uri = path + (b"?" + form(rng, q) if q or rng.random() < 0.1 else b"")
    m.version = rng.choice([b"1.1", b"1.1", b"1.1", b"1.0"])
    hd = []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        n = b"X-" + tok(rng)
        hd.append((n, value(rng)))
    if rng.random() < 0.7:
        hd.append((b"Host", tok(rng) + rng.choice([b"", b":8080", b".example.org"])))
    if rng.random() < 0.4:
        hd.append((b"Accept", rng.choice([b"*/*", b"text/html, application/xml;q=0.9, */*;q=0.8", b"a/b,c/d, e/f"])))
    if rng.random() < 0.3:
        hd.append((b"User-Agent", b"Mozilla/5.0 (X11; Linux, x=y) foo/1"))
    if rng.random() < 0.1:
        hd.append((b"Authorization", b"Basic " + rng.choice([b"YTpi", b"YTpiYw==", b"YTpiY2Q="])))
    m.conn = "close" if m.version == b"1.0" else "keep"
    if rng.random() < 0.3:
        c = rng.choice([b"close", b"keep-alive", b"Close", b"Keep-Alive", b"something"])
        hd.append((b"Connection", c))
        if c.lower() == b"close":
            m.conn = "close"
        elif c.lower() == b"keep-alive":
            m.conn = "keep"
    body, m.fields, m.arrays, m.parts, m.fmt, m.ctype = b"", list(q), "", [], "raw", None
    if has_body:
        kind = rng.choice(["raw", "form", "multi", "json"])
        big = rng.random() < (0.02 if small else 0.1)
        if kind == "raw":
            body = rng.randbytes(rng.choice([0, 1, 2, 50, 300]) if not big else rng.choice([4096, 65536, 70000]))
            if rng.random() < 0.7:
                m.ctype = rng.choice([b"application/octet-stream", b"text/plain; charset=utf-8", b'text/plain;charset="utf-8"', b"Text/HTML"])
        elif kind == "form":
            fl = field_list(rng)
            body, m.fmt = form(rng, fl), "form"
            m.fields += fl
            m.ctype = b"application/x-www-form-urlencoded"
            if rng.random() < 0.2:
                m.ctype += b"; charset=utf-8"
        elif kind == "json":
            v, arrs = json_objs(rng)
            body, m.fmt = json.dumps(v, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1])).encode(), "json"
            m.arrays, m.jarrs = jsarr(arrs), arrs
            m.ctype = b"application/json"
        else:
            bd = rng.choice([tok(rng, 4, 20) + b"Z9", b"----WebKitFormBoundary" + tok(rng, 16, 16)])
            m.fmt = "multi"
            m.ctype = b"multipart/form-data; boundary=" + (bd if rng.random() < 0.5 else b'"' + bd + b'"')
            o = rng.choice([b"", b"preamble\r\n", b"\r\n"]) if rng.random() < 0.2 else b""
            for _ in range(rng.randint(1, 5)):
                nm = rng.choice(POOL) if POOL and rng.random() < 0.5 else tok(rng)
                v = rng.randbytes(rng.choice([0, 1, 10, 100]) if not big else 20000)
                if rng.random() < 0.2:
                    v = rng.choice([b"\r\n", b"--", b"\r\n--", b"\r\n--" + bd[:-1], b"a\r\nb\r\n"])
                ct = rng.choice([None, None, b"text/plain", b"application/x-foo"])
                fn = rng.choice([None, None, b"a.txt", b"some file"])
                hl = b"Content-Disposition: form-data; name=" + (nm if rng.random() < 0.3 else b'"' + nm + b'"') + (b'; filename="%s"' % fn if fn else b"") + b"\r\n"
                if ct:
                    cl = b"Content-Type: " + ct + b"\r\n"
                    hl = hl + cl if rng.random() < 0.5 else cl + hl
                o += b"--" + bd + b"\r\n" + hl + b"\r\n" + v + b"\r\n"
                m.parts.append((nm, v, ct))
                m.fields.append((nm, v if v else None, ct))
            body = o + b"--" + bd + b"--" + (b"\r\n" if rng.random() < 0.7 else b"")
        m.has_body = True
        if m.ctype:
            hd.append((b"Content-Type", m.ctype))
    m.body = body
    m.chunked = False
    if has_body:
        if rng.random() < 0.4:
            m.chunked = True
            hd.append((b"Transfer-Encoding", b"chunked"))
            wire = chunked(rng, body)
            if rng.random() < 0.1:
                hd.append((b"Content-Length", b"%d" % rng.choice([0, 3, len(body), len(wire)])))
        else:
            hd.append((b"Content-Length", b"%d" % len(body)))
            wire = body
    else:
        wire = b""
        if rng.random() < 0.1:
            hd.append((b"Content-Length", b"0"))
    rng.shuffle(hd)
    m.headers = [(casing(rng, n), v) for n, v in hd]
    m.wire = meth.encode() + b" " + m.uri + b" HTTP/" + m.version + b"\r\n" + b"".join(header_line(rng, n, v) for n, v in m.headers) + b"\r\n" + wire
    return m


def fields_text(fl):
    o = ""
    for f in fl:
        n, v = f[0], f[1]
        o += "(%s=%s%s)" % (n.hex(), "~" if v is None or v == b"" else v.hex(), ":" + f[2].hex() if len(f) > 2 and f[2] else "")
    return o


def response(rng):
    m = Msg()
    m.code = rng.choice([200, 200, 201, 204, 404, 500, 301, 100 + rng.randrange(500)])
    if m.code == 101:
        m.code = 102
    m.version = rng.choice([b"1.1", b"1.1", b"1.0"])
    hd = [(b"X-" + tok(rng), value(rng)) for _ in range(rng.choice([0, 1, 3]))]
    m.conn = "close" if m.version == b"1.0" else "keep"
    m.body = b"" if m.code == 204 else rng.randbytes(rng.choice([0, 1, 2, 10, 300, 5000]))
    if rng.random() < 0.5:
        hd.append((b"Server", b"RRR/1.0"))
    m.unknown = False
    r = rng.random()
    if m.code == 204:
        wire = b""
    elif r < 0.4:
        hd.append((b"Content-Length", b"%d" % len(m.body)))
        wire = m.body
    elif r < 0.8:
        hd.append((b"Transfer-Encoding", rng.choice([b"chunked", b"Chunked"])))
        wire = chunked(rng, m.body)
    else:
        m.unknown, wire = True, m.body
    rng.shuffle(hd)
    m.headers = [(casing(rng, n), v) for n, v in hd]
    m.wire = b"HTTP/" + m.version + b" %d" % m.code + rng.choice([b" OK", b" Some phrase here", b" ", b""]) + b"\r\n" + b"".join(header_line(rng, n, v) for n, v in m.headers) + b"\r\n" + wire
    return m


def cuts(rng, n):
    r = rng.random()
    if r < 0.25:
        return [n]
    if r < 0.45 and n <= 600:
        return list(range(1, n + 1))
    if r < 0.6:
        a = rng.randint(1, n)
        return sorted({a, min(n, a + 1), n})
    return sorted({rng.randint(1, n) for _ in range(rng.choice([1, 2, 3, 10, 40]))} | {n})
