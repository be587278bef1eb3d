"""Text encodings used with HTTP: percent, quoting, base64, URIs, form data and JSON."""
import base64, json, random, urllib.parse as up
import m_http as M
TECHNIQUE = "runtime monitoring: encoders and decoders driven with generated and hostile input, results compared with independent implementations, round trips, exact-size buffers under ASan/UBSan"
NOTE = "Inputs up to some kB (base64 to 20 kB). base64url without complete groups is not generated (refused by design); URIs without user information."
UNRES = "-_.!~*'()"
OKQ = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~()<>@,;:\\\"[]. \t={}/?")


def hx(b):
    return b.hex() if b else "-"


def un(t):
    return b"" if t in ("-", "~") else bytes.fromhex(t)


def text(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 10, 40, 300]) if n is None else n
    r = rng.randrange(4)
    if r == 0:
        return rng.randbytes(n)
    if r == 1:
        return bytes(rng.choice(b"abcXYZ019-_.!~*'() \"\\%+&=/?#;,:@[]<>{}|^`\t") for _ in range(n))
    if r == 2:
        return bytes(rng.choice(b"\"\\()a") for _ in range(n))
    return bytes(rng.choice(M.TOKEN) for _ in range(n))


def decode(b):
    """percent decoding; None if malformed"""
    o, i = bytearray(), 0
    while i < len(b):
        if b[i] == 37:
            x = b[i + 1:i + 3]
            if len(x) != 2 or any(c not in b"0123456789abcdefABCDEF" for c in x):
                return None
            o.append(int(x, 16))
            i += 3
        else:
            o.append(b[i])
            i += 1
    return bytes(o)


def uri(rng):
    p = rng.choice([None, "http", "https", "ws", "wss", "HTTP", "Https", "WSS"])
    host, port, prt = None, 0, ""
    s = ""
    if p:
        host = rng.choice(["a", "localhost", "example.org", "127.0.0.1", "my-host.x1", "A" * 200])
        s = p + "://" + host
        port = {"http": 80, "https": 443, "ws": 80, "wss": 443}[p.lower()]
        if rng.random() < 0.5:
            port = rng.choice([1, 80, 443, 8080, 65535, rng.randint(1, 65535)])
            s += ":%d" % port
    e = rng.choice(["", "/", "/a", "/a/b.html", "/a?b=c&d=%20", "/?u=http://other/x", "/" + "x" * 300, "/x?y=z:", "/a:/b:", "/q?//", "/a#b"])
    if not p and (e == "" or rng.random() < 0.3):
        e = rng.choice(["x", "a/b", "a:b", "?x=y", "?u=ws://h/", "a/b?c=http://h:1/"])
    return s + e, p.lower() if p else None, host, port, e


def badport(rng):
    return "http://h:" + rng.choice(["", "0", "65536", "99999999999999999999", "x", "-1", "/"]) + rng.choice(["", "/a"])


def check(ctx):
    rng = random.Random(ctx.seed * 7919 + 14)
    cmds, want = [], []

    def add(kind, c, judge, info):
        cmds.append(c)
        want.append((kind, judge, info))
    n = ctx.scale(2500, 25000)
    for _ in range(n):
        b = text(rng)
        e = up.quote(b, safe=UNRES).encode()

        def j(r, b=b, e=e):
            t = r.split()
            if un(t[0]) != e:
                return "encoded %r expected %r" % (un(t[0]), e)
            return None if un(t[1]) == b else "decoded again to %r" % (t[1])
        add("percent_encode", "u " + hx(b), j, b)
        d = e if rng.random() < 0.3 else text(rng)
        if rng.random() < 0.4:
            d += rng.choice([b"%", b"%4", b"%4x", b"%zz", b"%+1", b"% 1", b"%0x", b"%41", b"%00", b"%fF", b"%-1"]) + (b"" if rng.random() < 0.5 else b"q")
        w = decode(d)
        if d:
            add("percent_decode", "d " + hx(d), lambda r, w=w: None if (r == "E") == (w is None) and (w is None or un(r) == w) else "got %s expected %r" % (r, w), d)
        v = bytes(c for c in text(rng) if c in OKQ) if rng.random() < 0.8 else text(rng)
        if b"\r" in v:
            v = v.replace(b"\r", b"")

        def jq(r, v=v):
            if r == "E":
                return None if not v or any(c < 32 and c != 9 or c > 126 for c in v) else "quoting refused"
            q, u = map(un, r.split())
            if any(c < 32 and c != 9 or c > 126 for c in v):
                return "control or non-ASCII octet accepted in %r" % v
            if any(c in b"()<>@,;:\\\"[] \t" for c in v) and not (q[:1] == b'"' and q[-1:] == b'"'):
                return "%r needs quotes, got %r" % (v, q)
            return None if u == v else "quoted %r gives %r back" % (q, u)
        add("quote", "q " + hx(v), jq, v)
        if rng.random() < 0.5:
            x = text(rng, rng.randint(1, 30))
            add("unquote", "x " + hx(x), lambda r, x=x: None if r != "E" and len(un(r)) <= len(x) and (any(c in b'"(' for c in x) or un(r) == x) else "got %s" % r, x)
        b = rng.randbytes(rng.choice([1, 2, 3, 4, 5, 52, 53, 54, 55, 107, 108, 109, 200, 1000, 20000] if rng.random() < 0.3 else [rng.randint(0, 120)]))
        add("base64_encode", "b " + hx(b), lambda r, b=b: None if r != "E" and un(r).replace(b"\n", b"") == base64.b64encode(b) and all(len(l) <= 72 for l in un(r).split(b"\n"))
            else "got %s" % r[:200], b)
        if b:
            t = base64.b64encode(b)
            if rng.random() < 0.5:
                p = rng.randint(0, len(t))
                t = t[:p] + rng.choice([b"\n", b"\r\n", b" "]) + t[p:]
            add("base64_decode", "B %s n" % hx(t), lambda r, b=b: None if r != "E" and un(r) == b else "got %s" % r[:200], t)
            b3 = b[:len(b) // 3 * 3]
            if b3:
                add("base64url_decode", "B %s u" % hx(base64.urlsafe_b64encode(b3)), lambda r, b=b3: None if r != "E" and un(r) == b else "got %s" % r[:200], b3)
        t = bytes(rng.choice(b"AQgwZz09+/-_=\n\0\xff") for _ in range(rng.randint(1, 40)))
        add("base64_hostile", "B %s %s" % (hx(t), rng.choice("nu")), lambda r: None, t)
        s, p, host, port, e = uri(rng)
        w = "K p=%s h=%s port=%d e=%s" % (p.encode().hex() if p else "~", host.encode().hex() if host else "~", port, hx(e.encode()))
        add("uri", "U " + hx(s.encode()), lambda r, w=w: None if r == w else "got %s expected %s" % (r, w), s)
        if rng.random() < 0.3:
            s = rng.choice([badport(rng), "ftp://h/x", "://h/", "httpx://h", "http//h\x01", "http://-h/", "http://h\x7f", "http://a b/", "http://", "xhttp://h/", "htt://h"])
            if s not in ("http://h:/", "http://h:/a") or True:
                add("uri_bad", "U " + hx(s.encode()), lambda r: None if r == "E" else "accepted: " + r, s)
        m = bytearray(uri(rng)[0].encode())
        for _ in range(rng.randint(1, 4)):
            if m:
                m[rng.randrange(len(m))] = rng.choice(b":/?-.%a0\0\xff")
                if rng.random() < 0.5:
                    del m[rng.randrange(len(m))]
        add("uri_hostile", "U " + hx(bytes(m) or b"x"), lambda r: None, bytes(m))
        ep, q = text(rng, rng.randint(1, 20)).replace(b"?", b""), text(rng, rng.randint(0, 20)) if rng.random() < 0.7 else None
        enc = up.quote(ep, safe="/").encode()
        if enc:
            full = enc + (b"" if q is None else b"?" + q)
            add("split", "s " + hx(full), lambda r, ep=ep, q=q: None if r.strip() == "e=%s q=%s" % (hx(ep), hx(q or b"")) else "got %s" % r, full)
        # form data
        fl = []
        for i in range(rng.choice([0, 1, 1, 2, 3, 6])):
            nm = ("f%d" % i).encode() + (text(rng, rng.randint(0, 6)).replace(b"\0", b"z") if rng.random() < 0.5 else b"")
            fl.append((nm, text(rng, rng.randint(0, 12))))
        js = all(ok(a) and ok(b) for a, b in fl)

        def jf(r, fl=fl, js=js):
            t = r.split()
            if len(t) != 3:
                return "got %s" % r
            got = [tuple(up.unquote_to_bytes(x) for x in (p.partition(b"=")[0], p.partition(b"=")[2])) for p in un(t[0]).split(b"&")] if fl else []
            if got != fl:
                return "urlencoded %r expected %r" % (un(t[0]), fl)
            raw = b"&".join(a + (b"=" + b if b else b"") for a, b in fl)
            if un(t[1]) != raw:
                return "raw %r expected %r" % (un(t[1]), raw)
            if js:
                try:
                    o = json.loads(un(t[2]), object_pairs_hook=list)
                except ValueError as x:
                    return "JSON %r: %s" % (un(t[2]), x)
                w = [(a.decode(), b.decode()) for a, b in fl]
                if list(map(tuple, o)) != w:
                    return "JSON %r expected %r" % (o, w)
            return None
        add("form", "f " + " ".join(hx(a) + " " + hx(b) for a, b in fl), jf, fl)
        ctx.distinct(("u", len(b), len(s), len(fl), p, len(e)))
    for _ in range(n):
        nm = rng.choice([b"Content-Type", b"content-disposition", b"Connection", b"Accept", b"Content-Length", b"Host", b"X-a", b"Authorization", b"alt-svc", b"Date", b"Location"])
        v = text(rng, rng.randint(1, 40)) if rng.random() < 0.5 else b"".join(rng.choice([b"a", b"b/c", b";", b",", b"=", b'"', b"(", b")", b" ", b"\\", b"\t", b"1", b"q=0.5", b"Basic ", b"YTpi", b'h2=":1"', b"; ma=3"]) for _ in range(rng.randint(1, 10)))
        add("header_hostile", "h %s %s" % (hx(nm), hx(v)), lambda r: None, v)
    for (kind, j, info), r, c in zip(want, ctx.drv("http", cmds), cmds):
        if r is None:
            continue
        ctx.count()
        ctx.stat(kind)
        if kind.endswith("hostile") and r[:1] in "KE":
            ctx.stat(kind + "_" + r[0])
        w = j(r.rstrip())
        if w:
            ctx.violation("http-util:" + kind, "%s\ninput %r\ncommand %s" % (w[:1500], info, c[:1500]), "echo '%s' | h_http" % c[:20000])
        elif ctx.evals % 4000 == 1:
            ctx.sample("%s %r" % (kind, info))
    ctx.rule = "one evaluation per call of an encoder, decoder or parser; distinct: combinations of input lengths and protocols"
    for k in ("percent_encode", "percent_decode", "quote", "unquote", "base64_encode", "base64_decode", "base64url_decode", "uri", "uri_bad", "split", "form"):
        ctx.require(k, 500)


def ok(b):
    """text which a JSON string can hold and which is not cut at a NUL"""
    try:
        return b"\0" not in b and bool(b.decode())
    except UnicodeDecodeError:
        return False
