"""HTTP server module: every request becomes exactly the messages the settings ask for, and is answered once, in order, with its own response."""
import collections, os, random, struct, subprocess, tempfile, threading, time, zlib, hashlib
import e2e as E
import m_http as H
import m_array as A
import m_wire as W
from checks import c07_array_msg as C07
from checks.c20_msgdb import Stop

TECHNIQUE = "runtime monitoring: HTTP clients and a responding instance around the real server, reference model of request messages and responses compared online; ASan/UBSan/TSan daemons"
NOTE = "Plain transport, HTTP/1.0 and 1.1 with raw sockets, HTTP/2 with node's client; requests the parser refuses are only checked to do no harm."
POOL = [b"alpha", b"beta", b"Gamma", b"id2"]


def split_header(v):
    """value and parameters as the server separates them"""
    p = [x.strip(b" \t") for x in v.split(b";")]
    d = {}
    for x in p[1:]:
        k, _, y = x.partition(b"=")
        d[k.strip(b" \t").lower()] = y.strip(b' \t').strip(b'"')
    return p[0], d


def els_field(name, v, ct):
    nm = name.replace(b"\0", b"N")[:255]
    if ct and ct.lower() == b"application/rrr-message" and v:
        return A.El("msg", 0, 1, nm, v, 0)
    return A.El("str", 0, 1, nm, v or b"", 0)


def pack(els):
    out = b""
    for e in els:
        t, d = e.tag, e.data
        if e.ident == "h":
            d = struct.pack(">Q", struct.unpack("<Q", d)[0])
        elif e.ident == "fixp":
            d = struct.pack(">Q", struct.unpack("<Q", d)[0])
        out += struct.pack(">BBIII", C07.TID["be"] if e.ident == "h" else C07.TID[e.ident], e.flags, len(t), len(d), e.count) + t + d
    return out


def el_u(tag, v):
    return A.El("h", 0, 1, tag, struct.pack("<Q", v), 0)


def el_s(tag, v):
    return A.El("str", 0, 1, tag, v, 0)


def el_js(k, v):
    k = k.encode().replace(b"\0", b"N")
    if isinstance(v, bool):
        return A.El("h", 0, 1, k, struct.pack("<Q", v), 0)
    if isinstance(v, int):
        return A.El("h", 1, 1, k, struct.pack("<q", v), 0)
    if isinstance(v, float):
        return A.El("fixp", 0, 1, k, struct.pack("<q", int(v * 2 ** 24)), 0)
    if v is None:
        return A.El("vain", 0, 1, k, b"", 0)
    return el_s(k, v.encode())


def unpct(b):
    o, i = bytearray(), 0
    while i < len(b):
        if b[i] == 37:
            o.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            o.append(b[i])
            i += 1
    return bytes(o)


class Resp:
    """one response message of the responder and what the client has to get"""

    def __init__(self, r, head):
        self.code, self.body, self.ctype, self.els, self.plain = None, b"", None, [], None
        k = r.random()
        if k < 0.15:
            self.plain = r.randbytes(r.choice([0, 1, 10, 300, 3000]))
            self.body = self.plain
            self.ctype = b"application/octet-stream"
        else:
            bt = r.choice(["none", "str", "str", "blob", "blob", "msg", "h", "fixp", "vain"])
            if bt == "str":
                self.body = r.choice([b"", b"x", b"text \xc3\xa6\xe2\x82\xac", b"a\0b", r.randbytes(500), b"z" * r.choice([2000, 70000])])
                self.els.append(el_s(b"http_body", self.body))
                self.ctype = b"text/plain"
            elif bt == "blob":
                self.body = r.randbytes(r.choice([1, 2, 100, 5000]))
                self.els.append(A.El("blob", 0, 1, b"http_body", self.body, 0))
                self.ctype = b"application/octet-stream"
            elif bt == "msg":
                self.body = W.msg(1, 1, r.getrandbits(40), b"some/topic", r.randbytes(20))
                self.els.append(A.El("msg", 0, 1, b"http_body", self.body, 0))
                self.ctype = b"application/rrr-message"
            elif bt == "h":
                v = r.choice([0, 1, 2 ** 63 - 1, r.getrandbits(40)])
                self.body = b"%d" % v
                self.els.append(el_u(b"http_body", v))
                self.ctype = b"text/plain"
            elif bt == "fixp":
                v = r.choice([0.5, 3.25, 17.0])
                self.body = v
                self.els.append(A.El("fixp", 0, 1, b"http_body", struct.pack("<q", int(v * 2 ** 24)), 0))
                self.ctype = b"text/plain"
            elif bt == "vain":
                self.els.append(A.El("vain", 0, 1, b"http_body", b"", 0))
            c = r.random()
            if c < 0.4:
                self.code = r.choice([200, 201, 202, 204, 206, 301, 400, 401, 404, 418, 500, 503, 599, 0, 99, 600, 2 ** 40, r.randrange(200, 600)])
                if self.code in (205, 304):
                    self.code = 404
                self.els.append(el_u(b"http_response_code", self.code) if r.random() < 0.6 else el_s(b"http_response_code", b"%d" % self.code))
            c = r.random()
            if c < 0.3:
                ct = r.choice([b"text/html", b"application/json; charset=utf-8", b"x/y", b""])
                self.els.append(el_s(b"http_content_type", ct))
                self.ctype = ct or None
            if r.random() < 0.3:
                self.els.append(el_s(b"something_else", b"value"))
            if not self.els:
                self.els.append(el_s(b"nothing", b"of interest"))
            r.shuffle(self.els)
        if not self.body:
            self.ctype = None
        default = [200] if self.body else [204]
        if self.code is None:
            self.codes = default
        elif not 100 <= self.code <= 599:
            self.codes = [200] if self.body else [200, 204]
        elif self.code == 204:
            self.codes = default
        else:
            self.codes = [self.code]

    def dump(self):
        return repr(self.plain)[:300] if self.plain is not None else " ".join("%s:%s:%r" % (e.ident, e.tag.decode(), e.data[:100]) for e in self.els)

    def msg(self, topic):
        ts = int(time.time() * 1e6)
        if self.plain is not None:
            return W.msg(1, 1, ts, topic, self.plain)
        return W.msg(1, 11, ts, topic, pack(self.els), ver=7)


class Req:
    pass


class Http:
    def __init__(self, ctx, seed, variant, kind=None):
        self.ctx, self.seed, self.variant = ctx, seed, variant
        r = self.r = random.Random(seed)
        yn = lambda p: r.random() < p
        self.async_ = yn(0.5) if kind is None else kind == "async"
        self.full = self.async_ or yn(0.6)
        self.allow_empty = yn(0.7)
        self.decode = self.full and yn(0.4)
        self.accept_any = yn(0.4)
        self.accept = {}
        if not self.accept_any and yn(0.8):
            self.accept = {b"id": b"id"}
            for nm in POOL:
                if yn(0.6):
                    self.accept[nm] = nm if yn(0.5) else b"new_" + nm
        self.no_body_parse = yn(0.25)
        self.topic_req = yn(0.5)
        self.test_page = yn(0.3)
        self.favicon = yn(0.5)
        self.origin = r.choice([None, None, "*", "https://x.example.org"])
        self.cache = r.choice([None, None, "no-store", "max-age=10, private"])
        self.timeout = 3000 if self.async_ and yn(0.4) else 0 if yn(0.2) else 60000
        self.port = E.free_port()
        c = "[src]\nmodule=socket\nsocket_path=@DIR@/in.sock\nsocket_receive_rrr_message=yes\n"
        c += "[hs]\nmodule=httpserver\nsenders=src\nhttp_server_port_plain=%d\n" % self.port
        flag = lambda k, v: "http_server_%s=%s\n" % (k, "yes" if v else "no") if v or yn(0.2) else ""
        c += flag("get_response_from_senders", self.async_)
        if self.full and (not self.async_ or yn(0.3)):
            c += "http_server_receive_full_request=yes\n"
        c += flag("allow_empty_messages", self.allow_empty) + flag("fields_accept_any", self.accept_any) + flag("no_body_parse", self.no_body_parse)
        if self.decode:
            c += "http_server_decode_endpoint=yes\n"
        c += flag("test_page_default_response", self.test_page) + flag("favicon_not_found_response", self.favicon)
        if self.accept:
            c += "http_server_fields_accept=" + ",".join((k if k == v else k + b"->" + v).decode() for k, v in self.accept.items()) + "\n"
        if self.topic_req or yn(0.3):
            c += "http_server_topic_format=%s\n" % ("request" if self.topic_req else "simple")
        if self.origin:
            c += "http_server_allow_origin_header=%s\n" % self.origin
        if self.cache:
            c += "http_server_cache_control_header=%s\n" % self.cache
        if self.async_:
            c += "http_server_response_timeout_ms=%d\n" % self.timeout
        c += "[out]\nmodule=vfsink\nsenders=hs\nvfsink_file=@DIR@/out\n"
        self.conf = c
        self.d = E.Daemon(ctx, c, variant, args=("-d", os.environ.get("VF_DBG", "1")), leaks=False)
        self.s = self.d.connect(self.d.path("in.sock"))
        self.s_time = time.time()
        self.s_lock = threading.Lock()
        self.sink = self.d.sink()
        self.reqs, self.ids, self.lock = {}, {}, threading.Lock()
        self.problems = []
        self.stop = False
        self.serial = 0

    def bad(self, key, text):
        self.ctx.violation("httpserver:" + key, "seed %d variant %s\n%s\nconfiguration:\n%s\ndaemon log:\n%s" % (
            self.seed, self.variant, text, self.conf, self.d.text()[-3000:]), "VF_HTTPD=%d VF_VARIANT=%s python3 -m vf.run C23" % (self.seed, self.variant))
        raise Stop()

    def push(self, m):
        with self.s_lock:
            if time.time() - self.s_time > 25:
                self.s.close()
                self.s = self.d.connect(self.d.path("in.sock"))
            self.s_time = time.time()
            self.s.sendall(m)

    # ---- requests and what they have to cause
    def make(self, rng):
        with self.lock:
            self.serial += 1
            tag = b"t%d" % self.serial
        q = Req()
        while True:
            m = q.m = H.request(rng, small=True, tag=tag)
            if not any(n.lower() in (b"connection",) and v.lower() == b"something" for n, v in m.headers):
                break
        q.tag, q.rng = tag, rng
        q.special = None
        hd = []
        if rng.random() < 0.15:
            hd.append((b"Access-Control-Request-Headers", rng.choice([b"x-foo", b"X-A, X-B", b"content-type"])))
        if rng.random() < 0.2:
            hd.append((b"Accept-Encoding", rng.choice([b"gzip", b"deflate, gzip", b"gzip, br", b"br", b"identity"])))
        if rng.random() < 0.1 and m.method in ("POST", "PUT", "PATCH"):
            hd.append((b"Content-Transfer-Encoding", rng.choice([b"binary", b"base64"])))
        if hd:
            m.headers = m.headers + hd
            a, b = m.wire.split(b"\r\n\r\n", 1)
            m.wire = a + b"".join(b"\r\n" + n + b": " + v for n, v in hd) + b"\r\n\r\n" + b
        if rng.random() < 0.03 and m.method in ("GET", "HEAD", "OPTIONS", "DELETE"):
            uri = b"/favicon.ico"
            m.wire = m.wire.replace(b" " + m.uri + b" ", b" " + uri + b" ", 1)
            m.uri = m.path = uri
            m.fields = m.query = []
        self.expect(q)
        return q

    def hget(self, m, name):
        return next((v.strip(b" \t") for n, v in m.headers if n.lower() == name), None)

    def expect(self, q, proto=1):
        m = q.m
        q.head = m.method == "HEAD"
        q.options = m.method == "OPTIONS"
        q.fav = self.favicon and m.uri == b"/favicon.ico" and not q.options
        q.msgs = []
        if not q.options and not q.fav:
            els = []
            body = m.body
            ct = self.hget(m, b"content-type")
            if self.full and (body or self.allow_empty):
                els += [el_u(b"http_protocol", proto), el_s(b"http_method", m.method.encode())]
                if self.decode:
                    a, _, b = m.uri.partition(b"?")
                    els.append(el_s(b"http_endpoint", unpct(a)))
                    if b:
                        els.append(el_s(b"http_query_string", b))
                else:
                    els.append(el_s(b"http_endpoint", m.uri))
                blob = False
                if ct:
                    v, par = split_header(ct)
                    els.append(el_s(b"http_content_type", v))
                    if v.lower() == b"multipart/form-data":
                        els.append(el_s(b"http_content_type_boundary", par.get(b"boundary", b"")))
                    blob = v.lower() == b"application/octet-stream"
                cte = self.hget(m, b"content-transfer-encoding")
                if cte:
                    els.append(el_s(b"http_content_transfer_encoding", cte))
                host = self.hget(m, b":authority") or self.hget(m, b"host")
                if host:
                    els.append(el_s(b"http_authority", host))
                if body:
                    els.append(A.El("blob" if blob else "str", 0, 1, b"http_body", body, 0))
            fields = m.fields
            arrs = m.jarrs
            if self.no_body_parse:
                fields, arrs = m.query, []
            for f in fields:
                nm, v, fct = f[0], f[1], f[2] if len(f) > 2 else None
                if self.accept_any:
                    els.append(els_field(nm, v, fct))
                elif nm in self.accept:
                    els.append(els_field(self.accept[nm], v, fct))
            if arrs:
                els = [el_u(b"http_request_partials", len(arrs))] + els
                q.msgs = [els + [el_js(k, v) for k, v in a] for a in arrs]
            elif els or self.allow_empty:
                q.msgs = [els]
            q.bodies = [pack(e) if e else None for e in q.msgs]
        else:
            q.bodies = []
        # the response
        q.plan = None
        if self.async_ and not q.options and not q.fav:
            rng = q.rng
            q.plan = rng.choice(["one"] * 8 + ["decoys", "decoys", "dup"] + (["none", "late"] if self.timeout == 3000 and rng.random() < 0.3 else []))
            if not q.bodies:
                q.plan = "none" if self.timeout == 3000 else "unasked"
            q.resp = Resp(rng, q.head)
            q.delay = rng.choice([0, 0, 0, 0.001, 0.01, 0.05, 0.15])

    def topic(self, q, uid):
        t = b"httpserver/request/" + uid
        if self.topic_req:
            host = self.hget(q.m, b":authority") or self.hget(q.m, b"host") or b""
            t += b"/" + q.m.method.encode() + b"/" + host + q.m.uri.partition(b"?")[0]
        return t

    # ---- the responding instance
    def responder(self):
        seen = 0
        jobs = []
        dec = 0
        try:
            while not self.stop:
                msgs = self.sink.poll()
                for x in msgs[seen:]:
                    self.on_message(x, jobs)
                seen = len(msgs)
                now = time.time()
                for j in [j for j in jobs if j[0] <= now]:
                    jobs.remove(j)
                    for m in j[1]:
                        self.push(m)
                    if j[2]:
                        j[2].sent_at = time.time()
                time.sleep(0.002)
        except Stop:
            pass
        except OSError as e:
            if not self.stop:
                self.problems.append(("responder", str(e)))

    def find(self, x):
        p = x.topic.split(b"/")
        if p[:2] != [b"httpserver", b"request"] or len(p) < 3 or not p[2].isdigit():
            return None, None
        uid = p[2]
        if uid in self.ids:
            return uid, self.ids[uid]
        # by what is in it: the tag is in the endpoint and in the query string
        with self.lock:
            for q in self.reqs.values():
                if not q.got and not q.assigned and q.bodies and self.topic(q, uid) == x.topic and (x.data == (q.bodies[0] or b"")):
                    return uid, q
        return uid, None

    def on_message(self, x, jobs):
        uid, q = self.find(x)
        if q is None:
            # a message which differs in something: point at the request in question
            with self.lock:
                cand = [q for q in self.reqs.values() if b"/" + q.tag + b"/" in x.data + x.topic + b"/" or b"id" in x.data and q.tag + b"\x0b" in x.data]
            why = "no request of that kind is outstanding"
            if cand:
                q = cand[0]
                why = "the request was\n%r\nexpected topic %r\nexpected arrays %s\ngot            %s" % (q.m.wire[:2500], self.topic(q, uid or b"?"), [b.hex() if b else b for b in q.bodies], x.data.hex())
            self.problems.append(("message", "message with topic %r class %d data %r: %s" % (x.topic, x.cl, x.data[:600], why[:9000])))
            raise Stop()
        first = uid not in self.ids
        self.ids[uid] = q
        q.assigned = uid
        want = q.bodies[len(q.got)] if len(q.got) < len(q.bodies) else "nothing more"
        if want == "nothing more" or x.data != (want or b"") or x.cl != (11 if want else 1) or x.ty != 1 or x.topic != self.topic(q, uid):
            self.problems.append(("message", "request\n%r\nmessage %d: topic %r class %d\n%s\nwant topic %r\n%s" % (
                q.m.wire[:2500], len(q.got) + 1, x.topic, x.cl, x.data.hex(), self.topic(q, uid), want if isinstance(want, str) else want.hex() if want else want)))
            raise Stop()
        if not q.t_send * 1e6 - 1 <= x.ts <= time.time() * 1e6 + 1:
            self.problems.append(("timestamp", "timestamp %d of message for request sent at %d" % (x.ts, q.t_send * 1e6)))
            raise Stop()
        q.got.append(x)
        self.ctx.stat("messages")
        if len(q.got) == len(q.bodies) and self.async_:
            self.answer(q, uid, jobs)

    def answer(self, q, uid, jobs):
        t = self.topic(q, uid) if self.topic_req else b"httpserver/request/" + uid
        if self.topic_req and q.rng.random() < 0.2:
            t = b"httpserver/request/" + uid + q.rng.choice([b"/x", b"/x/y/z"])
        m = q.resp.msg(t)
        now = time.time()
        if q.plan == "none":
            return
        if q.plan == "late":
            jobs.append((now + 3.6, [m], None))
            return
        out = [m]
        if q.plan == "decoys":
            o = Resp(q.rng, False)
            n = int(uid)
            ts = [b"httpserver/request/%d" % (n + 10 ** 9), b"httpserver/request/%d/a" % (n + 10 ** 9), b"x/" + t, b"", b"httpserver/request", b"+/+/+", b"#", b"httpserver/request/+", b"httpserver/request/#", b"httpserver/request/" + uid + b"1234567",
                  b"/httpserver/request/" + uid, b"httpserver/request/0" + uid, b"httpserver//request/" + uid, b"httpserver/websocket/" + uid + b"/x"]
            ts.append(b"httpserver/request/" + uid + (b"" if self.topic_req else b"/x"))
            out = [o.msg(x) for x in q.rng.sample(ts, 4)] + out
        if q.plan == "dup":
            out.append(Resp(q.rng, False).msg(t))
        jobs.append((now + q.delay, out, q))

    # ---- client
    def read_response(self, f, q):
        line = f.readline()
        if not line.endswith(b"\r\n"):
            return None, "end of connection (%r) instead of a status line" % line
        hd = []
        while True:
            l = f.readline()
            if not l.endswith(b"\r\n"):
                return None, "end of connection inside header (%r)" % l
            if l == b"\r\n":
                break
            n, _, v = l[:-2].partition(b":")
            hd.append((n.lower(), v.strip()))
        p = line[:-2].split(b" ", 2)
        if len(p) < 3 or p[0] != b"HTTP/" + q.m.version or not p[1].isdigit():
            return None, "status line %r" % line
        code = int(p[1])
        h = dict(hd)
        if len(h) != len(hd):
            return None, "repeated header in response %s" % hd
        if b"transfer-encoding" in h:
            return None, "transfer-encoding in response"
        if code != 204 and b"content-length" not in h:
            return None, "no content-length in response %d" % code
        n = int(h.get(b"content-length", b"0"))
        body = b""
        if not q.head and code not in (204, 304):
            body = f.read(n)
            if len(body) != n:
                return None, "connection ended within the body (%d of %d)" % (len(body), n)
        return (code, h, body, n), None

    def judge(self, q, code, h, body, n, h2=False):
        def no(t):
            return "response to\n%r\n%s\nstatus %d header %s body %r" % (q.m.wire[:1500], t, code, h, body[:300])
        m = q.m
        now = time.time()
        if not h2:
            want = b"keep-alive" if m.conn == "keep" else b"close"
            if h.get(b"connection") != want:
                return no("connection header is not %r" % want)
        if (h.get(b"access-control-allow-origin") or None) != (self.origin.encode() if self.origin else None):
            return no("access-control-allow-origin is not %s" % self.origin)
        if h.get(b"cache-control") != (self.cache.encode() if self.cache else None):
            return no("cache-control is not %s" % self.cache)
        acr = self.hget(m, b"access-control-request-headers")
        got = h.get(b"access-control-allow-headers")
        if (acr is None) != (got is None) or acr and got.replace(b" ", b"") != acr.replace(b" ", b"") and got != acr.split(b",")[0]:
            return no("access-control-allow-headers is not %s" % acr)
        plain = body
        ln = n
        if h.get(b"content-encoding") == b"gzip":
            if b"gzip" not in (self.hget(m, b"accept-encoding") or b""):
                return no("gzip not accepted by client")
            if not q.head:
                try:
                    plain = zlib.decompress(body, 31)
                except zlib.error:
                    return no("body is not gzip data")
            ln = None
            self.ctx.stat("gzip_bodies")
        elif b"content-encoding" in h:
            return no("content-encoding")
        if q.options or not self.async_ and not q.fav and not self.test_page:
            if code != 204 or plain:
                return no("want 204")
        elif q.fav:
            if code != 404 or plain:
                return no("want 404")
        elif not self.async_:
            if code != 200 or not q.head and (b"<title>RRR" not in plain or not plain.endswith(b"</html>\r\n")):
                return no("want test page")
        else:
            el = now - q.t_send
            if code == 504 and (q.plan in ("none", "late")):
                if el < self.timeout / 1000 - 0.01:
                    return no("504 after %.3f s" % el)
                self.ctx.stat("timeouts")
                return None
            if q.plan in ("none", "late", "unasked"):
                return no("nobody responded to this request")
            if code == 504 and q.resp.codes != [504]:
                if el < self.timeout / 1000 - 0.01 or not self.timeout:
                    return no("504 after %.3f s" % el)
                if q.sent_at and now - q.sent_at < 1.5 or not q.sent_at and el < self.timeout / 1000 + 1:
                    self.ctx.stat("slow")
                    return None
                return no("504, but the response had been sent %.3f s before" % (now - (q.sent_at or now)))
            rs = q.resp
            if code not in rs.codes:
                return no("want status %s; response array %s" % (rs.codes, rs.dump()))
            if isinstance(rs.body, float):
                if not q.head:
                    try:
                        same = float(plain) == rs.body
                    except ValueError:
                        same = False
                    if not same:
                        return no("want body %s" % rs.body)
            elif not q.head and plain != rs.body:
                return no("want body %r (%d bytes, got %d); response array %s" % (rs.body[:300], len(rs.body), len(plain), rs.dump()))
            elif q.head and ln is not None and code != 204 and ln not in (0, len(rs.body)):
                return no("want content-length %d" % len(rs.body))
            ct = h.get(b"content-type")
            if ct != rs.ctype:
                return no("want content-type %s; response array %s" % (rs.ctype, rs.dump()))
        self.ctx.stat("responses")
        self.ctx.distinct((code, m.method, m.fmt, q.plan, len(q.bodies)))
        return None

    def client(self, seed, nconn):
        try:
            self.client_(seed, nconn)
        except Stop:
            pass
        except Exception:
            import traceback
            self.problems.append(("harness", traceback.format_exc()))

    def client_(self, seed, nconn):
        rng = random.Random(seed)
        for c in range(nconn):
            if self.problems or self.stop:
                return
            s = self.d.connect(("127.0.0.1", self.port))
            s.settimeout(40)
            f = s.makefile("rb")
            hist, pend, close = [], [], False
            total = rng.choice([1, 2, 5, 12])
            done = 0
            while done < total and not close and not self.problems:
                k = rng.choice([1, 1, 2, 3, 6])
                wire = b""
                for _ in range(k):
                    q = self.make(rng)
                    if q.plan == "unasked":
                        continue
                    q.got, q.assigned, q.sent_at, q.t_send = [], None, 0, time.time()
                    pend.append(q)
                    with self.lock:
                        self.reqs[q.tag] = q
                    wire += q.m.wire
                    if q.m.conn == "close":
                        close = True
                        break
                last = 0
                try:
                    for cut in H.cuts(rng, len(wire)) if wire else []:
                        s.sendall(wire[last:cut])
                        last = cut
                        if rng.random() < 0.1:
                            time.sleep(rng.choice([0.001, 0.01]))
                except OSError as e:
                    self.problems.append(("connection", "%s while sending %r" % (e, [q.m.wire[:800] for q in pend])))
                    return
                while pend:
                    q = pend.pop(0)
                    try:
                        res, why = self.read_response(f, q)
                    except OSError as e:
                        res, why = None, str(e)
                    if res is None:
                        self.problems.append(("response", "%s\nrequest %r\n%s" % (why, q.m.wire[:3000], "plan %s uid %s got %d of %d pushed %.3f sent %.3f now %.3f %s" % (q.plan, q.assigned, len(q.got), len(q.bodies), q.sent_at, q.t_send, time.time(), q.resp.dump()) if q.plan else "")))
                        return
                    no = self.judge(q, *res)
                    hist.append((q.m.method, q.m.uri[:60], q.m.version, q.m.conn, q.plan, res[0]))
                    if no:
                        no += "\nearlier on this connection: %s\nuid %s; pushed %s" % (hist[-6:], q.assigned, q.sent_at)
                        self.problems.append(("response", no))
                        return
                    self.ctx.count()
                    done += 1
                    q.answered = True
                    # messages are written before the response is
                    t = time.time()
                    while len(q.got) < len(q.bodies) and time.time() - t < 20 and not self.problems:
                        time.sleep(0.005)
                    if len(q.got) < len(q.bodies) and not self.problems:
                        self.problems.append(("missing", "%d of %d messages for request %r\nexpected %s" % (len(q.got), len(q.bodies), q.m.wire[:2000], [b.hex() if b else b for b in q.bodies])))
                        return
                    with self.lock:
                        if q.assigned or not q.bodies:
                            self.reqs.pop(q.tag, None)
            if close and not self.problems:
                try:
                    x = f.read(1)
                except OSError:
                    x = b""
                if x:
                    self.problems.append(("response", "data %r after the response to a request with connection: close" % x))
                    return
                self.ctx.stat("closed_by_server")
            f.close()
            s.close()

    def run(self, nthreads, nconn):
        c = self.ctx
        try:
            rt = threading.Thread(target=self.responder, daemon=True)
            rt.start()
            th = [threading.Thread(target=self.client, args=(self.seed * 1000 + i, nconn), daemon=True) for i in range(nthreads)]
            for t in th:
                t.start()
            for t in th:
                t.join(240)
                if t.is_alive():
                    self.problems.append(("hang", "clients do not finish"))
            n = len(self.sink.poll())
            time.sleep(0.3)
            if len(self.sink.poll()) != n and not self.problems:
                self.problems.append(("extra", "messages after the last response"))
            self.stop = True
            rt.join(5)
            if self.problems:
                time.sleep(0.5)
                if self.d.p.poll() is None and "ERROR: " not in self.d.text():  # a crash explains the rest: it is reported by stop()
                    k, t = self.problems[0]
                    try:
                        self.bad(k, t)
                    except Stop:
                        pass
            ids = sorted(int(x) for x in self.ids)
            if len(set(ids)) != len(ids):
                self.problems.append(("ids", "unique ids repeated"))
            if self.accept:
                c.stat("rounds_with_accept_list")
            c.stat("rounds_async" if self.async_ else "rounds_default")
        except E.NotUp as e:
            self.problems.append(("not-up", str(e)))
        finally:
            self.stop = True
            nb = len(self.problems)
            dead = self.d.p.poll() is not None
            t = self.d.stop()
            if nb and dead and not self.d.bad:
                try:
                    self.bad("ended", "the daemon ended: %s" % str(self.problems[0])[:5000])
                except Stop:
                    pass


class Hostile:
    """requests and responses no one should send: each may cost its own connection, nothing else"""

    def __init__(self, ctx, seed, variant):
        self.ctx, self.seed, self.variant = ctx, seed, variant
        self.r = random.Random(seed)
        self.port = E.free_port()
        self.asyn = seed % 3 != 0
        c = "[src]\nmodule=socket\nsocket_path=@DIR@/in.sock\nsocket_receive_rrr_message=yes\n"
        c += "[hs]\nmodule=httpserver\nsenders=src\nhttp_server_port_plain=%d\nhttp_server_allow_empty_messages=yes\nhttp_server_fields_accept_any=yes\n" % self.port
        c += "http_server_topic_format=request\nhttp_server_decode_endpoint=yes\nhttp_server_receive_full_request=yes\n"
        if self.asyn:
            c += "http_server_get_response_from_senders=yes\nhttp_server_response_timeout_ms=1000\n"
        self.conf = c + "[out]\nmodule=vfsink\nsenders=hs\nvfsink_file=@DIR@/out\n"
        self.d = E.Daemon(ctx, self.conf, variant, leaks=False)
        self.sink = self.d.sink()
        self.done = []

    def send(self, raw, resp=None, wait=2.0):
        n = len(self.sink.poll())
        k = self.d.connect(("127.0.0.1", self.port))
        k.settimeout(0.02)
        out, t0, pushed, topic = b"", time.time(), False, None
        try:
            k.sendall(raw)
            while time.time() - t0 < wait:
                try:
                    b = k.recv(65536)
                    if not b:
                        break
                    out += b
                    if b"\r\n\r\n" in out:
                        break
                except TimeoutError:
                    pass
                if resp and not pushed:
                    ms = self.sink.poll()
                    if len(ms) > n:
                        topic = ms[-1].topic
                        s = self.d.connect(self.d.path("in.sock"))
                        s.sendall(resp(topic))
                        s.close()
                        pushed = True
        except OSError:
            pass
        k.close()
        return out, topic

    def arr(self, els):
        return lambda t: W.msg(1, 11, int(time.time() * 1e6), t, pack(els), ver=7)

    def case(self):
        r = self.r
        big = b"a" * r.choice([60000, 65500, 65535, 65536, 70000, 300000])
        get = lambda uri, m=b"GET", host=b"x": m + b" " + uri + b" HTTP/1.1\r\nHost: " + host + b"\r\n\r\n"
        k = r.randrange(16 if self.asyn else 9)
        if k == 0:
            return get(b"/" + big), None
        if k == 1:
            return get(r.choice([b"*", b"foo", b"?a=b", b"http://a/b", b"a:80", b"#x", b"%2f", b"%", b"+", b"//", b"/%00x", b"/#", b"/+/x", b"/%2", b"/%zz"]), r.choice([b"GET", b"OPTIONS", b"POST", b"CONNECT", b"X"])), None
        if k == 2:
            return get(b"/", host=big), None
        if k == 3:
            return get(b"/a", host=r.choice([b"a\0b", b"", b"\xff\xfe", b"a b", b"#", b"+/#"])), None
        if k == 4:
            part = r.choice([b"garbage", W.msg(1, 1, 1, b"a", b"b")[:-1], W.msg(1, 1, 1, b"a", b"b") + b"x", b"", r.randbytes(40), b"\0" * 40, W.msg(1, 1, 1, b"t" * 3000, b"")[:60]])
            b = b"--BB\r\nContent-Disposition: form-data; name=\"m\"\r\nContent-Type: application/rrr-message\r\n\r\n" + part + b"\r\n--BB--\r\n"
            return b"POST /m HTTP/1.1\r\nHost: x\r\nContent-Type: multipart/form-data; boundary=BB\r\nContent-Length: %d\r\n\r\n" % len(b) + b, None
        if k == 5:
            return get(b"/x?" + b"&".join(b"%s=%s" % (big[:300], b"v") for _ in range(20))), None
        if k == 6:
            return b"".join(r.choice([b"GET", b"G\0T", b"POST"]) + b" " + r.randbytes(r.randrange(1, 20)).replace(b"\r", b"x").replace(b"\n", b"y") + b" HTTP/1.1\r\nHost: x\r\n\r\n" for _ in range(3)), None
        if k == 7:
            b = r.choice([b"[" * 5000, b"{}" * 10, b'{"a":[{"b":1},{"b":2}]}', b"[1,2", b"\xff", b"null", b'{"' + big + b'":1}', b"1e999999"])
            return b"POST /j HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n" % len(b) + b, None
        if k == 8:
            return get(b"/a?id=1&%00=%00&=&&=x&" + r.choice([b"a=%", b"a=%2", b"%=1"])), None
        b = el_s(b"http_body", b"x")
        if k == 9:
            return get(b"/r"), self.arr([b, el_s(b"http_content_type", r.choice([b"a" * 255, b"a" * 256, b"a" * 70000, b"a\0b", b"\xff"]))])
        if k == 10:
            return get(b"/r"), self.arr([A.El(r.choice(["vain", "blob", "str", "sep", "stx"]) , 0, 1, b"http_response_code", b"", 0) if r.random() < 0.3 else A.El(r.choice(["blob", "sep", "str"]), 0, 1, b"http_response_code", r.choice([b"x", b"-1", b"200 ", b"1" * 300, b"0x80"]), 0), b])
        if k == 11:
            junk = r.choice([b"", b"\0", b"garbage!garbage!", r.randbytes(50), pack([b])[:-1], pack([b]) + b"x"])
            return get(b"/r"), lambda t: W.msg(1, 11, 1, t, junk, ver=7)
        if k == 12:
            return get(b"/r"), lambda t: W.msg(2, 11, 1, t, b"", ver=7)
        if k == 13:
            return get(b"/r"), self.arr([A.El("str", 0, 2, b"http_body", b"aabb", 0), A.El("str", 0, 2, b"http_content_type", b"ccdd", 0)])
        if k == 14:
            return get(b"/r"), self.arr([b, b, el_u(b"http_response_code", 200), el_u(b"http_response_code", 404)])
        return get(b"/r"), self.arr([A.El("vain", 0, 1, b"http_content_type", b"", 0), A.El("msg", 0, 1, b"http_response_code", W.msg(1, 1, 1, b"a", b"b"), 0), b])

    def run(self, n):
        c = self.ctx
        last = 0
        try:
            for i in range(n):
                raw, resp = self.case()
                self.done.append((raw[:300], len(raw)))
                self.send(raw, resp, 0.3 if resp is None else 2.5)
                c.count()
                c.stat("hostile")
                if i % 4 == 3 or i == n - 1:
                    for k in range(3):
                        out, topic = self.send(b"GET /ok HTTP/1.1\r\nHost: x\r\n\r\n", self.arr([el_s(b"http_body", b"fine")]) if self.asyn else (lambda t: b""), 20)
                        if not b" 504 " in out[:20]:
                            break
                    uid = int((topic or b"0/0/0").split(b"/")[2])
                    if not out.startswith(b"HTTP/1.1 200 " if self.asyn else b"HTTP/1.1 204 ") or self.asyn and uid <= last:
                        raise E.NotUp("response %r, topic %r to an ordinary request" % (out, topic))
                    last = uid
        except E.NotUp as e:
            if self.d.p.poll() is None:
                c.violation("httpserver:hostile", "seed %d variant %s\n%s\nafter %s\nconfiguration:\n%s\ndaemon log:\n%s" % (
                    self.seed, self.variant, str(e)[:3000], self.done[-5:], self.conf, self.d.text()[-3000:]), "VF_HTTPH=%d VF_VARIANT=%s python3 -m vf.run C23" % (self.seed, self.variant))
        finally:
            dead = self.d.p.poll() is not None
            t = self.d.stop()
            if dead and not self.d.bad:
                c.violation("httpserver:ended", "seed %d: the daemon ended after %s\n%s" % (self.seed, self.done[-3:], t[-3000:]), "VF_HTTPH=%d python3 -m vf.run C23" % self.seed)


def one(ctx, seed, variant, nthreads, nconn):
    x = None
    try:
        x = Http(ctx, seed, variant)
    except E.NotUp as e:
        ctx.violation("httpserver:not-up", "seed %d\n%s" % (seed, e), "VF_HTTPD=%d" % seed)
        return
    x.run(nthreads, nconn)


def check(ctx):
    ctx.rule = "request messages and responses equal those of the model, in count, order, topic and content"
    H.POOL[:] = POOL
    try:
        if os.environ.get("VF_HTTPD"):
            return one(ctx, int(os.environ["VF_HTTPD"]), os.environ.get("VF_VARIANT", "asan"), 4, 8)
        if os.environ.get("VF_HTTPH"):
            return Hostile(ctx, int(os.environ["VF_HTTPH"]), os.environ.get("VF_VARIANT", "asan")).run(24)
        base = ctx.seed * 100000
        for v in ("asan", "tsan"):
            ctx.build(v, "rrr", "modules")
        jobs = [(base + i, "tsan" if i % 5 == 4 else "asan") for i in range(ctx.scale(30, 300))]
        ctx.par(lambda j: one(ctx, j[0], j[1], 4, 6), jobs, workers=6, limit=ctx.scale(300, 3000))
        ctx.par(lambda s: Hostile(ctx, s, "asan").run(24), [base + i for i in range(ctx.scale(6, 60))], workers=6, limit=ctx.scale(120, 1200))
        ctx.require("responses", 500)
        ctx.require("messages", 300)
        ctx.require("hostile", 60)
    finally:
        H.POOL[:] = []
