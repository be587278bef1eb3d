"""WebSocket connections of the HTTP server module: every message of a client becomes one RRR message, responses reach exactly the connection they name, in order."""
import base64, hashlib, os, random, struct, threading, time
import e2e as E
import m_wire as W
from checks.c20_msgdb import Stop

TECHNIQUE = "runtime monitoring: concurrent WebSocket clients and a responding instance around the real server, per connection delivery checked online in both directions; hostile frames; ASan/UBSan/TSan daemons"
NOTE = "Plain transport; close frames need not be answered by the server."
GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"


def frame(rng, op, data, fin=True, mask=True, form=None):
    n = len(data)
    h = bytes([(0x80 if fin else 0) | op])
    m = 0x80 if mask else 0
    form = form or (0 if n < 126 else 1 if n < 65536 else 2)
    h += bytes([m | n]) if form == 0 else bytes([m | 126]) + struct.pack(">H", n) if form == 1 else bytes([m | 127]) + struct.pack(">Q", n)
    if mask:
        k = rng.randbytes(4)
        h += k
        data = bytes(b ^ k[i & 3] for i, b in enumerate(data)) if n < 4096 else (int.from_bytes(data, "big") ^ int.from_bytes((k * (n // 4 + 1))[:n], "big")).to_bytes(n, "big")
    return h + data


def topic_match(f, t):
    f, t = f.split("/"), t.split("/")
    for i, x in enumerate(f):
        if x == "#":
            return len(t) > i
        if i >= len(t) or x != "+" and x != t[i]:
            return False
    return len(f) == len(t)


class Conn:
    """a client and its connection"""

    def __init__(self, ws, rng, uri):
        self.ws, self.rng, self.uri = ws, rng, uri
        self.s = ws.d.connect(("127.0.0.1", ws.port))
        self.s.settimeout(30)
        self.buf = b""
        self.uid = None
        self.sent, self.got = [], []  # messages expected at the sink / seen there
        self.due = []  # responses pushed for this connection
        self.rx, self.pings, self.pongs = [], [], []
        self.eof = False
        self.frag = None

    def upgrade(self, key=None, extra=b""):
        key = base64.b64encode(self.rng.randbytes(16)) if key is None else key
        hs = [b"Host: x", b"Connection: " + self.rng.choice([b"Upgrade", b"upgrade", b"keep-alive, Upgrade"]), b"Upgrade: websocket", b"Sec-WebSocket-Key: " + key, b"Sec-WebSocket-Version: 13"]
        self.rng.shuffle(hs)
        self.s.sendall(b"GET " + self.uri + b" HTTP/1.1\r\n" + b"".join(h + b"\r\n" for h in hs) + extra + b"\r\n")
        while b"\r\n\r\n" not in self.buf:
            b = self.s.recv(65536)
            if not b:
                return None
            self.buf += b
        head, self.buf = self.buf.split(b"\r\n\r\n", 1)
        code = int(head.split(b" ")[1])
        if code == 101:
            h = {}
            for l in head.split(b"\r\n")[1:]:
                k, _, v = l.partition(b":")
                h[k.lower()] = h[k.lower()] + b", " + v.strip() if k.lower() in h else v.strip()
            if h.get(b"sec-websocket-accept") != base64.b64encode(hashlib.sha1(key + GUID).digest()) or h.get(b"upgrade", b"").lower() != b"websocket" or b"upgrade" not in h.get(b"connection", b"").lower():
                self.ws.bad("handshake", "response %r to key %r" % (head, key))
        return code

    def pump(self, t):
        """read for up to t seconds"""
        self.s.settimeout(max(t, 0.001))
        try:
            b = self.s.recv(262144)
            if not b:
                self.eof = True
            self.buf += b
        except TimeoutError:
            pass
        except OSError:
            self.eof = True
        while True:
            b = self.buf
            if len(b) < 2:
                return
            n, p = b[1] & 127, 2
            if b[1] & 128:
                self.ws.bad("masked", "the server masks its frames: %r" % b[:20])
            if n > 125:
                w = 2 if n == 126 else 8
                if len(b) < p + w:
                    return
                n = int.from_bytes(b[p:p + w], "big")
                p += w
                if n < (126 if w == 2 else 65536):
                    self.ws.bad("length", "length not in its shortest form: %r" % b[:20])
            if len(b) < p + n:
                return
            op, fin, d = b[0] & 15, b[0] >> 7, b[p:p + n]
            self.buf = b[p + n:]
            if b[0] & 0x70 or op not in (1, 2, 8, 9, 10, 0) or op > 7 and (n > 125 or not fin):
                self.ws.bad("frame", "invalid frame %r from the server" % b[:30])
            if op == 9:
                self.s.settimeout(30)
                self.s.sendall(frame(self.rng, 10, d))
                self.ws.ctx.stat("server_pings")
            elif op == 10:
                self.pongs.append(d)
            elif op == 8:
                self.eof = True
            else:
                self.rx.append((op, d))

    def send(self, b):
        self.s.settimeout(30)
        self.s.sendall(b)

    def wire(self, op, data, ctl=True):
        """a message as frames, with control frames in between"""
        r = self.rng
        k = r.choice([1, 1, 1, 2, 3, 6])
        cuts = sorted(r.randrange(len(data) + 1) for _ in range(k - 1))
        parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        out = b""
        for i, p in enumerate(parts):
            n = len(p)
            f = (0 if n < 126 else 1 if n < 65536 else 2)
            out += frame(r, op if i == 0 else 0, p, i == len(parts) - 1, True, f)
            if ctl and r.random() < 0.15:
                out += self.ping()
            if ctl and r.random() < 0.1:
                out += frame(r, 10, r.randbytes(r.choice([0, 3])))
        if k > 1:
            self.ws.ctx.stat("fragmented")
        return out

    def ping(self):
        d = self.rng.randbytes(self.rng.choice([0, 1, 4, 125]))
        self.pings.append(d)
        return frame(self.rng, 9, d)


class Ws:
    def __init__(self, ctx, seed, variant):
        self.ctx, self.seed, self.variant = ctx, seed, variant
        r = self.r = random.Random(seed)
        self.binary = r.random() < 0.6
        self.rrr = r.random() < 0.4
        self.async_ = False  # whether an upgrade waits for a response is not specified
        self.filters = r.sample(["#", "a/+/c", "chat/#", "x", "+/y", "a/b/c"], r.choice([1, 2, 3]))
        self.port = E.free_port()
        c = "[src]\nmodule=socket\nsocket_path=@DIR@/in.sock\nsocket_receive_rrr_message=yes\n"
        c += "[hs]\nmodule=httpserver\nsenders=src\nhttp_server_port_plain=%d\nhttp_server_websocket_topic_filters=%s\n" % (self.port, ",".join(self.filters))
        if self.binary or r.random() < 0.3:
            c += "http_server_accept_websocket_binary=%s\n" % ("yes" if self.binary else "no")
        if self.rrr and not self.binary:
            c = c.replace("http_server_accept_websocket_binary=no\n", "")
        if self.rrr:
            c += "http_server_receive_websocket_rrr_message=yes\n"
        if self.async_:
            c += "http_server_get_response_from_senders=yes\n"
        c += "http_server_response_timeout_ms=%d\n" % r.choice([20000, 60000])
        self.conf = c + "[out]\nmodule=vfsink\nsenders=hs\nvfsink_file=@DIR@/out\n"
        self.d = E.Daemon(ctx, self.conf, variant, args=("-d", os.environ.get("VF_DBG", "1")), leaks=False)
        self.sink = self.d.sink()
        self.s = self.d.connect(self.d.path("in.sock"))
        self.s_lock = threading.Lock()
        self.s_time = time.time()
        self.tags, self.uids, self.lock = {}, {}, threading.Lock()
        self.problems, self.stop, self.serial = [], False, 0

    def bad(self, key, text):
        with self.lock:
            self.problems.append((key, text))
        raise Stop()

    def push(self, m):
        with self.s_lock:
            if time.time() - self.s_time > 25:
                self.s.close()
                self.s = self.d.connect(self.d.path("in.sock"))
            self.s_time = time.time()
            self.s.sendall(m)

    def on_message(self, x, r):
        p = x.topic.split(b"/", 3)
        if p[:2] != [b"httpserver", b"websocket"] or len(p) < 4 or not p[2].isdigit():
            self.bad("message", "topic %r of message %r" % (x.topic, x.data[:200]))
        uid = p[2]
        with self.lock:
            c = self.uids.get(uid)
            if c is None:
                c = self.tags.get(x.data[:8])
                if c is None or c.uid:
                    c = next((k for k in self.tags.values() if not k.uid and k.sent and k.sent[0][:2] == (x.cl, x.data)), None)
                if c:
                    self.uids[uid] = c
                    c.uid = uid
        if c is None:
            self.bad("message", "topic %r data %r: no connection sent this as its first message" % (x.topic, x.data[:200]))
        i = len(c.got)
        t = b"httpserver/websocket/" + uid + b"/" + c.topic
        # the clients note what they send before they send it
        want = c.sent[i] if i < len(c.sent) else None
        if want is None or (x.cl, x.data) != want[:2] or x.topic != t + want[2] or x.ty != 1:
            self.bad("message", "message %d of connection %s: topic %r class %d data %r (%d bytes)\nwant topic %r %s" % (
                i, uid, x.topic, x.cl, x.data[:200], len(x.data), t, "nothing" if want is None else "%r (%d bytes)" % (want[1][:200], len(want[1]))))
        if want[3] and x.ts != want[3]:
            self.bad("message", "timestamp %d instead of %d" % (x.ts, want[3]))
        c.got.append(x)
        self.ctx.stat("messages")
        for _ in range(r.choice([0, 0, 1, 1, 2, 5])):
            with self.lock:
                self.serial += 1
                n = self.serial
            d = b"r%d " % n + r.choice([b"", b"\0\xff\xfe", r.randbytes(r.choice([1, 100, 118, 125, 126, 1000, 65527, 66000]))])
            if r.random() < 0.05:
                d = b""
            rt = b"httpserver/websocket/" + uid + r.choice([b"/" + c.topic, b"/" + c.topic, b"/x", b"/a/b/c/d"])
            c.due.append(d)
            self.push(W.msg(1, 1, int(time.time() * 1e6), rt, d))
            self.ctx.stat("responses_pushed")
            if r.random() < 0.2:
                o = r.choice([b"httpserver/websocket/%d/x" % (int(uid) + 10 ** 6), b"httpserver/websocket/" + uid + b"0000000/x", b"httpserver/request/" + uid, b"x/httpserver/websocket/" + uid + b"/x", b"httpserver/websocket/+/x", b""])
                self.push(W.msg(1, 1, 1, o, b"for nobody"))

    def client(self, i, nconn):
        rng = random.Random(self.seed * 100 + i)
        try:
            for k in range(nconn):
                if self.problems or self.stop:
                    return
                self.connection(rng, b"%03d.%03d:" % (i, k))
        except Stop:
            pass
        except Exception:
            import traceback
            self.problems.append(("harness", traceback.format_exc()))

    def connection(self, rng, tag):
        topic = rng.choice(["a/b/c", "a/q/c", "chat/x", "chat/x/y", "x", "q/y", "q/z", "nothing/here", "chat", "a"])
        c = Conn(self, rng, ("/" + topic).encode() + rng.choice([b"", b"", b"?q=1", b"?a/b#c"]))
        c.topic = topic.encode()
        ok = any(topic_match(f, topic) for f in self.filters)
        code = c.upgrade()
        if code != (101 if ok else 404):
            self.bad("handshake", "status %s for topic %s with filters %s" % (code, topic, self.filters))
        self.ctx.distinct((topic, ok))
        if not ok:
            c.s.close()
            self.ctx.stat("refused")
            return
        with self.lock:
            self.tags[tag] = c
        total = rng.choice([1, 3, 10, 25])
        ignored = 0
        for j in range(total):
            if self.problems:
                return
            k = rng.random()
            if k < 0.3 and j:
                if self.rrr:
                    ot = rng.choice([b"", b"t", b"some/topic", b"l" * 300])
                    d = rng.randbytes(rng.choice([0, 1, 50, 3000]))
                    ts = rng.getrandbits(48)
                    w = c.wire(2, W.msg(1, 1, ts, ot, d))
                    c.sent.append((1, d, b"/" + ot if ot else b"", ts))
                    c.send(w)
                    self.ctx.stat("rrr_messages")
                    continue
                d = tag + rng.randbytes(20)
                if self.binary:
                    c.sent.append((1, d, b"", 0))
                else:
                    self.ctx.stat("binary_ignored")
                c.send(c.wire(2, d))
                continue
            d = rng.choice([b"", b"x", "æøå€".encode(), rng.randbytes(rng.choice([100, 117, 118, 125, 126, 127, 5000, 65535, 65536, 70000, 300000]))]) if j else b""
            d = tag + d if rng.random() < 0.9 or not j else d
            w = c.wire(1, d)
            c.sent.append((1, d, b"", 0))
            for a in ([w] if rng.random() < 0.7 else [w[:len(w) // 3], w[len(w) // 3:]]):
                c.send(a)
                if a is not w:
                    time.sleep(0.002)
            if rng.random() < 0.2:
                c.send(c.ping())
            c.pump(0.001)
            if c.eof:
                self.bad("closed", "the server closed the connection after message %d (%d bytes)" % (j, len(d)))
        # now everything sent has to be there
        t = time.time()
        while not self.problems and time.time() - t < 25:
            c.pump(0.02)
            if c.eof:
                self.bad("closed", "the server closed the connection; messages %d of %d (next %r), responses %d of %d, pongs %d of %d" % (len(c.got), len(c.sent), c.sent[len(c.got):][:1] and c.sent[len(c.got)][1][:40], len(c.rx), len(c.due), len(c.pongs), len(c.pings)) + "\nreceived %s\nsent %s" % ([d[:12] for _, d in c.rx], [d[:12] for d in c.due]))
            if len(c.got) >= len(c.sent) and len(c.rx) >= len(c.due) and len(c.pongs) >= len(c.pings):
                break
        if self.problems:
            return
        time.sleep(0.01)
        c.pump(0.05)
        if len(c.got) != len(c.sent):
            self.bad("missing", "%d of %d messages of connection %s arrived; next %r" % (len(c.got), len(c.sent), c.uid, c.sent[len(c.got)][1][:100]))
        due = [(1, d) for d in c.due]
        if c.rx != due:
            i = next((i for i, (a, b) in enumerate(zip(c.rx, due)) if a != b), min(len(c.rx), len(due)))
            self.bad("responses", "connection %s got %d responses, %d were sent; number %d is %r, expected %r" % (
                c.uid, len(c.rx), len(due), i, c.rx[i:i + 1] and (c.rx[i][0], c.rx[i][1][:100]), due[i:i + 1] and (due[i][0], due[i][1][:100])))
        if c.pongs != c.pings:
            self.bad("pong", "pings %r\npongs %r" % (c.pings, c.pongs))
        self.ctx.count(len(c.sent) + len(c.due))
        self.ctx.stat("responses", len(due))
        self.ctx.stat("pongs", len(c.pongs))
        self.ctx.stat("connections")
        if rng.random() < 0.5:
            c.send(frame(rng, 8, rng.choice([b"", b"\x03\xe8", b"\x03\xe8bye"])))
            t = time.time()
            while not c.eof and time.time() - t < 20:
                c.pump(0.05)
            if not c.eof:
                self.bad("close", "the connection stays open after a close frame")
        c.s.close()

    def hostile(self, n):
        """frames no client should send: they may cost their connection only"""
        r = random.Random(self.seed ^ 99)
        try:
            for i in range(n):
                if self.problems or self.stop:
                    return
                t = next(t for t in ("chat/hostile", "x", "a/b/c", "q/y") if any(topic_match(f, t) for f in self.filters))
                c = Conn(self, r, b"/" + t.encode())
                k = r.randrange(12)
                if k == 0:
                    c.upgrade(key=r.choice([b"", b"x", b"AAAA", base64.b64encode(b"x" * 15), base64.b64encode(b"x" * 17), b"!" * 24]))
                    c.s.close()
                    continue
                if k == 1:
                    c.uri = r.choice([b"/", b"/#", b"/+/x", b"x", b"/" + b"a" * 3000, b"*", b"/%00", b"?x", b"/a\0b", b"//"])
                    c.upgrade()
                    c.s.close()
                    continue
                if c.upgrade() != 101:
                    self.bad("handshake", "no upgrade for %s" % t)
                ln = lambda v, m=1: bytes([0x80 | r.choice([1, 2, 9]), (m << 7) | 127]) + struct.pack(">Q", v)
                b = [None, None,
                     lambda: ln(r.choice([2 ** 64 - 1, 2 ** 64 - 2, 2 ** 64 - 13, 2 ** 64 - 14, 2 ** 63, 2 ** 63 - 1, 2 ** 62, 2 ** 40]), r.randrange(2)) + r.randbytes(30),
                     lambda: frame(r, r.choice([3, 7, 11, 15]), b"x"),
                     lambda: frame(r, r.choice([8, 9, 10]), b"x" * 126),
                     lambda: frame(r, r.choice([8, 9, 10]), b"x", fin=False),
                     lambda: frame(r, 0, b"cont"),
                     lambda: frame(r, 8, b"\x03"),
                     lambda: r.randbytes(r.choice([2, 10, 500])),
                     lambda: frame(r, 9, b"") * 50,
                     lambda: b"GET / HTTP/1.1\r\nHost: x\r\n\r\n",
                     lambda: (frame(r, 2, r.choice([b"", r.randbytes(40), W.msg(1, 1, 1, b"a", b"b")[:-1], W.msg(1, 1, 1, b"a", b"b") + b"x", W.msg(1, 1, 1, b"t" * 65535, b""), b"\0" * 64])) if self.rrr else frame(r, 0, b"x")),
                     ][k]()
                try:
                    c.send(b)
                    for _ in range(r.choice([1, 4, 10])):
                        c.pump(0.05)
                        if c.eof:
                            break
                except (OSError, Stop):
                    pass
                c.s.close()
                self.ctx.stat("hostile")
        except Stop:
            pass
        except Exception:
            import traceback
            if not self.stop:
                self.problems.append(("harness", traceback.format_exc()))

    def run(self, nthreads, nconn, nhost):
        try:
            # hostile connections first, alone: what they send may become messages
            if nhost:
                self.hostile(nhost)
                time.sleep(0.5)
                self.sink.poll()
                self.skip = len(self.sink.poll())
            rt = threading.Thread(target=self.responder_from, args=(getattr(self, "skip", 0),), daemon=True)
            rt.start()
            th = [threading.Thread(target=self.client, args=(i, nconn), daemon=True) for i in range(nthreads)]
            for t in th:
                t.start()
            for t in th:
                t.join(240)
                if t.is_alive():
                    self.problems.append(("hang", "clients do not finish"))
            self.stop = True
            rt.join(5)
        except E.NotUp as e:
            self.problems.append(("not-up", str(e)))
        finally:
            self.stop = True
            time.sleep(0.3 if self.problems else 0)
            dead = self.d.p.poll() is not None
            t = self.d.stop()
            if not self.d.bad and self.problems:
                k, x = self.problems[0]
                self.ctx.violation("websocket:" + ("ended" if dead else k), "seed %d variant %s\n%s\nconfiguration:\n%s\ndaemon log:\n%s" % (
                    self.seed, self.variant, x[:6000], self.conf, t[-int(os.environ.get("VF_LOG", "3000")):]), "VF_WS=%d VF_VARIANT=%s python3 -m vf.run C24" % (self.seed, self.variant))
            elif dead and not self.d.bad:
                self.ctx.violation("websocket:ended", "seed %d: the daemon ended\n%s" % (self.seed, t[-int(os.environ.get("VF_LOG", "3000")):]), "VF_WS=%d VF_VARIANT=%s python3 -m vf.run C24" % (self.seed, self.variant))

    def responder_from(self, skip):
        seen, r = skip, random.Random(self.seed ^ 77)
        try:
            while not self.stop:
                ms = self.sink.poll()
                for x in ms[seen:]:
                    self.on_message(x, r)
                seen = len(ms)
                time.sleep(0.003)
        except Stop:
            pass
        except OSError as e:
            if not self.stop:
                self.problems.append(("responder", str(e)))


def one(ctx, seed, variant):
    try:
        x = Ws(ctx, seed, variant)
    except E.NotUp as e:
        ctx.violation("websocket:not-up", "seed %d\n%s" % (seed, e), "VF_WS=%d" % seed)
        return
    x.run(4, 4, 12 if seed % 2 else 0)


def check(ctx):
    ctx.rule = "messages from a connection equal those sent on it, in order; responses equal those addressed to it, in order"
    if os.environ.get("VF_WS"):
        return one(ctx, int(os.environ["VF_WS"]), os.environ.get("VF_VARIANT", "asan"))
    base = ctx.seed * 100000
    for v in ("asan", "tsan"):
        ctx.build(v, "rrr", "modules")
    jobs = [(base + i, "tsan" if i % 5 == 4 else "asan") for i in range(ctx.scale(24, 240))]
    ctx.par(lambda j: one(ctx, *j), jobs, workers=6, limit=ctx.scale(300, 3000))
    ctx.require("messages", 500)
    ctx.require("responses", 300)
    ctx.require("fragmented", 50)
    ctx.require("hostile", 30)
