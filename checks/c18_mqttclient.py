"""MQTT client module: every packet it sends and every message it passes on is what settings, messages and session say."""
import os, random, struct, tempfile, time
import e2e as E
import mqtt as Q
import m_array as A
import m_topic as T
import m_mqttc as B
import m_wire as W
from checks import c07_array_msg as C07

TECHNIQUE = ("runtime monitoring: the real MQTT client module between a message source, a recording reader and a model broker which checks every packet against a reference model "
             "(session state, packet IDs, DUP, flow control, topics, payloads) and fails at every point of each handshake; ASan/UBSan/TSan daemons")
NOTE = "The model broker delays, splits, refuses, loses sessions and closes at each step of the CONNECT, SUBSCRIBE and PUBLISH handshakes; hostile rounds send malformed packets and require that the client recovers."

MIME = b"application/rrr-message"


class Stop(Exception):
    pass


class Client:
    def __init__(self, ctx, seed, variant, fixed=None):
        self.ctx, self.seed, self.variant = ctx, seed, variant
        r = self.r = random.Random(seed)
        self.t0 = time.time()
        self.events = []
        yn = lambda p: r.random() < p
        ver = self.ver = r.choice([4, 5])
        self.method = r.choice(["data", "data", "rrr", "array", "tags"])
        self.recv = r.choice(["data", "data", "rrr", "array"])
        self.recv_topic = yn(0.4)
        self.qos = r.choice([0, 1, 1, 2, 2])
        self.cmd = yn(0.5)
        self.ptopic = r.choice([None, None, b"def/topic", "æ/ø".encode(), b"p/"])
        self.tmode = r.choice(["", "force", "prepend"]) if self.ptopic else ""
        self.rtag = "ret" if yn(0.4) else None
        will = None
        if yn(0.4):
            will = Q.Will(r.choice([b"will/topic", b"w"]), r.choice([b"gone", b""]), r.choice([0, 1, 2]), int(yn(0.4)))
        user = r.choice([None, b"user", "bruk ær".encode()])
        pw = r.choice([None, b"secret", b"x" * 100]) if user else None
        cid = r.choice([b"", b"client-1", "æøå".encode()])
        recycle = yn(0.7)
        subs = {f: self.qos for f in r.sample([b"in/#", b"in/+/x", "ø/#".encode(), b"#", b"a/b/c/d", b"$SYS/#"], r.choice([0, 1, 3, 4, 5]))}
        self.want = {"user": user, "pw": pw, "will": will, "cid": cid, "recycle": recycle, "subs": dict(subs), "qos": self.qos}
        self.base_subs = subs
        self.srv = B.Server(r, ver, self.want, self.log)
        self.srv.delay = r.choice([0, 0.05, 0.5, 1.2])
        self.srv.recv_max = r.choice([None, 1, 2, 5, 20, 200]) if ver == 5 else None
        self.srv.on_unsub = self.on_unsub
        for f in subs:
            if yn(0.2):
                self.srv.grant[f] = r.choice([0, 1, 0x80])
        c = "[src]\nmodule=socket\nsocket_path=@DIR@/in.sock\nsocket_receive_rrr_message=yes\n"
        c += "[mc]\nmodule=mqttclient\nsenders=src\nmqtt_server=127.0.0.1\nmqtt_server_port=%d\nmqtt_version=%s\nmqtt_qos=%d\nmqtt_connect_error_action=retry\n" % (
            self.srv.port, "5" if ver == 5 else r.choice(["3.1.1"]), self.qos)
        c += "mqtt_connect_attempts=%d\n" % r.choice([1, 20])
        dec = lambda b: b.decode()
        if cid:
            c += "mqtt_client_identifier=%s\n" % dec(cid)
        if not recycle:
            c += "mqtt_v5_recycle_assigned_client_identifier=no\n"
        if user:
            c += "mqtt_username=%s\n" % dec(user)
        if pw:
            c += "mqtt_password=%s\n" % dec(pw)
        if will:
            c += "mqtt_will_topic=%s\n" % dec(will.topic)
            if will.payload:
                c += "mqtt_will_message=%s\n" % dec(will.payload)
            c += "mqtt_will_qos=%d\nmqtt_will_retain=%s\n" % (will.qos, "yes" if will.retain else "no")
        if self.ptopic:
            c += "mqtt_publish_topic=%s\n" % dec(self.ptopic)
        if self.tmode:
            c += "mqtt_publish_topic_%s=yes\n" % self.tmode
        self.tags = None
        if self.method == "rrr":
            c += "mqtt_publish_rrr_message=yes\n"
        elif self.method == "array":
            c += "mqtt_publish_array_values=*\n"
        elif self.method == "tags":
            self.tags = r.choice([["a"], ["b", "a"], ["a", "c"]])
            c += "mqtt_publish_array_values=%s\n" % ",".join(self.tags)
        if self.rtag:
            c += "mqtt_retain_tag=%s\n" % self.rtag
        if subs:
            c += "mqtt_subscribe_topics=%s\n" % ",".join(dec(f) for f in subs)
        if self.recv == "rrr":
            c += "mqtt_receive_rrr_message=yes\n"
        elif self.recv == "array":
            c += "mqtt_receive_array=be4#n,sep1,str#s\n"
        if self.recv_topic:
            c += "mqtt_receive_publish_topic=yes\n"
        if self.cmd:
            c += "mqtt_command_topic_filter=cmd/#\n"
        c += "[out]\nmodule=vfsink\nsenders=mc\nvfsink_file=@DIR@/out\n"
        self.conf = c
        self.serial = 0
        self.pushed, self.index, self.last, self.firstopen = [], {}, 0, 0
        self.inbound = []
        self.d = E.Daemon(ctx, c, variant, args=("-d", os.environ.get("VF_DBG", "1")), leaks=False)
        self.s = self.d.connect(self.d.path("in.sock"))
        self.sink = E.Sink(self.d.path("out"))

    # ---- reporting

    def log(self, s):
        self.events.append("%.3f %s" % (time.time() - self.t0, s if len(s) < 300 else s[:300] + "..."))

    def bad(self, key, text):
        self.ctx.violation("mqttc:" + key, "seed %d variant %s\n%s\nconfiguration:\n%s\nlast events:\n  %s\ndaemon log:\n%s" % (
            self.seed, self.variant, text, self.conf, "\n  ".join(self.events[-int(os.environ.get("VF_EVENTS", "400")):]), self.d.text()[-9000:]), "VF_MQTTC=%d VF_VARIANT=%s python3 -m vf.run C18" % (self.seed, self.variant))
        raise Stop()

    def pump(self, until=None, timeout=20):
        def u():
            if self.d.p.poll() is not None:
                self.bad("ended", "the daemon ended by itself with status %s" % self.d.p.returncode)
            return until is not None and until()
        return self.srv.pump(u, timeout)

    def on_unsub(self, f, code):
        if self.ver == 5 and code == 0:
            self.want["subs"].pop(f, None)

    # ---- messages to publish

    def body(self):
        """-> (class, ver, data, elements or None)"""
        r = self.r
        k = r.random()
        self.serial += 1
        tag = b"#%d#" % self.serial
        if k < (0.75 if self.method in ("array", "tags") else 0.4) or self.rtag and k < 0.7:
            els = []
            names = ["a", "b", "c", None]
            r.shuffle(names)
            for nm in names[:r.randrange(1, 5)]:
                t = r.choice(["str", "h", "blob", "msg0"])
                if nm == "a":
                    els.append(A.El("str", 0, 1, nm, b"a" + tag, 0))
                elif t == "h":
                    els.append(A.El("h", r.choice([0, 1]), 1, nm, struct.pack("<q", r.choice([0, 1, -1, 1 << 62, self.serial])), 0))
                else:
                    els.append(A.El("blob" if t != "str" else "str", 0, 1, nm, r.randbytes(r.randrange(1, 9)) if t != "str" else b"s" * r.randrange(1, 9), 0))
            els.append(A.El("str", 0, 1, "a" if not any(e.tag == "a" for e in els) else None, b"v" + tag, 0))
            if self.rtag and r.random() < 0.5:
                x = r.choice(["clear", "clear", 0, 3600, 4294967295, "10", "text", ""])
                if isinstance(x, int):
                    els.append(A.El("h", 0, 1, self.rtag, struct.pack("<Q", x), 0))
                else:
                    els.append(A.El("str", 0, 1, self.rtag, x.encode(), 0) if x else A.El("vain", 0, 1, self.rtag, b"", 0))
                self.retval = x
            else:
                self.retval = None
            return 11, 7, C07.pack(els), els
        self.retval = None
        if k < 0.85:
            n = r.choice([1, 1, 1, 1, 100, 5000])
            return 1, 0, (tag + r.randbytes(5)) * n, None
        return 1, 0, b"", None

    def expected(self, m, els):
        """-> None (no PUBLISH) or (topic, payload, retain, expiry, content type)"""
        ty, cl, ts, topic, data = m
        if self.tmode == "prepend":
            if not topic:
                return None
            t = self.ptopic + topic
        elif topic and self.tmode != "force":
            t = topic
        elif self.ptopic:
            t = self.ptopic
        else:
            return None
        if len(t) > 65535 or not valid_topic(t):
            return None
        retain, exp, ct = 0, None, None
        if self.rtag and els and self.retval is not None:
            retain = 1
            if self.retval == "clear":
                return (t, b"", 1, None, None)
            if isinstance(self.retval, int) and self.retval and self.ver == 5:
                exp = self.retval
            if self.retval == "10" and self.ver == 5:
                exp = 10
        if self.method == "rrr":
            p = W.msg(ty, cl, ts, topic, data, ver=7 if els else 0)
            if self.ver == 5:
                ct = MIME
        elif self.method in ("array", "tags"):
            if els is None:
                return None
            use = [e for e in els if self.tags is None or e.tag in self.tags]
            p = b"".join(self.export(e) for e in use)
        elif data and not els:
            p = data
        else:
            p = ("%s:%s:%d" % ({1: "MSG", 2: "TAG"}[ty], {1: "DATA", 11: "ARRAY"}[cl], ts)).encode() + b"\0"
        return (t, p, retain, exp, ct)

    def export(self, e):
        return e.export()

    def fresh(self):
        """the socket module closes connections which are idle for a minute"""
        try:
            self.s.setblocking(False)
            gone = self.s.recv(1) == b""
        except BlockingIOError:
            gone = False
        except OSError:
            gone = True
        if gone:
            self.s.close()
            self.s = self.d.connect(self.d.path("in.sock"))
        self.s.setblocking(True)

    def push(self, topic=None, body=None):
        r = self.r
        cl, ver, data, els = body or self.body()
        ts = int(time.time() * 1e6) + self.serial
        if topic is None:
            n = b"%d" % self.serial
            topic = r.choice([b"t/" + n, b"t/" + n, "tø/".encode() + n, b"x" * r.choice([200, 3000]) + n, b""])
            if r.random() < 0.04:
                topic = r.choice([b"#", b"t/+/" + n, b"\0" + n, b"a\0b", b"t#" + n, b"y" * 65535])
                self.ctx.stat("bad_topics")
        m = (1, cl, ts, topic, data)
        b = W.msg(*m, ver=ver)
        self.fresh()
        while True:
            try:
                self.s.setblocking(False)
                b = b[self.s.send(b):]
            except BlockingIOError:
                self.pump(None, 0.02)
            finally:
                self.s.setblocking(True)
            if not b:
                break
        e = self.expected(m, els)
        self.log("push %d %r len %d -> %s" % (self.serial, topic[:40], len(data), e and (e[0][:40], len(e[1]), e[2:])))
        if e:
            self.index.setdefault(e, []).append(len(self.pushed))
            self.pushed.append([e, self.srv.epoch, time.time(), 0, -1])
        self.ctx.stat("pushed")

    def command(self, name, filters=(), extra=(), tag="mqtt_topic_filter"):
        els = [A.El("str", 0, 1, "mqtt_command", name, 0)] + [A.El("str", 0, 1, tag, f, 0) for f in filters] + list(extra)
        if self.r.random() < 0.3:
            els = els[1:] + els[:1]
        self.serial += 1
        self.fresh()
        self.s.sendall(W.msg(1, 11, int(time.time() * 1e6), b"cmd/%d" % self.serial, C07.pack(els), ver=7))
        self.log("command %s %r" % (name, filters))
        self.ctx.stat("commands")

    def judge_publishes(self, final):
        """messages taken by the server against those pushed"""
        got = self.srv.got
        exp = self.pushed
        j = self.done_e = getattr(self, "done_e", 0)
        i = getattr(self, "done_g", 0)
        # match each arrived message with the first message pushed and not yet seen which equals it
        for p in got[i:]:
            ps = dict((k, v) for k, v in p.props)
            x = (p.topic, p.payload, p.retain, ps.pop(2, None), ps.pop(3, None))
            if ps:
                self.bad("publish-props", "unexpected properties %r in %r" % (ps, p))
            ks = self.index.get(x, ())
            k = next((n for n in ks if not exp[n][3]), None)
            if k is None:
                k = next(iter(ks), None)
                if k is None:
                    near = next((e for e in exp if e[0][0] == x[0]), None)
                    self.bad("publish-content", "the server got %s\nexpected for that topic: %s" % (str(x)[:500], str(near)[:500]))
                if self.qos == 2 and exp[k][4].epoch == p.epoch:
                    self.bad("qos2-twice", "message with topic %r was delivered %d times with QoS 2" % (x[0], exp[k][3] + 1))
                if self.qos == 0:
                    self.bad("qos0-twice", "message with topic %r was delivered twice" % x[0])
                self.ctx.stat("duplicates")
                if not self.srv.drops and self.srv.delay < 2.5 and not p.dup:
                    self.bad("twice", "message with topic %r was sent twice" % x[0])
            else:
                self.late = getattr(self, "late", [])
                if k < self.last and len(ks) == 1 and exp[k][1] == exp[self.last][1] and exp[k][0] != exp[self.last][0]:
                    self.late.append((k, self.last))
                self.last = max(self.last, k)
            exp[k][3] += 1
            exp[k][4] = p
        self.done_g = len(got)
        self.ctx.count(len(got) - i)
        if final:
            for n, (a, b) in enumerate(getattr(self, "late", [])):
                if exp[a][3] and self.qos and not self.srv.counts.get("rejected"):
                    self.bad("order", "message %d (%r) was delivered after message %d (%r)" % (a, exp[a][0][0], b, exp[b][0][0]))

    def missing(self):
        self.judge_publishes(False)
        out = []
        while self.firstopen < len(self.pushed) and self.pushed[self.firstopen][3]:
            self.firstopen += 1
        for e, epoch, at, n, _ in self.pushed[self.firstopen:]:
            if n:
                continue
            if self.qos == 0 and self.srv.drops:
                continue
            if epoch < self.srv.epoch and self.srv.lost_at and at <= self.srv.lost_at[-1]:
                continue
            out.append(e)
        # of equal messages it is not known which have arrived: those which may be missing count as the missing ones
        for e in set(out):
            ks = self.index[e]
            if len(ks) > 1:
                may = 0
                for n in ks:
                    _, epoch, at, k, _ = self.pushed[n]
                    if k and (self.qos == 0 and self.srv.drops or epoch < self.srv.epoch and self.srv.lost_at and at <= self.srv.lost_at[-1]):
                        may += 1
                for _ in range(min(may, out.count(e))):
                    out.remove(e)
        return out

    # ---- messages to receive

    def inject(self):
        """one PUBLISH from the server; remembers what shall come out"""
        r = self.r
        self.serial += 1
        topic = r.choice([b"in/%d/x", b"in/%d", b"in/a/b/%d"]) % self.serial
        qos = r.choice([0, 1, 2])
        tag = b"<%d>" % self.serial
        k = r.random()
        ps = []
        want = None
        wtopic = topic
        if k < 0.3:
            it = r.choice([b"inner/topic", b""])
            cl, data, ver = r.choice([(1, tag, 0), (11, C07.pack([A.El("str", 0, 1, "s", tag, 0)]), 7), (1, b"", 0)])
            ts = 1000 + self.serial
            payload = W.msg(1, cl, ts, it, data, ver=ver)
            broken = r.random() < 0.3
            if broken:
                payload = r.choice([payload[:-1], payload[:r.randrange(len(payload))] or b"x", payload + b"x", payload[:4] + bytes([payload[4] ^ 1]) + payload[5:],
                                    payload[:-1] + bytes([payload[-1] ^ 4])])
            mark = self.ver == 5 and r.random() < 0.7
            if mark:
                ps.append((3, MIME))
            if (mark or self.recv == "rrr") and not broken:
                want = [(cl, ts, topic if self.recv_topic else it, data)]
            elif self.recv == "rrr":
                want = []
            elif self.recv == "array":
                want = self.arrays(topic, payload)
            else:
                want = [(1, None, topic, payload)]
        elif k < 0.45 and True:
            payload = b""
            if self.recv == "rrr":
                want = []
            elif self.recv == "array":
                want = []
            else:
                want = [(1, None, topic, topic + b"\0")]
        elif k < 0.7 and self.recv == "array":
            payload = b"".join(struct.pack(">I", r.randrange(1 << 32)) + b"," + b'"%d"' % self.serial for _ in range(r.randrange(1, 5)))
            want = self.arrays(topic, payload)
        else:
            payload = tag * r.choice([1, 10, 3000])
            if r.random() < 0.3 and self.ver == 5:
                ps.append((3, b"text/plain"))
            want = [] if self.recv == "rrr" else self.arrays(topic, payload) if self.recv == "array" else [(1, None, topic, payload)]
        if want is None:
            return
        o = B.Out(topic, payload, qos, ps, r.choice([0, 0, 1]))
        ss = self.srv.sess.subs if self.srv.sess else {}
        q = [g for f, g in ss.items() if T.match(f, topic)]
        if not q:
            return  # nothing has been subscribed to which matches
        o.qos = min(o.qos, max(q))
        self.inbound.append((o, want))
        if self.srv.ready:
            self.srv.deliver(o)
        elif o.qos and self.srv.sess is not None:
            self.srv.sess.out.append(o)
            self.lastpid_for(o)
        else:
            o.state = "lost"
        self.ctx.stat("injected")

    def lastpid_for(self, o):
        s = self.srv
        s.lastpid = s.lastpid % 65535 + 1
        o.pid, o.state = s.lastpid, "pub"

    def arrays(self, topic, payload):
        """records be4#n,sep1#,str#s; None where the parse of damaged payloads is not predicted"""
        out = []
        i = 0
        while i < len(payload):
            rec = payload[i:]
            if len(rec) < 8 or rec[4:5] not in (b",", b";", b"\n", b"\r", b"/", b"\\", b"#", b"|", b"-", b"_", b"*", b"=", b":", b"\0") and True:
                break
            if rec[4:6] != b',"':
                return None
            e = rec.find(b'"', 6)
            if e < 0:
                break
            out.append((11, None, topic, (struct.unpack(">I", rec[:4])[0], rec[6:e])))
            i += e + 1
        return out

    def judge_inbound(self, final=False):
        got = self.sink.poll()
        seen = {}
        for m in got:
            d = m.data
            if m.cl == 11 and self.recv == "array":
                try:
                    els = unpack(d)
                    if [e[0] for e in els][:1] == ["n"]:
                        d = (int.from_bytes(els[0][1], "big"), els[-1][1])
                except Exception:
                    pass
            k = (m.cl, m.ts if m.ts < 1 << 40 else None, m.topic, d)
            seen[k] = seen.get(k, 0) + 1
        need = {}
        for o, want in self.inbound:
            for w in want:
                lo, hi = need.get(w, (0, 0))
                if o.qos == 0:
                    a = 1 if o.sends and not self.srv.drops else 0
                    b = 1
                elif o.qos == 1:
                    a, b = (1 if o.state == "done" else 0), max(1, o.sends)
                else:
                    a, b = (1 if o.state == "done" else 0), 1
                need[w] = (lo + a, hi + b)
        for k, n in seen.items():
            if k not in need:
                self.bad("received", "the reader got %s which no message from the server gives" % str(k)[:400])
            if n > need[k][1]:
                self.bad("received-twice", "the reader got %s %d times, at most %d expected" % (str(k)[:300], n, need[k][1]))
        out = []
        for k, (lo, hi) in need.items():
            if seen.get(k, 0) < lo:
                out.append(k)
        if final:
            self.ctx.count(sum(seen.values()))
            self.ctx.stat("received", sum(seen.values()))
        return out


def valid_topic(t):
    """may be the topic name of a PUBLISH"""
    try:
        t.decode()
    except UnicodeDecodeError:
        return False
    return bool(t) and not any(c in t for c in b"#+\0")


def unpack(d):
    out = []
    while d:
        ty, fl, tl, dl, n = struct.unpack(">BBIII", d[:14])
        out.append((d[14:14 + tl].decode(), d[14 + tl:14 + tl + dl], ty, n))
        d = d[14 + tl + dl:]
    return out


PUB_FAULTS = ["drop-publish", "drop-publish-taken", "drop-puback", "drop-pubrec", "drop-pubrel", "drop-pubrel-taken", "drop-pubcomp"]
OUT_FAULTS = ["drop-out-publish", "drop-out-pubrel", "drop-out-puback", "drop-out-pubrec", "drop-out-pubcomp"]
CON_FAULTS = ["drop-before-connack", "refuse", "garbage-connack", "drop-after-connack", "drop-at-subscribe", "drop-after-subscribe", "lose-session", "no-connack"]


def up(x, timeout=40):
    s = x.srv
    if not x.pump(lambda: s.ready and (s.subbed or not x.want["subs"]), timeout):
        x.bad("not-connected", "the client did not connect and subscribe within %d s" % timeout)


def settle(x, timeout=45):
    """everything under way ends"""
    s = x.srv
    quiet = [None]

    def done():
        idle = s.ready and not s.delayed and not x.missing() and not x.judge_inbound() and not any(o.state in ("pub", "rec") for o in s.sess.out) and \
            (x.qos == 0 or not s.unacked_live())
        if not idle:
            quiet[0] = None
            return False
        quiet[0] = quiet[0] or time.time()
        return time.time() - quiet[0] > 0.3
    if s.recv_max:
        timeout += x.qos * s.delay * len(x.missing()) / s.recv_max
    if not x.pump(done, timeout):
        m = x.missing()
        if m:
            x.bad("missing", "%d messages were not published, the first is %s" % (len(m), str(m[0])[:300]))
        m = x.judge_inbound()
        if m:
            x.bad("not-received", "%d messages from the server did not come out, the first is %s" % (len(m), str(m[0])[:300]))
        m = [(o.topic, o.qos, o.state) for o in s.sess.out if o.state in ("pub", "rec")] if s.sess else []
        if m:
            x.bad("unfinished-in", "handshakes of messages from the server did not end: %r" % m[:5])
        if not s.ready:
            x.bad("not-connected", "the client is not connected")
        x.bad("unfinished-out", "handshakes of the client did not end: %r" % list(s.unacked_live().items())[:5])


def scenario(ctx, seed, variant, rounds):
    x = None
    try:
        x = Client(ctx, seed, variant)
        r, s = x.r, x.srv
        s.lost_at = []
        s.unacked_live = lambda: {k: v for k, v in (s.sess.unacked if s.sess else {}).items()}
        s.on_connack = lambda present: None if present else s.lost_at.append(time.time())
        if r.random() < 0.4:
            s.faults = r.sample([f for f in CON_FAULTS if f != "lose-session"], r.randrange(1, 3))
        if r.random() < 0.4:
            for _ in range(r.randrange(1, 20)):
                x.push()  # before the client is connected
        up(x, 60)
        if not s.epoch:
            s.lost_at.clear()
        for rd in range(rounds):
            faulty = r.random() < 0.6
            if faulty:
                k = r.choice(["pub", "out", "con", "mix"])
                fs = []
                if k in ("pub", "mix") and x.qos:
                    fs += r.sample(PUB_FAULTS, r.randrange(1, 3))
                if k in ("out", "mix"):
                    fs += r.sample(OUT_FAULTS, r.randrange(1, 3))
                if k in ("con", "mix"):
                    fs += r.sample(CON_FAULTS, r.randrange(1, 3))
                if x.ver == 5 and x.qos and r.random() < 0.1:
                    fs.append("reject")
                s.faults = fs
                x.log("round %d with faults %r" % (rd, fs))
            else:
                x.log("round %d" % rd)
            if x.cmd and r.random() < 0.5:
                commands(x)
            for _ in range(r.choice([1, 5, 40, 300])):
                if r.random() < 0.7:
                    x.push()
                else:
                    x.inject()
                if r.random() < 0.2:
                    x.pump(None, r.random() * 0.05)
            if r.random() < 0.15 and s.delay < 0.1 and (s.recv_max is None or s.recv_max >= 20) and x.method != "rrr" and x.tmode != "prepend":
                body = (1, 0, b"%d" % x.serial, None) if x.method == "data" else (11, 7, C07.pack(els := [A.El("str", 0, 1, "a", b"f", 0)]), els)
                x.retval = None
                for _ in range(r.choice([2000, 9000])):
                    x.serial += 1
                    x.push(b"f/%d" % x.serial, body)
                ctx.stat("floods")
            if not faulty and r.random() < 0.4:
                settle(x)
                hostile(x)
            if faulty and k in ("con", "mix") and s.conn and r.random() < 0.7:
                x.pump(None, r.random() * 0.5)
                s.drop("broker")
            x.pump(None, 0.1)
            settle(x)
            s.faults = []
            x.judge_publishes(True)
            x.judge_inbound(True)
            ctx.stat("rounds")
        x.judge_publishes(True)
        for k, n in s.counts.items():
            ctx.stat("packets_" + k if k.isupper() else k, n)
            if k.startswith("drop_"):
                ctx.distinct(("fault", k))
        ctx.distinct(("in_flight", s.max_inflight))
        ctx.distinct((x.ver, x.qos, x.method, x.recv, x.tmode, bool(x.rtag)))
        # orderly end: DISCONNECT is sent
        s.disc = None
        x.d.p.send_signal(2)
        t = time.time()
        while x.d.p.poll() is None and time.time() - t < 20:
            s.pump(None, 0.05)
        s.pump(None, 0.1)
        x.d.stop()
    except B.Bad as e:
        try:
            x.bad(e.key, e.text)
        except Stop:
            pass
    except Stop:
        pass
    except (E.NotUp, OSError) as e:
        ctx.violation("mqttc:daemon", "seed %d: %r\n%s\n%s" % (seed, e, "\n".join(x.events[-30:]) if x else "", x and x.d.text()[-14000:]), "VF_MQTTC=%d VF_VARIANT=%s python3 -m vf.run C18" % (seed, variant))
    finally:
        if x:
            if x.d.p.poll() is None:
                x.d.stop()
            if x.srv.conn:
                x.srv.conn.close()
            x.srv.l.close()


def hostile(x):
    """one packet or several which no server may send, with everything settled before"""
    r, s = x.r, x.srv
    if not s.conn or not s.ready:
        return
    v5 = b"\0" if x.ver == 5 else b""
    pid = struct.pack(">H", r.choice([1, 2, 777, 65535]))
    F = Q.frame
    k, b = r.choice([
        ("suback-unknown", F(Q.SUBACK, 0, pid + v5 + b"\0")),
        ("suback-zero-id", F(Q.SUBACK, 0, b"\0\0" + v5 + b"\0")),
        ("unsuback-unknown", F(Q.UNSUBACK, 0, pid + (v5 + b"\0" if x.ver == 5 else b""))),
        ("connack-again", F(Q.CONNACK, 0, b"\0\0" + v5)),
        ("puback-unknown", F(Q.PUBACK, 0, pid)),
        ("pubrec-unknown", F(Q.PUBREC, 0, pid)),
        ("pubrel-unknown", F(Q.PUBREL, 2, pid)),
        ("pubcomp-unknown", F(Q.PUBCOMP, 0, pid)),
        ("pubrel-flags", F(Q.PUBREL, 0, pid)),
        ("pingresp", F(Q.PINGRESP, 0, b"")),
        ("pingresp-long", F(Q.PINGRESP, 0, b"x")),
        ("connect", F(Q.CONNECT, 0, b"\0\4MQTT\4\2\0\0\0\0")),
        ("subscribe", F(Q.SUBSCRIBE, 2, b"\0\1" + v5 + b"\0\1a\0")),
        ("pingreq", F(Q.PINGREQ, 0, b"")),
        ("reserved", F(0, 0, b"")),
        ("auth", F(15, 0, r.choice([b"", b"\x18\0"]))),
        ("disconnect", F(Q.DISCONNECT, 0, r.choice([b"", b"\x8b", b"\x8b\0"]) if x.ver == 5 else b"")),
        ("publish-qos3", F(Q.PUBLISH, 6, b"\0\4in/x" + pid + v5 + b"a")),
        ("publish-no-id", F(Q.PUBLISH, 2, b"\0\4in/x\0\0" + v5 + b"a")),
        ("publish-wild", F(Q.PUBLISH, 0, b"\0\4in/#" + v5 + b"a")),
        ("publish-empty-topic", F(Q.PUBLISH, 0, b"\0\0" + v5 + b"a")),
        ("publish-short", F(Q.PUBLISH, 0, b"\0\x40in/x")),
        ("publish-utf8", F(Q.PUBLISH, 0, b"\0\4in/\xff" + v5 + b"a")),
        ("publish-dup-qos0", F(Q.PUBLISH, 8, b"\0\1q" + v5 + b"a")),
        ("publish-bad-property", F(Q.PUBLISH, 0, b"\0\4in/x" + b"\x02\x7f\0" + b"a" if v5 else b"\0\4in")),
        ("publish-alias", F(Q.PUBLISH, 0, b"\0\0" + (b"\x03\x23\0\5" if v5 else b"") + b"a")),
        ("length", b"\x30\xff\xff\xff\xff\x01"),
        ("huge", b"\x30\xff\xff\xff\x7f" + b"\0\4in/x"),
        ("random", r.randbytes(r.randrange(1, 60))),
        ("half", F(Q.PUBLISH, 2, b"\0\4in/x\0\1" + v5 + b"abc")[:r.randrange(1, 8)]),
    ])
    x.log("hostile %s %r" % (k, b[:40]))
    x.ctx.distinct(("hostile", x.ver, k))
    x.ctx.stat("hostile")
    c = s.conn
    s.conn.send(b)
    s.hostile = True
    try:
        x.pump(lambda: s.conn is not c, r.choice([0.3, 2]))
        x.log("connection %s" % ("stays" if s.conn is c else "ended"))
    finally:
        s.hostile = False
    if s.conn is c:
        s.drop("hostile")
    up(x)


def commands(x):
    r, s = x.r, x.srv
    k = r.choice(["subscribe", "unsubscribe", "disconnect", "with_will", "nonsense"])
    if s.faults:
        return
    up(x)
    if k == "subscribe":
        fs = r.sample([b"in/c1/#", b"in/c2", b"in/+/c3"], r.randrange(1, 3))
        for f in fs:
            x.want["subs"].setdefault(f, 0)
            x.want["subs"][f] = 0
        s.added = fs
        n = s.counts.get("SUBSCRIBE", 0)
        x.command(b"subscribe", fs)
        if not x.pump(lambda: s.counts.get("SUBSCRIBE", 0) > n, 15):
            x.bad("no-subscribe", "no SUBSCRIBE after subscribe command")
    elif k == "unsubscribe":
        fs = r.sample(list(x.want["subs"]) + [b"in/none"], 1)
        n = len(s.unsubs)
        x.command(b"unsubscribe", fs)
        if not x.pump(lambda: len(s.unsubs) > n, 15):
            x.bad("no-unsubscribe", "no UNSUBSCRIBE after unsubscribe command")
        if sorted(s.unsubs[-1]) != sorted(fs):
            x.bad("unsubscribe", "UNSUBSCRIBE of %r, command was for %r" % (s.unsubs[-1], fs))
        if x.ver != 5:
            for f in fs:
                x.want["subs"].pop(f, None)
        x.pump(None, 0.2)
    elif k in ("disconnect", "with_will"):
        s.disc = None
        n = s.accepted
        c = s.conn
        settle(x)
        x.command(b"disconnect", (), [A.El("str", 0, 1, "mqtt_disconnect_with_will", b"x", 0)] if k == "with_will" else ())
        if not x.pump(lambda: s.conn is not c, 15):
            x.bad("no-disconnect", "the connection stays after disconnect command")
        if k == "disconnect" or x.ver == 5:
            if s.disc is None:
                x.bad("no-disconnect-packet", "no DISCONNECT packet after disconnect command")
            if s.disc.reason != (4 if k == "with_will" else 0):
                x.bad("disconnect-reason", "reason %d after %s" % (s.disc.reason, k))
        elif s.disc is not None:
            x.bad("disconnect-packet", "DISCONNECT was sent which makes the server discard the will")
        s.drops += 0
        if not x.pump(lambda: s.accepted > n, 30):
            x.bad("not-connected", "no new connection after disconnect command")
        up(x)
    else:
        y = r.random()
        if y < 0.3:
            x.command(b"unknown", [b"a"])
        elif y < 0.5:
            x.command(r.choice([b"subscribe", b"unsubscribe"]), [b"in/a"], tag="other_tag")
        elif y < 0.7:
            x.command(r.choice([b"subscribe", b"unsubscribe"]), [r.choice([b"in/#/a", b"a+", b"", b"in/\xff"])])
        else:
            x.fresh()
            x.s.sendall(W.msg(1, 1, 5, b"cmd/x", b"data"))
            x.log("command without array")
        x.pump(None, 0.3)


def check(ctx):
    ctx.rule = "the MQTT client publishes each message exactly as settings and QoS demand, delivers what the server sends exactly as often as allowed and always recovers"
    one = os.environ.get("VF_MQTTC")
    n = ctx.scale(26, 220)
    jobs = [(ctx.seed * 2700001 + i, "tsan" if i % 6 == 5 else "asan") for i in range(n)]
    if one:
        jobs = [(int(one), os.environ.get("VF_VARIANT", "asan"))]
    else:
        ctx.build("tsan", "rrr")
    ctx.build("asan", "rrr")
    ctx.par(lambda j: scenario(ctx, j[0], j[1], ctx.scale(5, 12)), jobs, workers=13)
    if not one:
        for s, k in (("rounds", n), ("received", 100), ("packets_PUBLISH", 500), ("commands", 10)):
            ctx.require(s, k)
