"""MQTT broker under observation: test clients which keep a reference model of sessions, subscriptions,
retained messages and wills, and compare every packet the broker sends with it."""
import collections, os, random, select, time
import mqtt as M
import m_topic as T
import e2e as E

INF = 0xffffffff


class Stop(Exception):
    """a violation was recorded; the scenario can not go on"""


def opts(r, ver):
    o = r.choice([0, 1, 2, 2])
    if ver == 5:
        if r.random() < 0.2:
            o |= 4
        if r.random() < 0.3:
            o |= 8
        o |= r.choice([0, 0, 0, 1, 2]) << 4
    return o


class Exp:
    """One delivery owed to (must) or allowed for (may) a session."""
    __slots__ = "seq pub topic payload qos retain props must key sent expires interval born twice nb got filt".split()

    def __init__(self, seq, pub, topic, payload, qos, retain, props, must=True, key=None, expires=None, interval=0, twice=False, nb=0, filt=None):
        self.seq, self.pub, self.topic, self.payload, self.qos, self.retain, self.props = seq, pub, topic, payload, qos, retain, props
        self.must, self.key, self.expires, self.interval, self.twice, self.nb, self.filt = must, key, expires, interval, twice, nb, filt
        self.born, self.sent, self.got = time.time(), False, 0

    def __repr__(self):
        return "<%s seq %d of %s topic %r qos %d retain %d %r%s%s via %r>" % (
            "must" if self.must else "may", self.seq, self.pub, self.topic, self.qos, self.retain, self.payload[:30],
            " expires %.1f" % (self.expires - time.time()) if self.expires else "", " maybe sent" if self.sent else "", self.filt)


class Cl:
    """A client identity: its session as it should be in the broker, and its connection."""

    def __init__(self, cid):
        self.cid = cid
        self.conn = None
        self.ver = 4
        self.lives = 0          # 0 no session / INF / seconds after disconnect
        self.off_at = 0.0
        self.will = None
        self.user = None
        self.bye = None
        self.mute = False
        self.off_lo = 0.0
        self.reset()

    def reset(self):
        self.subs = collections.OrderedDict()
        self.exp = []
        self.infl = {}          # pid -> [Exp, 'pub'|'rec']
        self.maybe = {}         # QoS1 pids which were acknowledged on a connection lost afterwards
        self.last = {}          # order key -> seq
        self.hist = collections.deque(maxlen=200)

    def __repr__(self):
        return self.cid


class Out:
    """A message on its way from a client to the broker."""
    __slots__ = "pid msg qos state sentn reason".split()

    def __init__(self, pid, msg, qos):
        self.pid, self.msg, self.qos, self.state, self.sentn, self.reason = pid, msg, qos, "pub", 1, None


class Bench:
    def __init__(self, ctx, seed, variant="asan", extra="", retry=2, acl=None, users=None, hostile=False, files=(), v3disc=False):
        self.ctx, self.seed = ctx, seed
        self.rng = random.Random(seed)
        self.port = E.free_port()
        self.t0 = time.time()
        self.pw = []            # wills which wait for their delay
        self.made = []
        self.tr = collections.deque(maxlen=500)
        self.cl = {}
        self.retained = {}      # topic -> [payload, qos, props, pub, seq, expires, interval]
        self.seq = 0
        self.hostile = hostile
        self.acl, self.users, self.v3disc = acl, users, v3disc
        self.what = "seed %d variant %s" % (seed, variant)
        self.rep = "VF_MQTT=%d VF_VARIANT=%s VERIF_TIER=%s python3 -m vf.run %s" % (seed, variant, ctx.tier, ctx.prop)
        self.retry_s = retry
        self.slow = 2.0 if variant == "tsan" else 1.0
        args = ["-d", os.environ["VF_DBG"]] if os.environ.get("VF_DBG") else []
        self.d = E.Daemon(ctx, "[b]\nmodule=mqttbroker\nmqtt_broker_port=%d\nmqtt_broker_close_wait_time=1\nmqtt_broker_retry_interval=%d\n%s" % (
            self.port, retry, extra), variant, args=args)
        self.dead = False

    # ---- recording
    def log(self, s):
        self.tr.append("%7.3f %s" % (time.time() - self.t0, s))

    def bad(self, key, text):
        log = self.d.text()[-(200000 if os.environ.get('VF_DBG') else 3000):] if hasattr(self.d, "text") else ""
        self.ctx.violation("mqtt:" + key, "%s\n%s\nlast events:\n%s\ndaemon log:\n%s" % (self.what, text, "\n".join(self.tr), log), self.rep)
        raise Stop(key)

    # ---- connections
    def client(self, cid):
        if cid not in self.cl:
            self.cl[cid] = Cl(cid)
        return self.cl[cid]

    def up(self, c):
        return c.conn is not None

    def raw(self, ver):
        s = self.d.connect(("127.0.0.1", self.port))
        return M.Conn(s, ver)

    def put(self, c, b):
        """send, sometimes in pieces"""
        r = self.rng.random()
        if r < 0.8 or len(b) > 100000:
            c.conn.send(b)
            return
        i = 0
        while i < len(b):
            n = self.rng.choice([1, 2, 3, 7, 50, 1000]) if len(b) < 2000 else self.rng.randint(1, len(b))
            c.conn.send(b[i:i + n])
            i += n
            if self.rng.random() < 0.2:
                time.sleep(0.002)

    def wait1(self, conn, t=20):
        e = time.time() + t * self.slow
        while time.time() < e:
            r = conn.pull(0.2)
            if r:
                return r[0], r[1:]
            if not conn.open:
                return None, []
        return None, []

    def connect(self, c, ver=None, clean=True, lives=0, will=None, rmax=0, mps=0, ka=0, user=None, pw=None, mode="now", expect=True, refuse=None):
        """expect: the session is accepted. -> CONNACK"""
        old = c.conn
        ver = ver or c.ver
        ps = []
        if ver == 5:
            if lives:
                ps.append((17, lives))
            if rmax:
                ps.append((33, rmax))
            if mps:
                ps.append((39, mps))
            self.rng.shuffle(ps)
        else:
            lives = 0 if clean else INF
            rmax = mps = 0
        conn = self.raw(ver)
        self.log("%s: CONNECT v%d clean %d lives %s will %s rmax %d mps %d ka %d user %s%s" % (
            c, ver, clean, lives, will and (will.topic, will.qos, will.retain, will.props), rmax, mps, ka, user, " (taking over)" if old else ""))
        conn.send(M.connect(ver, c.cid, int(clean), ka, will, user, pw, ps))
        p, rest = self.wait1(conn)
        self.log("%s <- %s" % (c, p))
        if p is None:
            self.bad("no-connack", "no CONNACK for %s (connection open: %s)" % (c, conn.open))
        if p.t != M.CONNACK:
            self.bad("first-packet", "first packet from the broker to %s is %s" % (c, p))
        if refuse:
            if p.reason not in refuse or p.present:
                self.bad("not-refused", "CONNECT of %s should be refused with one of %s: %s" % (c, refuse, p))
            self.gone(conn, "%s refused" % c)
            self.ctx.stat("connects_refused")
            return p
        if p.reason:
            self.bad("refused", "CONNECT of %s refused: %s" % (c, p))
        # what should be there of the session
        if old:
            self.lost(c, keep_read=True)
            exists = c.lives > 0
        else:
            exists = c.lives > 0
            if exists and c.lives != INF:
                age = time.time() - c.off_at
                if age > c.lives + 3:
                    exists = False
                elif time.time() - c.off_lo > c.lives - 1:
                    exists = None
        present = 1 if exists and not clean else 0
        if exists is not None and p.present != present:
            self.bad("session-present", "%s: CONNACK says session present=%d, should be %d (clean %s, session lives %s s, offline for %.1f s)" % (
                c, p.present, present, clean, c.lives, time.time() - c.off_at if c.off_at else 0))
        self.ctx.stat("sessions_resumed" if p.present else "sessions_new")
        prev = c.will if old else None
        if not p.present:
            c.reset()
        dp = dict(p.props)
        c.conn, c.ver, c.lives, c.will = conn, ver, lives, will
        c.rmax, c.mps, c.mode, c.q = rmax or 65535, mps, mode, []
        c.out, c.acks, c.closed_ok, c.ka, c.sure = {}, [], False, ka, set()
        c.user = user
        c.limit = min(c.rmax, 125)
        if not old:
            self.back(c, p.present)
        self.rewill(c)
        if old:
            self.took_over(c, old, prev, p, rest)
        else:
            for x in rest:
                self.packet(c, x)
        return p

    def took_over(self, c, old, prev, p, rest):
        """the old connection is to be closed, the V5 client is told why"""
        if prev:
            self.will_out(c, prev, 0 if not p.present else None)
        for x in rest:
            self.packet(c, x)
        e = time.time() + 15 * self.slow
        bye = None
        while old.open and time.time() < e:
            self.pump(0.02)
            for x in old.pull(0.02):
                if x.t == M.DISCONNECT:
                    bye = x
                elif bye:
                    self.bad("after-disconnect", "%s sent to %s after DISCONNECT" % (x, c))
        if old.open:
            self.bad("takeover-open", "connection of %s still open after another client took over the session" % c)
        if old.ver == 5 and (not bye or bye.reason != 0x8e):
            self.bad("takeover-reason", "V5 client %s was not told that its session was taken over: %s" % (c, bye))
        old.close()
        self.ctx.stat("takeovers")

    def gone(self, conn, what):
        e = time.time() + 25 * self.slow
        while conn.open and time.time() < e:
            for x in conn.pull(0.3):
                if x.t != M.DISCONNECT:
                    self.bad("after-refusal", "%s: broker sent %s" % (what, x))
        if conn.open:
            self.bad("not-closed", "%s: connection still open" % what)
        conn.close()

    def lost(self, c, keep_read=False):
        """the connection of c is gone: what the broker had sent may have been lost"""
        for e in c.exp:
            e.sent = True
        for x in c.infl.values():
            x[0].sent = True
        if c.lives == 0 and not keep_read:
            c.exp, c.infl, c.maybe = [], {}, {}
            c.subs.clear()
        else:
            for e in c.exp:
                if e.qos == 0:
                    e.must = False
            for pid, (e, st) in c.infl.items():
                if st == "pub" or st == "rec":
                    pass
            # QoS0 deliveries and acknowledgements on their way are lost
            c.maybe.update({pid: e for pid, e in c.q})
        c.conn = None
        c.off_at = time.time()

    def drop(self, c, how="abrupt", lives=None):
        """end the connection: abrupt | normal | will (V5 reason 4) | silent (the keep alive time runs out), -> True if the will is to be published
        lives: session expiry given when disconnecting"""
        self.log("%s: drop %s %s" % (c, how, "" if lives is None else lives))
        c.off_lo = time.time()
        ps = [] if lives is None else [(17, lives)]
        if how in ("normal", "will"):
            c.conn.send(M.disconnect(c.ver, 0 if how == "normal" else 4, ps))
            if lives is not None:
                c.lives = lives
        w, c.will = c.will, None
        if w and how != "normal":
            self.will_out(c, w, None, True, 1.5 * c.ka if how == "silent" else 0)
        if how == "silent":
            self.silent(c)
        if how != "abrupt" and self.rng.random() < 0.15:
            # let the broker close
            e = time.time() + 15 * self.slow
            while c.conn.open and time.time() < e:
                self.pump(0.02, c)
                for x in c.conn.pull(0.02):
                    if x.t == M.PUBLISH:
                        self.packet(c, x, ack=False)
            if c.conn.open:
                self.bad("not-closed", "connection of %s still open after its DISCONNECT" % c)
        else:
            time.sleep(self.rng.choice([0, 0, 0.05]))
        c.conn.close()
        # unfinished publishes of this client
        for o in c.out.values():
            for k in self.cl.values():
                for e in k.exp:
                    if e.payload == o.msg[1]:
                        e.must = e.must and o.state != "pub"
                        e.key = None
        self.unfinished = [o for o in c.out.values()]
        self.lost(c)

    def silent(self, c):
        """say nothing until the broker gives up"""
        t = time.time()
        limit = 1.5 * c.ka
        c.closed_ok = True
        c.bye = None
        c.mute = True
        # the others have to keep talking
        last = t
        while c.conn.open and time.time() < t + limit + 14 + 4 * self.slow:
            self.pump(0.02, c)
            for x in c.conn.pull(0.05):
                self.packet(c, x, ack=False)
            if time.time() - last > 1:
                last = time.time()
                for k in self.cl.values():
                    if k.conn and k is not c:
                        self.ping(k)
        d = time.time() - t
        bye = c.bye
        c.mute = False
        if c.conn.open:
            self.bad("keep-alive", "%s said nothing for %.1f s, keep alive is %d s, but is still connected" % (c, d, c.ka))
        if d < limit - 0.5:
            self.bad("keep-alive-early", "%s was disconnected after %.1f s, keep alive is %d s" % (c, d, c.ka))
        # the V5 standard defines a reason, and also says to close as if the network had failed
        if bye and (c.ver != 5 or bye.reason != 0x8d):
            self.bad("keep-alive-reason", "%s was not told about the keep alive timeout: %s" % (c, bye))
        self.ctx.stat("keep_alive_timeouts")

    def will_out(self, c, w, delay, off=False, after=0):
        """the will of c is published now (delay None: after its delay, or the end of the session)"""
        if delay is None:
            delay = 0
            for k, v in w.props:
                if k == 24:
                    delay = v
            if off:
                delay = min(delay, c.lives)
            elif delay:
                self.log("will of %s is cancelled by the reconnect" % c)
                self.ctx.stat("wills_cancelled")
                return
            else:
                delay = 0
        delay += after
        self.log("will of %s due in %s" % (c, delay))
        if self.denied(c, w.topic, "w"):
            return
        ps = [x for x in w.props if x[0] != 24]
        self.made = []
        due = time.time() + delay
        self.expect(c, w.topic, w.payload, w.qos, w.retain, ps, nb=due - 0.3 if delay else -1)
        self.ctx.stat("wills_expected")
        if delay:
            self.pw.append([c, w, ps, due, self.seq, self.made])
            self.made = []

    def pending(self):
        """wills which are (or may be) still waiting"""
        now = time.time()
        self.pw = [x for x in self.pw if x[3] > now - 14 * self.slow]
        return self.pw

    def rewill(self, k):
        """the subscriptions of k have changed: who gets the wills which are not yet published?"""
        now = time.time()
        for c, w, ps, due, seq, made in self.pending():
            sure = due > now + 0.5
            for x in made:
                if x[0] is k and x[1] in k.exp:
                    x[1].must = False
                    if sure:
                        k.exp.remove(x[1])
            n, self.made, s, self.seq = self.made, [], self.seq, seq - 1
            self.expect(c, w.topic, w.payload, w.qos, w.retain, ps, must=sure, nb=due - 0.3, only=k)
            made[:] = [x for x in made if x[0] is not k or x[1] in k.exp] + self.made
            self.made, self.seq = n, s

    def back(self, c, present):
        """c is connected again: its delayed will is cancelled, or with the session gone, due"""
        now = time.time()
        for x in self.pending()[:]:
            if x[0] is not c:
                continue
            self.pw.remove(x)
            self.log("delayed will of %s is %s by the reconnect" % (c, "cancelled" if present else "due"))
            self.ctx.stat("wills_cancelled" if present else "wills_due_early")
            for k, e in x[5]:
                if e not in k.exp:
                    continue
                if not present:
                    e.nb = -1
                elif x[3] > now + 1:
                    k.exp.remove(e)
                else:
                    e.must = False

    # ---- model
    def denied(self, c, topic, kind):
        if self.acl is None:
            return False
        return not self.acl(kind, topic, c.user)

    def expect(self, c, topic, payload, qos, retain, ps, must=True, twice=False, nb=0, only=None):
        """a message is published by c: who gets it?"""
        self.seq += 1
        tb = topic.encode() if isinstance(topic, str) else topic
        now = time.time()
        interval = dict((k, v) for k, v in ps if k == 2).get(2, 0)
        exp = max(now, nb) + interval if interval else None
        ps = [x for x in ps if x[0] != 2]
        if retain:
            if payload:
                self.retained[tb] = [payload, qos, ps, c.cid, self.seq, exp, interval]
            else:
                self.retained.pop(tb, None)
        n = 0
        for k in self.cl.values():
            if k.conn is None and k.lives == 0 or only and k is not only:
                continue
            for f, o in k.subs.items():
                if not T.match(f, tb):
                    continue
                if o & 4 and k is c:
                    self.ctx.stat("no_local")
                    continue
                q = min(qos, o & 3)
                m = must and (k.conn is not None or q > 0)
                size = self.size(k, tb, payload, q, ps, exp)
                if k.conn is not None and k.mps and size > k.mps:
                    self.ctx.stat("too_large")
                    continue
                e = Exp(self.seq, c.cid, tb, payload, q, retain if o & 8 else 0, ps, m, (c.cid, tb, (qos, q), f) if not nb else None, exp, interval, twice, nb, f)
                k.exp.append(e)
                self.made.append((k, e))
                n += 1
        self.ctx.count(n)
        return n

    def size(self, k, topic, payload, qos, ps, exp):
        if exp:
            ps = ps + [(2, 1)]
        return len(M.publish(5, topic, payload, qos, 0, 0, 1, ps))

    def will_later(self, e):
        return e.nb and time.time() < e.nb + 0.3

    # ---- packets from the broker
    def packet(self, c, p, ack=True):
        self.log("%s <- %s" % (c, p))
        self.ctx.stat("packets")
        t = p.t
        ack = ack and not c.mute
        if t == M.PUBLISH:
            self.delivery(c, p, ack)
        elif t == M.PUBREL:
            x = c.infl.get(p.pid)
            if x and x[1] == "rec":
                if c.mode == "half" and ack:
                    x[1] = "rel"
                    return
                del c.infl[p.pid]
            elif x and x[1] == "rel":
                x[0].got += 1
                self.ctx.stat("pubrel_redelivered")
                if c.mode == "half" and ack:
                    return
                del c.infl[p.pid]
            elif x and x[1] == "pub":
                self.bad("pubrel-early", "%s: PUBREL %d although no PUBREC was sent" % (c, p.pid))
            elif p.pid not in c.maybe and p.pid not in c.hist:
                self.bad("pubrel-unknown", "%s: PUBREL for unknown packet ID %d" % (c, p.pid))
            if ack:
                self.ack(c, M.PUBCOMP, p.pid)
                c.q.append((p.pid, None))
        elif t in (M.PUBACK, M.PUBREC, M.PUBCOMP):
            o = c.out.get(p.pid)
            if not o or (t == M.PUBACK) != (o.qos == 1) or (t == M.PUBCOMP and o.state != "rel"):
                if o and t == M.PUBREC and o.qos == 2:
                    return
                self.bad("ack-unexpected", "%s: unexpected %s, state %s" % (c, p, o and (o.qos, o.state)))
            if t == M.PUBREC:
                o.reason = p.reason
                if p.reason >= 0x80:
                    del c.out[p.pid]
                    c.acks.append((o, p))
                elif o.state in ("pub", "rec"):
                    o.state = "rec"
            else:
                o.reason = p.reason if o.reason is None or p.reason else o.reason
                del c.out[p.pid]
                c.acks.append((o, p))
        elif t == M.DISCONNECT:
            if c.ver != 5:
                self.bad("disconnect-v3", "DISCONNECT sent to V3 client %s" % c)
            c.bye = p
            if not c.closed_ok:
                self.bad("disconnected", "%s was disconnected: %s" % (c, p))
        elif t in (M.SUBACK, M.UNSUBACK, M.PINGRESP):
            c.acks.append((None, p))
        else:
            self.bad("packet-type", "%s received %s" % (c, p))

    def delivery(self, c, p, ack):
        now = time.time()
        st = self.ctx.stat
        if self.hostile and p.topic.startswith(self.hostile):
            # of the hostile clients
            st("foreign_deliveries")
            if ack and p.qos == 1:
                self.ack(c, M.PUBACK, p.pid)
            elif ack and p.qos == 2:
                c.infl[p.pid] = [Exp(0, "", b"", b"", 2, 0, []), "rec"]
                self.ack(c, M.PUBREC, p.pid)
            return
        e = None
        if p.dup:
            x = c.infl.get(p.pid)
            if x and x[0].payload == p.payload and x[0].topic == p.topic:
                if x[1] == "rec" and p.pid in c.sure or x[1] == "rel":
                    self.bad("qos2-redelivery", "%s: PUBLISH %d sent again although %s" % (c, p.pid, "PUBREC was sent" if x[1] == "rec" else "PUBREL was received"))
                e = x[0]
                st("redelivered")
                e.got += 1
                if x[1] == "rec":
                    if ack:
                        self.ack(c, M.PUBREC, p.pid)
                    return
                if c.mode == "now" and ack:
                    self.answer(c, p.pid)
                self.check_content(c, p, e, now)
                return
            for i, (pid, e) in enumerate(c.q):
                # sent again before the broker saw the PUBACK
                if pid == p.pid and e is not None and e.payload == p.payload and e.topic == p.topic:
                    self.check_content(c, p, e, now)
                    st("redelivered_acked")
                    if ack:
                        self.ack(c, M.PUBACK if e.qos == 1 else M.PUBREC, p.pid)
                    return
            if p.pid in c.maybe and c.maybe[p.pid] is not None and c.maybe[p.pid].payload == p.payload:
                e = c.maybe.pop(p.pid)
                st("redelivered_acked")
                self.check_content(c, p, e, now)
                c.infl[p.pid] = [e, "pub"]
                if ack:
                    self.answer(c, p.pid)
                return
        elif p.qos and p.pid in c.infl:
            self.bad("packet-id-in-use", "%s: packet ID %d is still in use by %s" % (c, p.pid, c.infl[p.pid]))
        cand = [x for x in c.exp if x.payload == p.payload and x.topic == p.topic]
        best = [x for x in cand if x.qos == p.qos and x.retain == p.retain]
        if p.dup:
            best = [x for x in best if x.sent]
        if not best:
            if p.dup and cand:
                self.bad("dup-first", "%s: DUP set on first delivery %s\nexpected: %s" % (c, p, cand))
            self.bad("delivery-" + ("different" if cand else "unexpected"), "%s: delivery %s\nexpected of this message: %s\nsubscriptions %s\nother expectations: %s" % (
                c, p, cand, dict(c.subs), c.exp[:10]))
        e = min(best, key=lambda x: (x.seq, x.nb, not x.must))
        c.exp.remove(e)
        if e.nb and now < e.nb:
            self.bad("too-early", "%s: will %s published %.2f s too early" % (c, p, e.nb - now))
        if e.key and not e.sent and not e.twice:
            # several subscriptions may have the same QoS: the copies are indistinguishable, the order is judged per message
            k = e.key[:3]
            if c.last.get(k, 0) > e.seq and not any(x.seq < c.last[k] and x.key and x.key[:3] == k for x in best if x is not e):
                mult = len({f for f in c.subs if T.match(f, e.topic)})
                if mult == 1:
                    self.bad("order", "%s: %s (number %d) was delivered after number %d of the same publisher, topic and QoS" % (c, p, e.seq, c.last[k]))
            c.last[k] = max(c.last.get(k, 0), e.seq)
            st("order_checked")
        self.check_content(c, p, e, now)
        e.got += 1
        st("delivered_qos%d" % p.qos)
        if e.retain:
            st("delivered_retain_flag")
        if e.twice:
            # the publisher sent it twice: one more may come
            e2 = Exp(e.seq, e.pub, e.topic, e.payload, e.qos, e.retain, e.props, False, None, e.expires, e.interval, False, 0, e.filt)
            e2.sent = e.sent
            c.exp.append(e2)
        if p.qos:
            c.infl[p.pid] = [e, "pub"]
            c.sure.discard(p.pid)
            c.hist.append(p.pid)
            if len(c.infl) > c.limit:
                self.bad("receive-maximum", "%s: %d messages in flight, receive maximum is %d" % (c, len(c.infl), c.limit))
            self.ctx.distinct(("inflight", len(c.infl)))
            if ack and c.mode != "hold":
                self.answer(c, p.pid)

    def check_content(self, c, p, e, now):
        if p.topic != e.topic or p.payload != e.payload or p.qos != e.qos or p.retain != e.retain:
            self.bad("content", "%s: %s should be %s" % (c, p, e))
        if c.ver == 5:
            iv = [v for k, v in p.props if k == 2]
            got = [x for x in p.props if x[0] != 2]
            want = [(k, tuple(M.by(y) for y in v) if isinstance(v, tuple) else v if isinstance(v, int) else M.by(v)) for k, v in e.props]
            if [x for x in got if x[0] == 38] != [x for x in want if x[0] == 38] or sorted(map(repr, got)) != sorted(map(repr, want)):
                self.bad("properties", "%s: properties of %s should be %s" % (c, p, want))
            if want:
                self.ctx.stat("properties_checked")
            if bool(iv) != bool(e.interval) or len(iv) > 1:
                self.bad("expiry-property", "%s: expiry property %s, published with %s" % (c, iv, e.interval))
            if iv and not e.twice and not p.dup:
                lo = e.interval - (now - e.born) - 2 * self.slow - (3 if e.nb else 0)
                if iv[0] > e.interval or iv[0] < min(lo, 1):
                    self.bad("expiry-value", "%s: expiry interval %d, published %.1f s ago with %d" % (c, iv[0], now - e.born, e.interval))
                if not e.nb and iv[0] > e.interval - (now - e.born - 2 * self.slow) + 0.01 and now - e.born > 2 * self.slow + 1:
                    self.bad("expiry-value", "%s: expiry interval %d, although published %.1f s ago with %d" % (c, iv[0], now - e.born, e.interval))
        if c.mps and p.size > c.mps and not p.dup:
            self.bad("packet-size", "%s: packet of %d bytes, maximum is %d" % (c, p.size, c.mps))
        if e.expires and now > e.expires + 1.5 * self.slow and not p.dup and not e.sent:
            self.bad("expired", "%s: %s delivered %.1f s after its expiry" % (c, p, now - e.expires))

    def ack(self, c, t, pid, reason=0):
        """acknowledge in any of the forms which V5 allows"""
        r = self.rng
        ps = None
        if c.ver == 5 and r.random() < 0.2:
            ps = r.choice(["none", [], [(31, "because")], [(31, ""), (38, ("k", "v" * r.choice([0, 1, 200])))]])
        c.conn.send(M.ack(c.ver, t, pid, reason, ps))

    def answer(self, c, pid):
        x = c.infl[pid]
        e = x[0]
        if e.qos == 1:
            del c.infl[pid]
            self.ack(c, M.PUBACK, pid)
            c.q.append((pid, e))
        elif x[1] == "pub":
            if c.ver == 5 and self.rng.random() < 0.03:
                del c.infl[pid]
                self.ack(c, M.PUBREC, pid, self.rng.choice([0x80, 0x97, 0x99]))
                self.ctx.stat("pubrec_error")
                c.q.append((pid, e))
                return
            x[1] = "rec"
            self.ack(c, M.PUBREC, pid)
        elif x[1] == "rel":
            del c.infl[pid]
            self.ack(c, M.PUBCOMP, pid)
            c.q.append((pid, None))

    def pump(self, t=0.05, but=None):
        cs = [c for c in self.cl.values() if c.conn and c is not but]
        for c in cs:
            c.conn.flush_ready = False
        socks = {c.conn.s: c for c in cs if c.conn.open}
        if not socks:
            time.sleep(t)
            return False
        r, _, _ = select.select(list(socks), [], [], t)
        any_ = False
        for s in r:
            c = socks[s]
            try:
                ps = c.conn.pull(0)
            except M.Malformed as x:
                self.bad("malformed", "%s received a malformed packet: %s\n%r" % (c, x, c.conn.lastraw[:300]))
            for p in ps:
                any_ = True
                self.packet(c, p)
            if not c.conn.open and not c.closed_ok:
                if c.out or ps:
                    pass
                self.bad("closed", "broker closed the connection of %s" % c)
        return any_

    def until(self, cond, what, t=20):
        e = time.time() + t * self.slow
        while not cond():
            if time.time() > e:
                self.bad("timeout", "timeout waiting for %s" % what)
            self.pump()

    def take_ack(self, c, t, pid=None):
        for i, (o, p) in enumerate(c.acks):
            if p.t == t and (pid is None or getattr(p, "pid", None) == pid):
                return c.acks.pop(i)
        return None

    def ping(self, c):
        rec = {pid for pid, x in c.infl.items() if x[1] == "rec"}
        q = c.q[:]
        c.conn.send(M.frame(M.PINGREQ, 0, b""))
        r = []
        self.until(lambda: r.append(self.take_ack(c, M.PINGRESP)) or r[-1], "PINGRESP for %s" % c)
        # the broker has seen what was sent before
        c.sure |= rec & {pid for pid, x in c.infl.items() if x[1] == "rec"}
        c.q = [x for x in c.q if x not in q]

    def pid(self, c):
        while True:
            p = self.rng.choice([1, 2, self.rng.randint(1, 30), self.rng.randint(1, 65535), 65535])
            if p not in c.out:
                return p

    # ---- operations
    def subscribe(self, c, subs, ps=()):
        pid = self.pid(c)
        self.log("%s: SUBSCRIBE %s" % (c, subs))
        now = time.time()
        want = []
        new = []
        for f, o in subs:
            fb = f.encode() if isinstance(f, str) else f
            if self.denied(c, fb, "s"):
                want.append(0x87 if c.ver == 5 else 0x80)
                continue
            want.append(o & 3)
            rh = o >> 4 & 3
            had = fb in c.subs
            if c.ver == 5 and (rh == 2 or (rh == 1 and had)):
                self.ctx.stat("retain_handling")
            else:
                new.append((fb, o))
            c.subs[fb] = o
        for fb, o in new:
            for tb, (pl, q, rp, pub, seq, exp, iv) in self.retained.items():
                if T.match(fb, tb):
                    left = exp - now if exp else 99
                    if left < -1.5:
                        self.ctx.stat("retained_expired")
                        continue
                    q2 = min(q, o & 3)
                    if c.mps and self.size(c, tb, pl, q2, rp, exp) > c.mps:
                        continue
                    e = Exp(seq, pub, tb, pl, q2, 1, rp, left > 3, None, exp, iv, False, 0, fb)
                    if exp:
                        e.born = exp - iv
                    c.exp.append(e)
                    self.ctx.stat("retained_expected")
        self.rewill(c)
        self.put(c, M.subscribe(c.ver, pid, subs, ps))
        r = []
        self.until(lambda: r.append(self.take_ack(c, M.SUBACK)) or r[-1], "SUBACK for %s" % c)
        p = r[-1][1]
        codes = p.codes
        if self.acl is not None and c.ver != 5:
            codes = [0x80 if x >= 0x80 else x for x in codes]
        if p.pid != pid or codes != want:
            self.bad("suback", "%s: SUBACK %s should have ID %d and codes %s" % (c, p, pid, want))
        self.ctx.count()

    def unsubscribe(self, c, fs):
        self.log("%s: UNSUBSCRIBE %s" % (c, fs))
        pid = self.pid(c)
        want = []
        for f in fs:
            fb = f.encode() if isinstance(f, str) else f
            want.append(0 if fb in c.subs else 0x11)
            c.subs.pop(fb, None)
        self.rewill(c)
        self.put(c, M.unsubscribe(c.ver, pid, fs))
        r = []
        self.until(lambda: r.append(self.take_ack(c, M.UNSUBACK)) or r[-1], "UNSUBACK for %s" % c)
        p = r[-1][1]
        if p.pid != pid or (c.ver == 5 and p.codes != want) or (c.ver != 5 and p.codes):
            self.bad("unsuback", "%s: UNSUBACK %s should have ID %d and codes %s" % (c, p, pid, want))
        self.ctx.count()

    def payload(self, c, size=None):
        r = self.rng
        n = size if size is not None else r.choice([0, 0, 5, 40, 200, 1000, 130, 126] + ([20000, 200000] if r.random() < 0.1 else []))
        self.seq += 1
        return b"<%s %d>" % (c.cid.encode(), self.seq) + r.randbytes(n)

    def rprops(self, c, expiry=True):
        r = self.rng
        ps = []
        if c.ver != 5 or r.random() < 0.5:
            return ps
        if r.random() < 0.3:
            ps.append((1, r.randint(0, 1)))
        if expiry and r.random() < 0.25:
            ps.append((2, r.choice([30, 60, 100000, INF])))
        if r.random() < 0.3:
            ps.append((8, "re/" + "x" * r.randint(0, 9)))
        if r.random() < 0.3:
            ps.append((9, r.randbytes(r.choice([0, 1, 30, 300]))))
        if r.random() < 0.3:
            ps.append((3, "text/plain"))
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            ps.append((38, (r.choice(["k", "a", ""]), r.choice(["v", "", "w" * 50]) + str(r.randint(0, 9)))))
        r.shuffle(ps)
        return ps

    def post(self, c, topic, payload, qos, retain=0, ps=(), send=True):
        """PUBLISH without waiting for anything"""
        ps = list(ps)
        pid = self.pid(c) if qos else 0
        self.log("%s: PUBLISH %s qos %d retain %d pid %d %r %d bytes%s" % (c, topic, qos, retain, pid, payload[:30], len(payload), " props %s" % (ps,) if ps else ""))
        deny = self.denied(c, topic, "w")
        if qos:
            c.out[pid] = Out(pid, (topic, payload, retain, ps, deny), qos)
        n = 0 if deny else self.expect(c, topic, payload, qos, retain, ps)
        self.ctx.stat("publishes")
        self.ctx.distinct(("pub", c.ver, qos, retain, n, min(len(payload), 300) // 100, deny))
        b = M.publish(c.ver, topic, payload, qos, retain, 0, pid, ps)
        if send:
            self.put(c, b)
        return b

    def finish(self, c):
        """complete all handshakes of the publisher c"""
        def step():
            for o in c.out.values():
                if o.state == "rec":
                    o.state = "rel"
                    self.ack(c, M.PUBREL, o.pid)
            return not c.out
        self.until(step, "acknowledgements for %s: %s" % (c, [(o.pid, o.qos, o.state) for o in c.out.values()]))
        for o, p in [x for x in c.acks if x[0]]:
            c.acks.remove((o, p))
            if c.ver == 5:
                deny = o.msg[4]
                ok = (p.reason == 0x87) if deny and p.t != M.PUBCOMP else p.reason in ((0, 0x10) if o.sentn == 1 or p.t != M.PUBCOMP else (0, 0x92))
                if not ok:
                    self.bad("ack-reason", "%s: %s, publish %s" % (c, p, "denied" if deny else "allowed"))
                if deny:
                    self.ctx.stat("publish_denied")
        self.ping(c)

    def publish(self, c, topic, payload, qos, retain=0, ps=()):
        self.post(c, topic, payload, qos, retain, ps)
        self.finish(c)

    def resume(self, c, **kw):
        """reconnect and repeat the publishes which were not finished, as the specification demands of a client"""
        un = self.unfinished
        p = self.connect(c, **kw)
        for o in un:
            topic, payload, retain, ps, deny = o.msg
            if o.state == "pub" or not p.present:
                # with the session gone, repeating would be a new message: leave it
                if not p.present:
                    continue
                for k in self.cl.values():
                    for e in k.exp:
                        if e.payload == payload:
                            e.must = e.must or k.conn is not None or e.qos > 0
                            e.key = None
                            if o.qos == 1:
                                e.twice = True
                    if o.qos == 1:
                        # it may have been delivered already
                        self.twice_more(k, o)
                c.out[o.pid] = o
                o.state = "pub"
                self.log("%s: PUBLISH again pid %d" % (c, o.pid))
                self.put(c, M.publish(c.ver, topic, payload, o.qos, retain, 1, o.pid, ps))
                self.ctx.stat("publish_repeated")
            else:
                for k in self.cl.values():
                    for e in k.exp:
                        if e.payload == payload:
                            e.key = None
                c.out[o.pid] = o
                o.state = "rel"
                o.sentn += 1
                self.log("%s: PUBREL again pid %d" % (c, o.pid))
                self.ack(c, M.PUBREL, o.pid)
                self.ctx.stat("pubrel_repeated")
        self.unfinished = []
        self.finish(c)

    def twice_more(self, k, o):
        topic, payload, retain, ps, deny = o.msg
        tb = topic.encode() if isinstance(topic, str) else topic
        if k.conn is None and k.lives == 0:
            return
        for f, op in k.subs.items():
            if T.match(f, tb) and not any(e.payload == payload and e.filt == f for e in k.exp):
                k.exp.append(Exp(self.seq, "?", tb, payload, min(o.qos, op & 3), retain if op & 8 else 0, [x for x in ps if x[0] != 2], False, None,
                                 None, dict([x for x in ps if x[0] == 2]).get(2, 0), False, 0, f))

    def release(self, c):
        for pid, x in list(c.infl.items()):
            if x[1] in ("pub", "rel"):
                self.answer(c, pid)

    def retry(self, c):
        """what c leaves without acknowledgement is to be sent again after the configured interval"""
        t = time.time()
        while time.time() < t + 0.5:
            self.pump()
        had = {pid: (x[0], x[0].got) for pid, x in c.infl.items() if x[1] in ("pub", "rel")}
        if not had:
            return
        # the queues are gone through upon activity, and else each 10 seconds
        t = time.time() + (self.retry_s + 13) * self.slow

        def left():
            return [(pid, x) for pid, (x, n) in had.items() if x.got <= n and pid in c.infl]
        n = 0
        while left() and time.time() < t:
            self.pump()
            n += 1
            if n % 20 == 0 and c.mode == "hold":
                self.ping(c)
        if left():
            self.bad("not-repeated", "%s: not acknowledged and not sent again: %s" % (c, left()[:3]))
        self.ctx.stat("retries_checked", len(had))

    def settle(self, t=25, quiet=0.0):
        """everything owed to connected clients has to arrive"""
        modes = {c: c.mode for c in self.cl.values() if c.conn}
        for c in modes:
            c.mode = "now"
            self.release(c)
        now = time.time()

        def owed(c):
            return [e for e in c.exp if e.must and e.nb < now + 6 and not (e.expires and time.time() > e.expires - 3)]
        later = max([e.nb - now for c in modes for e in owed(c)] + [0])
        e = now + t * self.slow + later
        while True:
            left = [(c, owed(c), c.infl) for c in modes if c.conn and (owed(c) or c.infl)]
            if not left:
                break
            if time.time() > e:
                c, x, i = left[0]
                if x:
                    self.bad("lost", "not delivered to %s within %d s: %d messages, first %s\nin flight: %s" % (c, t, len(x), x[0], i))
                self.bad("handshake", "handshakes of %s not completed: %s" % (c, i))
            self.pump()
        for c in modes:
            if c.conn:
                self.ping(c)  # the acknowledgements have been seen by the broker
                c.maybe = {}
                c.q = []
                c.exp = [x for x in c.exp if x.must or x.nb > time.time() or (x.expires and not x.sent) or x.twice or time.time() - x.born < 5]
                c.exp = [x for x in c.exp if not (x.expires and time.time() > x.expires + 3)]
        q = time.time() + quiet
        while time.time() < q:
            self.pump()
        for c, m in modes.items():
            c.mode = m
        self.ctx.stat("settles")

    def end(self):
        t = self.d.stop()
        for c in self.cl.values():
            if c.conn:
                c.conn.close()
        return t
