"""A model MQTT broker which watches every packet of one RRR MQTT client, keeps session state and can fail at any point."""
import random, select, socket, struct, time
import mqtt as Q


class Bad(Exception):
    def __init__(self, key, text):
        self.key, self.text = key, text


class Sess:
    """What the server remembers of the client."""

    def __init__(self):
        self.subs = {}        # filter -> qos
        self.q2 = {}          # packet IDs of QoS 2 messages received and not released
        self.unacked = {}     # QoS 1 and 2 packet IDs for which the client has seen no final ack: pid -> (topic, payload)
        self.out = []         # messages on their way to the client


class Out:
    def __init__(self, topic, payload, qos, ps=(), retain=0):
        self.topic, self.payload, self.qos, self.ps, self.retain = topic, payload, qos, list(ps), retain
        self.pid, self.state, self.sends, self.at = 0, "new", 0, 0


class Server:
    """behaviour: dict of probabilities and settings; everything the client does wrong raises Bad"""

    def __init__(self, r, ver, want, log):
        self.r, self.ver, self.want, self.log = r, ver, want, log
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(16)
        self.port = self.l.getsockname()[1]
        self.served = False           # the client has sent something after a CONNACK
        self.hostile = False          # a malformed packet has been sent: answers are not judged
        self.subbed_at = 0
        self.cid_sure = None          # this assigned one the client has certainly taken over
        self.cid = None               # assigned or given by the client
        self.sess = None
        self.conn = None
        self.accepted = 0             # connections with positive CONNACK
        self.attempts = 0
        self.ready = False            # CONNACK sent
        self.subbed = False           # SUBSCRIBE received on this connection
        self.got = []                 # accepted messages in order: Pkt
        self.firsts = []              # first transmissions of messages in order
        self.delayed = []             # (time, function)
        self.faults = []              # names of faults to inject, in order of opportunity
        self.counts = {}
        self.recv_max = None
        self.max_inflight = 0
        self.extra_connack = []
        self.delay = 0
        self.lastpid = 0
        self.epoch = 0                # sessions lost
        self.unsubs = []
        self.unanswered = {}
        self.added = []               # filters of the latest subscribe command
        self.disc = None              # last DISCONNECT
        self.down = False
        self.grant = {}               # filter -> code to answer
        self.strict = True
        self.drops = 0
        self.sub_pid = None

    def n(self, k, c=1):
        self.counts[k] = self.counts.get(k, 0) + c

    # ---- running

    def later(self, s, f):
        if s <= 0:
            f()
        else:
            self.delayed.append((time.time() + s, self.conn, f))

    def pump(self, until, timeout, step=0.02):
        """serves the client until the condition holds; -> whether it did"""
        t = time.time()
        while True:
            if until is not None and until():
                return True
            now = time.time()
            if now - t > timeout:
                return until is None
            due = [x for x in self.delayed if x[0] <= now]
            self.delayed = [x for x in self.delayed if x[0] > now]
            for _, c, f in due:
                if c is self.conn and c is not None and c.open:
                    f()
            fds = [] if self.down else [self.l]
            if self.conn:
                fds.append(self.conn.s)
            rd = select.select(fds, [], [], step)[0] if fds else (time.sleep(step) or [])
            if self.conn and self.conn.s in rd:
                c = self.conn
                try:
                    ps = c.pull(0)
                except Q.Malformed as e:
                    raise Bad("malformed", "the client sent a malformed packet: %s raw %r" % (e, c.lastraw[:200]))
                for p in ps:
                    if self.conn is c and c.open:
                        self.log("< %r" % p)
                        self.packet(p)
                if self.conn is c and not c.open:
                    self.log("client closed")
                    self.n("client_closed")
                    self.lost()
            elif self.l in rd:
                s, _ = self.l.accept()
                if self.conn:
                    self.log("new connection while the old one is there")
                    self.lost()
                self.conn = Q.Conn(s, self.ver)
                self.log("connection")
                self.connected = False

    def lost(self):
        if self.conn:
            self.conn.close()
        self.conn, self.ready, self.subbed = None, False, False

    def drop(self, why):
        self.log("DROP %s" % why)
        self.drops += 1
        self.n("drop_" + why.split()[0])
        self.lost()

    def send(self, b, what):
        if self.conn is None:
            return
        if self.r.random() < 0.03:
            self.log("> (in parts) " + what)
            k = self.r.randrange(1, len(b))
            self.conn.send(b[:k])
            time.sleep(0.01)
            self.conn.send(b[k:])
        else:
            self.log("> " + what)
            self.conn.send(b)

    def fault(self, name):
        """is this fault due now?"""
        if name in self.faults:
            self.faults.remove(name)
            return True
        return False

    # ---- packets

    def packet(self, p):
        c = self.conn
        if self.subbed and not self.unanswered and time.time() - self.subbed_at > 4:
            self.cid_sure = self.cid
        self.n(Q.NAMES[p.t])
        if not self.connected:
            if p.t != Q.CONNECT:
                raise Bad("first-packet", "first packet is %r" % p)
            self.connected = True
            return self.connect(p)
        if self.ready:
            self.served = True
        if self.hostile:
            if p.t == Q.DISCONNECT:
                self.n("hostile_answered")
            return
        if p.t == Q.CONNECT:
            raise Bad("second-connect", "CONNECT twice on one connection")
        if p.t == Q.DISCONNECT:
            self.disc = p
            return
        if not self.ready:
            raise Bad("before-connack", "%r before CONNACK" % p)
        f = {Q.SUBSCRIBE: self.subscribe, Q.UNSUBSCRIBE: self.unsubscribe, Q.PUBLISH: self.publish, Q.PUBREL: self.pubrel, Q.PUBACK: self.puback, Q.PUBREC: self.pubrec,
             Q.PUBCOMP: self.pubcomp, Q.PINGREQ: lambda p: self.send(Q.frame(Q.PINGRESP, 0, b""), "PINGRESP")}.get(p.t)
        if f is None:
            raise Bad("direction", "the client sent %r" % p)
        f(p)

    def connect(self, p):
        w = self.want
        self.attempts += 1
        if p.ver != self.ver or p.name != b"MQTT":
            raise Bad("connect-version", "%r, expected protocol level %d" % (p, self.ver))
        want_id = w["cid"] if w["cid"] else self.cid if self.ver == 5 and w["recycle"] and self.cid else b""
        # an assigned identifier is taken over some time after CONNACK, not if the connection ends before that
        early = [b"", self.cid_sure] if not w["cid"] and self.cid != self.cid_sure else []
        if p.cid != want_id and p.cid not in early:
            raise Bad("connect-id", "client identifier %r, expected %r" % (p.cid, want_id))
        if p.user != w["user"] or p.pw != w["pw"]:
            raise Bad("connect-auth", "user %r password %r" % (p.user, p.pw))
        ww = w["will"]
        if (p.will is None) != (ww is None) or ww and (p.will.topic, p.will.payload, p.will.qos, p.will.retain) != (ww.topic, ww.payload, ww.qos, ww.retain):
            raise Bad("connect-will", "will %s, expected %s" % (p.will and p.will.__dict__, ww and ww.__dict__))
        clean = 1 if not self.accepted or not p.cid else 0
        if p.clean != clean and not (p.clean and not self.served):  # it may not have seen any CONNACK yet
            raise Bad("connect-clean", "clean %d, expected %d (%d successful connects before)" % (p.clean, clean, self.accepted))
        if p.ka != 30:
            raise Bad("connect-keepalive", "keep-alive %d" % p.ka)
        if self.down or self.fault("drop-before-connack"):
            return self.drop("before-connack")
        if self.fault("refuse"):
            code = self.r.choice([0x80, 0x88, 0x97, 0x87]) if self.ver == 5 else self.r.choice([2, 3, 5])
            self.send(bytes([0x20]) + (b"\x03\0" + bytes([code]) + b"\0" if self.ver == 5 else b"\x02\0" + bytes([code])), "CONNACK %02x" % code)
            self.n("refused")
            return self.later(0.01, lambda: self.drop("refused"))
        if self.fault("garbage-connack"):
            self.send(self.r.choice([b"\x20\x02\x02\x00\x00", b"\x21\x02\0\0", b"\x20\x00", b"\x30\x00", b"\x90\x03\0\1\0", bytes(self.r.randrange(256) for _ in range(20)), b"\x20\xff\xff\xff\xff"]), "garbage instead of CONNACK")
            self.n("garbage_connack")
            return self.later(0.05, lambda: self.drop("garbage-connack"))
        if self.fault("no-connack"):
            self.n("no_connack")
            return
        present = 0
        lose = self.fault("lose-session")
        if self.sess is not None and self.sess.temporary:
            lose = True  # V3 session with clean flag ends with its connection
        if p.clean or lose or self.sess is None:
            if self.sess is not None:
                self.epoch += 1
                self.log("session lost, epoch %d, %d messages of the client unacknowledged" % (self.epoch, len(self.sess.unacked)))
                self.n("sessions_lost")
                for o in self.sess.out:
                    o.state = "lost"
            self.sess = Sess()
            self.sess.temporary = self.ver != 5 and p.clean
        else:
            present = 1
            self.n("sessions_resumed")
        self.on_connack(present)
        ps = []
        if self.ver == 5:
            if not p.cid:
                self.cid = b"auto-%d-%d" % (self.r.randrange(1000), self.attempts)
                ps.append((18, self.cid))
            if self.recv_max:
                ps.append((33, self.recv_max))
            ps += self.extra_connack
        self.conn.inflight = {}
        b = bytes([present, 0]) + (Q.props(ps) if self.ver == 5 else b"")
        cn = self.conn

        def go():
            self.send(Q.frame(Q.CONNACK, 0, b), "CONNACK present %d %r" % (present, ps))
            self.accepted += 1
            self.ready = True
            if self.fault("drop-after-connack"):
                return self.drop("after-connack")
            self.resume(present)
        self.later(self.r.choice([0, 0, 0, 0.3, 1.5]), go)

    def on_connack(self, present):
        pass

    def resume(self, present):
        if present:
            for o in list(self.sess.out):
                if o.state in ("pub", "rec"):
                    self.deliver(o)

    def subscribe(self, p):
        exp = self.want["subs"]
        have = {f: o & 3 for f, o in p.subs}
        if p.pid == 0:
            raise Bad("subscribe-id", "packet ID 0")
        if not p.subs:
            raise Bad("subscribe-empty", "SUBSCRIBE without filters")
        if self.unanswered.get(p.pid) == have:
            self.n("subscribe_repeated")  # the client got no SUBACK
        elif self.subbed and self.added and have == {f: exp.get(f, 0) for f in self.added}:
            self.n("subscribed_added_only")
        elif have != exp:
            raise Bad("subscribe", "SUBSCRIBE with %r, expected %r" % (have, exp))
        self.unanswered[p.pid] = have
        if self.fault("drop-at-subscribe"):
            return self.drop("at-subscribe")
        codes = []
        for f, o in p.subs:
            q = min(self.grant.get(f, 2), o & 3) if self.grant.get(f, 2) < 3 else self.grant[f]
            codes.append(q)
            if q < 3:
                self.sess.subs[f] = q
        cn = self.conn

        def go():
            self.unanswered.pop(p.pid, None)
            self.send(Q.frame(Q.SUBACK, 0, struct.pack(">H", p.pid) + (b"\0" if self.ver == 5 else b"") + bytes(codes)), "SUBACK %r" % codes)
        self.subbed = True
        self.subbed_at = time.time()
        self.later(self.r.choice([0, 0, self.delay]), go)
        if self.fault("drop-after-subscribe"):
            self.drop("after-subscribe")

    def unsubscribe(self, p):
        if p.pid == 0 or not p.subs:
            raise Bad("unsubscribe", "%r" % p)
        self.unsubs.append(p.subs)
        codes = []
        for f in p.subs:
            codes.append(0 if f in self.sess.subs else 17)
            self.sess.subs.pop(f, None)
            self.on_unsub(f, codes[-1])
        self.send(Q.frame(Q.UNSUBACK, 0, struct.pack(">H", p.pid) + (b"\0" + bytes(codes) if self.ver == 5 else b"")), "UNSUBACK %r" % codes)

    def on_unsub(self, f, code):
        pass

    def publish(self, p):
        s = self.sess
        c = self.conn
        if not self.subbed and self.want["subs"]:
            # the client subscribes first of all
            pass
        if b"\0" in p.topic or not p.topic or b"#" in p.topic or b"+" in p.topic:
            raise Bad("publish-topic", "PUBLISH with invalid topic %r" % p.topic[:100])
        try:
            p.topic.decode()
        except UnicodeDecodeError:
            raise Bad("publish-topic-utf8", "PUBLISH with invalid topic %r" % p.topic[:100])
        if p.qos != self.want["qos"]:
            raise Bad("publish-qos", "PUBLISH with QoS %d, expected %d" % (p.qos, self.want["qos"]))
        if p.qos:
            old = s.unacked.get(p.pid)
            same = old and old == (p.topic, p.payload)
            if p.dup and not old and p.qos == 1 and self.want.get("lax_dup") is None:
                # the client may have missed our PUBACK
                self.n("dup_after_ack")
            if old and not same:
                raise Bad("publish-id", "packet ID %d reused while in flight: now %r, before %r" % (p.pid, p.topic, old[0]))
            if old and not p.dup:
                raise Bad("publish-dup", "PUBLISH %r sent again without DUP" % p)
            if p.dup:
                self.n("dup")
            s.unacked[p.pid] = (p.topic, p.payload)
            c.inflight[p.pid] = 1
            self.max_inflight = max(self.max_inflight, len(c.inflight))
            lim = min(125, (self.recv_max or 65535) if self.ver == 5 else 65535)
            if len(c.inflight) > lim:
                raise Bad("receive-maximum", "%d messages in flight, limit is %d" % (len(c.inflight), lim))
        if p.qos == 0:
            self.take(p)
        elif p.qos == 1:
            if self.fault("drop-publish"):
                return self.drop("publish")
            self.take(p)
            if self.fault("drop-publish-taken"):
                return self.drop("publish-taken")

            def ack():
                code = 0
                if self.ver == 5 and self.fault("reject"):
                    code = 0x97
                    self.n("rejected")
                self.send(Q.ack(self.ver, Q.PUBACK, p.pid, code), "PUBACK %d %02x" % (p.pid, code))
                self.conn.inflight.pop(p.pid, None)
                s.unacked.pop(p.pid, None)
                if self.fault("drop-puback"):
                    return self.drop("puback")  # the client has it or not
            self.later(self.wait(), ack)
        else:
            if self.fault("drop-publish"):
                return self.drop("publish")
            if p.pid not in s.q2:
                self.take(p)
                s.q2[p.pid] = p
            elif (s.q2[p.pid].topic, s.q2[p.pid].payload) != (p.topic, p.payload):
                raise Bad("qos2-id", "packet ID %d of unfinished QoS 2 handshake used for %r" % (p.pid, p.topic))
            if self.fault("drop-publish-taken"):
                return self.drop("publish-taken")

            def rec():
                if p.pid not in s.q2:
                    return
                code = 0
                if self.ver == 5 and not p.dup and self.fault("reject"):
                    code = 0x97
                    self.n("rejected")
                    del s.q2[p.pid]
                    p.epoch = -2  # not taken over: may come again if the PUBREC gets lost
                    s.unacked.pop(p.pid, None)
                    self.conn.inflight.pop(p.pid, None)
                self.send(Q.ack(self.ver, Q.PUBREC, p.pid, code), "PUBREC %d %02x" % (p.pid, code))
                if self.fault("drop-pubrec"):
                    self.drop("pubrec")
            self.later(self.wait(), rec)

    def take(self, p):
        p.epoch = self.epoch
        self.got.append(p)

    def wait(self):
        return self.r.choice([0, self.r.random() * self.delay])

    def pubrel(self, p):
        s = self.sess
        if self.fault("drop-pubrel"):
            return self.drop("pubrel")
        known = s.q2.pop(p.pid, None)
        if self.fault("drop-pubrel-taken"):
            return self.drop("pubrel-taken")

        def comp():
            self.send(Q.ack(self.ver, Q.PUBCOMP, p.pid, 0 if known or self.ver != 5 else 0x92), "PUBCOMP %d" % p.pid)
            self.conn.inflight.pop(p.pid, None)
            s.unacked.pop(p.pid, None)
            if self.fault("drop-pubcomp"):
                return self.drop("pubcomp")
        self.later(self.wait(), comp)

    # ---- to the client

    def deliver(self, o):
        """sends or resends according to state"""
        s = self.sess
        if o not in s.out and o.qos:
            s.out.append(o)
        if o.state == "new" and o.qos:
            self.lastpid = self.lastpid % 65535 + 1
            while any(x.pid == self.lastpid for x in s.out):
                self.lastpid = self.lastpid % 65535 + 1
            o.pid = self.lastpid
        if o.state in ("new", "pub"):
            dup = 1 if o.state == "pub" else 0
            o.sends += 1
            o.state = "pub" if o.qos else "done"
            self.send(Q.publish(self.ver, o.topic, o.payload, o.qos, o.retain, dup, o.pid, o.ps), "PUBLISH %r qos %d pid %d dup %d len %d" % (o.topic, o.qos, o.pid, dup, len(o.payload)))
            if o.qos and self.fault("drop-out-publish"):
                self.drop("out-publish")
        elif o.state == "rec":
            self.send(Q.ack(self.ver, Q.PUBREL, o.pid), "PUBREL %d" % o.pid)
            if self.fault("drop-out-pubrel"):
                self.drop("out-pubrel")

    def find(self, pid):
        for o in self.sess.out:
            if o.pid == pid:
                return o

    def puback(self, p):
        o = self.find(p.pid)
        if p.reason:
            raise Bad("puback-reason", "%r" % p)
        if self.fault("drop-out-puback"):
            return self.drop("out-puback")
        if o is None or o.qos != 1:
            raise Bad("puback", "PUBACK %d for no message" % p.pid)
        o.state = "done"
        self.sess.out.remove(o)

    def pubrec(self, p):
        o = self.find(p.pid)
        if p.reason:
            raise Bad("pubrec-reason", "%r" % p)
        if self.fault("drop-out-pubrec"):
            return self.drop("out-pubrec")
        if (o is None or o.qos != 2) and self.drops:
            # repeated from an earlier connection although the handshake has ended in the meantime: harmless
            self.n("pubrec_again")
            if o is None:
                self.send(Q.ack(self.ver, Q.PUBREL, p.pid, 0x92 if self.ver == 5 else 0), "PUBREL %d unknown" % p.pid)
            return
        if o is None or o.qos != 2:
            raise Bad("pubrec", "PUBREC %d for no message" % p.pid)
        if o.state == "pub":
            o.state = "rec"
        self.later(self.wait(), lambda: self.deliver(o) if o.state == "rec" else None)

    def pubcomp(self, p):
        o = self.find(p.pid)
        if self.fault("drop-out-pubcomp"):
            return self.drop("out-pubcomp")
        if o is None or o.qos != 2 or o.state != "rec":
            if self.drops or o is None:
                self.n("pubcomp_again")
                return
            raise Bad("pubcomp", "PUBCOMP %d for no message" % p.pid)
        o.state = "done"
        self.sess.out.remove(o)
