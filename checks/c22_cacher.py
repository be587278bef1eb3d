"""Cacher: what is stored, returned, forwarded, revived and removed follows the settings."""
import os, random, struct, subprocess, tempfile, time
import e2e as E
import m_msgdb as M
import m_array as A
import m_wire as W
from checks import c07_array_msg as C07
from checks.c20_msgdb import Stop

TECHNIQUE = "runtime monitoring: reference model of the cacher and message DB settings compared online with what the readers receive and what the message DB holds; ASan/UBSan/TSan daemons"
NOTE = "Requests are sent once the message DB holds what was stored before (the two use separate connections)."


class Cache:
    def __init__(self, ctx, seed, variant):
        self.ctx, self.seed, self.variant = ctx, seed, variant
        r = self.r = random.Random(seed)
        self.base = tempfile.mkdtemp(prefix="ca-", dir=ctx.tmp())
        self.t0 = time.time()
        self.events = []
        yn = lambda p: r.random() < p
        self.tag = "req" if yn(0.85) else None
        self.f_req, self.f_data, self.f_other, self.consume, self.empty_del, self.no_upd = yn(0.5), yn(0.5), yn(0.5), yn(0.4), yn(0.5), yn(0.15)
        self.ttl = r.choice([0, 0, 1000])
        self.mttl = r.choice([0, 0, 300])
        self.revive = 50 if yn(0.25) else 0
        self.tidy = self.ttl and yn(0.5)
        self.outs = ["o%d" % i for i in range(r.choice([1, 2, 3]))]
        self.rec = {}
        for k in ("request", "data", "other", "revive"):
            if yn(0.4):
                self.rec[k] = r.sample(self.outs, r.randrange(1, len(self.outs) + 1))
        self.topics = [b"c/%d" % i for i in range(r.choice([2, 5, 20]))] + ["c/æ".encode()]
        self.store, self.mem = {}, {}
        self.exp = {o: [] for o in self.outs}
        opt = [("cacher_request_tag", self.tag), ("cacher_forward_requests", self.f_req), ("cacher_forward_data", self.f_data), ("cacher_forward_other", self.f_other),
               ("cacher_memory_consume_requests", self.consume), ("cacher_empty_is_delete", self.empty_del), ("cacher_no_update", self.no_upd)]
        c = "[src]\nmodule=socket\nsocket_path=@DIR@/in.sock\nsocket_receive_rrr_message=yes\n"
        c += "[ca]\nmodule=cacher\nsenders=src\ncacher_msgdb_socket=@DIR@/db.sock\n"
        if len(self.outs) > 1:
            c += "duplicate=yes\n"
        for k, v in opt:
            if v is True or v is False:
                if v or yn(0.3):
                    c += "%s=%s\n" % (k, "yes" if v else "no")
            elif v is not None:
                c += "%s=%s\n" % (k, v)
        if self.ttl:
            c += "cacher_ttl_seconds=%d\n" % self.ttl
        if self.mttl:
            c += "cacher_memory_ttl_seconds=%d\n" % self.mttl
        if self.revive:
            c += "cacher_revive_age_seconds=%d\ncacher_revive_interval_seconds=1\n" % self.revive
        if self.tidy:
            c += "cacher_tidy_interval_seconds=1\n"
        for k, v in self.rec.items():
            c += "cacher_%s_receivers=%s\n" % (k, ",".join(v))
        c += "[db]\nmodule=msgdb\nmsgdb_directory=@DIR@/db\nmsgdb_socket=@DIR@/db.sock\nmsgdb_directory_levels=%d\n" % r.choice([0, 2, 4])
        for o in self.outs:
            c += "[%s]\nmodule=vfsink\nsenders=ca\nvfsink_file=@DIR@/%s\n" % (o, o)
        self.conf = c
        self.d = E.Daemon(ctx, c, variant, args=("-d", os.environ.get("VF_DBG", "1")), leaks=False)
        self.db = M.Client(self.d.connect(self.d.path("db.sock")))
        self.s = self.d.connect(self.d.path("in.sock"))
        self.sinks = {o: E.Sink(self.d.path(o)) for o in self.outs}
        self.done = {o: 0 for o in self.outs}
        self.serial = 0

    def bad(self, key, text):
        self.ctx.violation("cacher:" + key, "seed %d variant %s\n%s\nconfiguration:\n%s\nlast events:\n  %s\ndaemon log:\n%s" % (
            self.seed, self.variant, text, self.conf, "\n  ".join(self.events[-30:]), self.d.text()[-2500:]), "VF_CACHER=%d VF_VARIANT=%s python3 -m vf.run C22" % (self.seed, self.variant))
        raise Stop()

    def log(self, s):
        self.events.append("%.3f %s" % (time.time() - self.t0, s))

    def expect(self, kind, m):
        for o in self.rec.get(kind, self.outs):
            self.exp[o].append(m)

    def settle(self):
        """everything expected has come, and nothing else"""
        t = time.time()
        revivable = set()
        if self.revive:
            revivable = {m for t2, m in self.store.items() if m and time.time() * 1e6 - m[2] > self.revive * 1e6} | getattr(self, "was_revivable", set())
        ok_since = None
        while True:
            miss, extra = None, None
            for o in self.outs:
                got = [x.key() for x in self.sinks[o].poll()[self.done[o]:]]
                want = list(self.exp[o])
                for g in got:
                    if g in want:
                        want.remove(g)
                    elif g_key(g) in revivable and o in self.rec.get("revive", self.outs):
                        self.ctx.stat("revived")
                    else:
                        extra = (o, g)
                if want:
                    miss = (o, want[0])
            if extra:
                self.bad("extra", "reader %s received %s which is not expected" % (extra[0], str(extra[1])[:300]))
            now = time.time()
            if miss:
                ok_since = None
                if self.d.p.poll() is not None or now - t > 30:
                    self.bad("missing", "reader %s did not receive %s" % (miss[0], str(miss[1])[:300]))
            else:
                ok_since = ok_since or now
                if now - ok_since > 0.12:
                    break
            time.sleep(0.02)
        for o in self.outs:
            self.ctx.count(len(self.sinks[o].msgs) - self.done[o])
            self.done[o] = len(self.sinks[o].msgs)
            self.exp[o] = []

    def stored(self, topic):
        self.db.queue(M.get(topic))
        a = self.db.recv(30)
        if a is None or a[0] not in ("msg", "nack"):
            self.bad("db", "message DB answered %s" % str(a)[:100])
        return None if a[0] == "nack" else a[1].key()

    def await_db(self, topic):
        t = time.time()
        while self.stored(topic) != self.store.get(topic):
            if time.time() - t > 15:
                self.bad("stored", "topic %r: the message DB has %s, expected %s" % (topic, str(self.stored(topic))[:200], str(self.store.get(topic))[:200]))
            time.sleep(0.01)
        self.ctx.count()

    def ts(self):
        ages = [0, 0, 0]
        if self.mttl:
            ages.append(500)
        if self.ttl:
            ages.append(2000)
        if self.revive:
            ages += [100, 100]
        return int((time.time() - self.r.choice(ages)) * 1e6)

    def old(self, ts, age):
        return age and time.time() * 1e6 - ts > age * 1e6

    def op(self):
        r = self.r
        self.serial += 1
        ts = self.ts()
        t = r.choice(self.topics)
        k = r.random()
        els = [A.El("str", 0, 1, r.choice(["x", "reqs", None]), b"v%d" % self.serial, 0)]
        if k < 0.4 and self.tag:
            els.append(A.El("h", 0, 1, self.tag, struct.pack("<Q", 1), 0))
            r.shuffle(els)
            m = (1, 11, ts, t, C07.pack(els))
        elif k < 0.5:
            m = (1, 1, ts, b"", b"d%d" % self.serial)
            t = b""
        elif k < 0.7:
            m = (1, 11, ts, t, C07.pack(els))
        elif k < 0.8:
            m = (1, 1, ts, t, b"")
        else:
            m = (1, 1, ts, t, (b"d%d" % self.serial) * r.choice([1, 1, 1000, 30000]))
        req = self.tag and m[1] == 11 and any(e.tag == self.tag for e in els)
        self.log("%s %r age %.0f size %d" % ("request" if req else "message", t, time.time() - ts / 1e6, len(m[4])))
        self.s.sendall(W.msg(m[0], m[1], m[2], m[3], m[4], ver=7 if m[1] == 11 else 0))
        self.ctx.stat("messages")
        if self.old(ts, self.ttl):
            self.ctx.stat("expired")
        elif not t:
            if self.f_other:
                self.expect("other", m)
            self.ctx.stat("without_topic")
        elif req:
            self.ctx.stat("requests")
            x = self.mem.get(t)
            if x and not self.old(x[2], self.mttl):
                self.expect("data", x)
                self.ctx.stat("from_memory")
                if self.f_req and not self.consume:
                    self.expect("request", m)
            else:
                if self.store.get(t):
                    self.expect("data", self.store[t])
                    self.ctx.stat("from_db")
                if self.f_req:
                    self.expect("request", m)
        elif self.no_upd:
            if self.f_other:
                self.expect("other", m)
        else:
            before = self.store.get(t)
            if self.empty_del and not m[4]:
                self.store[t] = None
                self.mem.pop(t, None)
                self.ctx.stat("deletes")
            else:
                self.store[t] = m
                if self.mttl:
                    self.mem[t] = m
                self.ctx.stat("stores")
            if before:
                self.was_revivable = getattr(self, "was_revivable", set()) | ({before} if self.revive and time.time() * 1e6 - before[2] > self.revive * 1e6 else set())
            if self.f_data:
                self.expect("data", m)
        if self.tidy:
            pass
        if req or r.random() < 0.5:
            self.settle()
        if t:
            if not (self.old(ts, self.ttl)) and not req and not self.no_upd:
                self.await_db(t)


def g_key(g):
    return g


def scenario(ctx, seed, variant, nops):
    x = None
    try:
        x = Cache(ctx, seed, variant)
        r = x.r
        if r.random() < 0.5:
            # messages from elsewhere are in the message DB already
            for _ in range(3):
                t = r.choice(x.topics)
                m = (1, 1, int((time.time() - (500 if x.ttl else 5000)) * 1e6), t, b"before %d" % x.serial)
                x.serial += 1
                if x.revive:
                    x.was_revivable = getattr(x, "was_revivable", set()) | {m}
                x.db.queue(M.put(t, m[4], m[2], m[1]))
                if x.db.recv(30)[0] != "ack":
                    x.bad("db", "no ACK")
                x.store[t] = m
        for _ in range(nops):
            x.op()
        x.settle()
        if x.revive:
            due = {m for m in x.store.values() if m and time.time() * 1e6 - m[2] > 1e6 * (x.revive + 5)}
            seen = {o: set() for o in x.rec.get("revive", x.outs)}
            base = {o: x.done[o] for o in x.outs}
            t = time.time()
            while time.time() - t < 25:
                for o in seen:
                    seen[o] = {m.key() for m in x.sinks[o].poll()[base[o]:]}
                if all(due <= s for s in seen.values()):
                    break
                time.sleep(0.1)
            for o in seen:
                if due - seen[o]:
                    x.bad("not-revived", "reader %s did not receive %s within 25 s" % (o, str((due - seen[o]).pop())[:200]))
            x.settle()
            ctx.stat("revive_rounds")
        if x.tidy:
            gone = [b"tidy/%d" % i for i in range(5)]
            for t in gone:
                x.db.queue(M.put(t, b"old", int((time.time() - 3000) * 1e6)))
                x.db.recv(30)
            t0 = time.time()
            while any(x.stored(t) for t in gone):
                if time.time() - t0 > 25:
                    x.bad("not-tidied", "messages older than the TTL were not removed within 25 s")
                time.sleep(0.05)
            for t in x.topics:
                x.await_db(t)
            x.was_revivable = getattr(x, "was_revivable", set()) | {(1, 1, 0, t, b"old") for t in gone}
            ctx.stat("tidied")
        x.d.stop()
        ctx.distinct(("cfg", x.tag, x.f_req, x.f_data, x.f_other, x.consume, x.empty_del, x.no_upd, bool(x.ttl), bool(x.mttl), bool(x.revive), len(x.outs), tuple(sorted(x.rec))))
        ctx.stat("scenarios")
    except Stop:
        pass
    except E.NotUp:
        pass
    finally:
        if x:
            if x.d.p.poll() is None:
                x.d.stop()
            x.db.close()
            x.s.close()
            subprocess.run(["rm", "-rf", x.base, x.d.dir])


def check(ctx):
    ctx.rule = "requests return exactly the last stored message of their topic; forwarding, removal, revival and tidying follow the settings"
    one = os.environ.get("VF_CACHER")
    n = ctx.scale(60, 400)
    jobs = [(ctx.seed * 2300003 + i, "tsan" if i % 8 == 7 else "asan") for i in range(n)]
    if one:
        jobs = [(int(one), os.environ.get("VF_VARIANT", "asan"))]
    else:
        ctx.build("tsan", "rrr")
    ctx.build("asan", "rrr")
    ctx.par(lambda j: scenario(ctx, j[0], j[1], ctx.scale(40, 120)), jobs, workers=12)
    if not one:
        for s, k in (("scenarios", n // 2), ("from_db", 50), ("from_memory", 20), ("deletes", 20), ("revived", 5), ("tidied", 2), ("expired", 10)):
            ctx.require(s, k)
