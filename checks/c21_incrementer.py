"""Incrementer: the ID sequence is the documented one and no ID is ever given twice, also across kills, lost connections and late keep-alive answers of the message DB."""
import os, random, signal, socket, struct, subprocess, threading, time, tempfile
import e2e as E
import m_msgdb as M
import m_array as A
import m_wire as W
from checks.c20_msgdb import shim, Stop
from checks import c07_array_msg as C07
import run as R

TECHNIQUE = "runtime monitoring: online reference model of ID allocation; kill-point injection at the message DB's file operations, fault-injecting proxy between incrementer and message DB, ASan/UBSan/TSan daemons"
NOTE = "Kills are process kills, not power loss."


def succ(v, m, p, lo, hi):
    n = v - v % m + m + p
    if n < lo or n > hi:
        n = lo - lo % m + p
        if n < lo:
            n += m
    return n


class Proxy(threading.Thread):
    """message DB connections pass through here; answers to pings may be late, connections may end between request and answer"""

    def __init__(self, path, target, rng, ctx):
        super().__init__(daemon=True)
        self.path, self.target, self.r, self.ctx = path, target, rng, ctx
        self.hold = self.cut = 0.0
        self.holding = False
        if os.path.exists(path):
            os.unlink(path)
        self.l = socket.socket(socket.AF_UNIX)
        self.l.bind(path)
        self.l.listen(20)
        self.stopped = False
        self.nocut = 0
        self.start()

    def run(self):
        while not self.stopped:
            try:
                c, _ = self.l.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        s = socket.socket(socket.AF_UNIX)
        t = time.time()
        while True:
            try:
                s.connect(self.target)
                break
            except OSError:
                if self.stopped or time.time() - t > 10:
                    c.close()
                    return
                time.sleep(0.02)
        held = b""
        bufs = {c: b"", s: b""}
        import select
        last = time.time()
        try:
            while not self.stopped:
                r, _, _ = select.select([c, s], [], [], 0.1)
                if held and time.time() - last > 3:
                    c.sendall(held)
                    held = b""
                for x in r:
                    d = x.recv(1 << 16)
                    if not d:
                        raise OSError
                    bufs[x] += d
                    while len(bufs[x]) >= 18:
                        n = struct.unpack(">I", bufs[x][4:8])[0]
                        if len(bufs[x]) < n:
                            break
                        p, bufs[x] = bufs[x][:n], bufs[x][n:]
                        mt = struct.unpack(">H", p[8:10])[0]
                        if x is c:
                            s.sendall(p)
                            if not mt & 1 and self.nocut <= 0 and self.r.random() < self.cut:
                                self.nocut = 4
                                time.sleep(self.r.choice([0, 0.01, 0.1]))
                                self.ctx.stat("connections_cut")
                                raise OSError
                            self.nocut -= 1
                        elif mt & 1 and mt & M.PONG and self.r.random() < self.hold:
                            held += p
                            self.holding = True
                            last = time.time()
                            self.ctx.stat("pongs_held")
                        else:
                            if held:
                                self.ctx.stat("pong_before_answer")
                            c.sendall(held + p)
                            held = b""
        except OSError:
            pass
        c.close()
        s.close()

    def end(self):
        self.stopped = True
        self.l.close()


class Inc:
    def __init__(self, ctx, seed, variant):
        self.ctx, self.seed, self.variant = ctx, seed, variant
        self.r = r = random.Random(seed)
        self.base = tempfile.mkdtemp(prefix="inc-", dir=ctx.tmp())
        self.t0 = time.time()
        self.events = []
        self.d = None
        self.db = r.random() < 0.85
        self.m = r.choice([1, 1, 2, 3, 10, 255])
        self.p = r.randrange(self.m)
        k = r.random()
        self.lo, self.hi = (1, 4294967295)
        if k < 0.4:
            self.lo = r.choice([1, 5, 100, 4294960000])
            self.hi = min(4294967295, self.lo + self.m - 1 + r.choice([0, 1, 7, 30]))
        elif k < 0.6:
            self.lo, self.hi = r.choice([(0, 1000), (7, 65535), (4294967000, 4294967295)])
            self.hi = max(self.hi, self.lo + self.m)
            self.hi = min(self.hi, 4294967295)
        self.wraps = self.hi - self.lo < 5000 * self.m
        self.bits = self.hi.bit_length()
        self.prefix = r.choice([0, 0, 1, 5, 0xabc, 1 << (63 - self.bits)])
        self.tag = "init" if r.random() < 0.35 else None
        self.topics = [b"t/%d" % i for i in range(r.choice([1, 3, 10]))]
        self.filter = r.choice(["t/#", "t/+"])
        if r.random() < 0.2:
            self.topics = [b"t/0"]
            self.filter = "t/0"
        self.last = {}      # topic -> last ID seen (with prefix), None before the first
        self.init = {}      # topic -> initial ID, in memory of the current process
        self.slack = {}     # messages which may have got an ID without being seen
        self.seen = {}
        self.serial = 0

    def log(self, s):
        self.events.append("%.3f %s" % (time.time() - self.t0, s))

    def bad(self, key, text):
        self.ctx.violation("inc:" + key, "seed %d variant %s\n%s\nmodulus %d position %d min %d max %d prefix %d tag %s db %s\nlast events:\n  %s\ndaemon log:\n%s" % (
            self.seed, self.variant, text, self.m, self.p, self.lo, self.hi, self.prefix, self.tag, self.db, "\n  ".join(self.events[-40:]), self.d.text()[-3000:]),
            "VF_INC=%d VF_VARIANT=%s python3 -m vf.run C21" % (self.seed, self.variant))
        raise Stop()

    def next(self, old):
        """successor of an ID with prefix; None: nothing stored"""
        if not old:
            return succ(0, self.m, self.p, self.lo, self.hi) | self.prefix << self.bits
        pre = old >> self.bits
        return succ(old & ((1 << self.bits) - 1), self.m, self.p, self.lo, self.hi) | (pre or self.prefix) << self.bits

    def start(self, crash, faults):
        r = self.r
        dbsock = os.path.join(self.base, "db.sock")
        psock = os.path.join(self.base, "proxy.sock")
        insock = os.path.join(self.base, "in.sock")
        for f in (dbsock, insock):
            if os.path.exists(f):
                os.unlink(f)
        self.sinkfile = os.path.join(self.base, "out%d" % len(self.events))
        conf = "[src]\nmodule=socket\nsocket_path=%s\nsocket_receive_rrr_message=yes\n" % insock
        conf += "[inc]\nmodule=incrementer\nsenders=src\nincrementer_subject_topic_filter=%s\nincrementer_id_min=%d\nincrementer_id_max=%d\nincrementer_id_modulus=%d\nincrementer_id_position=%d\n" % (
            self.filter, self.lo, self.hi, self.m, self.p)
        if self.prefix:
            conf += "incrementer_id_prefix=%d\n" % self.prefix
        if self.tag:
            conf += "incrementer_id_tag=%s\n" % self.tag
        if self.db:
            conf += "incrementer_msgdb_socket=%s\n[db]\nmodule=msgdb\nmsgdb_directory=%s/db\nmsgdb_socket=%s\nmsgdb_directory_levels=%d\n" % (psock, self.base, dbsock, r.choice([0, 2]))
        conf += "[out]\nmodule=vfsink\nsenders=inc\nvfsink_file=%s\n" % self.sinkfile
        env = {}
        self.arm = os.path.join(self.base, "arm")
        if os.path.exists(self.arm):
            os.unlink(self.arm)
        self.crash = crash
        self.clog = os.path.join(self.base, "crashlog")
        if crash is not None:
            env = {"VF_PRELOAD": shim(self.ctx), "VF_CRASH_DIR": os.path.join(self.base, "db"), "VF_CRASH_AT": str(crash), "VF_CRASH_HALF": str(r.randrange(2)), "VF_CRASH_ARM": self.arm, "VF_CRASH_LOG": self.clog}
            open(self.clog, "w").close()
        if self.db:
            self.proxy = Proxy(psock, dbsock, r, self.ctx)
            if faults:
                self.proxy.hold, self.proxy.cut = r.choice([(1.0, 0.0), (0.0, 0.02), (1.0, 0.02)])
        self.d = E.Daemon(self.ctx, conf, self.variant, env=env, args=("-d", os.environ.get("VF_DBG", "1")), leaks=False)
        self.sink = E.Sink(self.sinkfile)
        self.log("start crash %s faults %s" % (crash, faults))
        self.s = self.d.connect(insock)
        if self.db:
            self.d.connect(dbsock).close()
        self.init = {}
        self.pending = []  # (kind, topic, data)
        self.done = 0

    def send(self, b):
        try:
            self.s.sendall(b)
        except OSError:
            pass

    def op(self):
        r = self.r
        k = r.random()
        self.serial += 1
        data = b"%d" % self.serial
        ts = self.serial
        if k < 0.1:
            t = r.choice([b"other/x", b"", b"t/0/deep" if self.filter != "t/#" else b"u"])
            self.send(E.msg(ts, t, data))
            self.pending.append(("pass", t, data))
        elif self.tag and k < 0.25:
            t = r.choice(self.topics)
            v = succ(self.r.randrange(self.lo, self.hi + 1), self.m, self.p, self.lo, self.hi)
            pre = r.choice([self.prefix, self.prefix, 3])
            if not self.prefix and pre and pre.bit_length() + self.bits > 64:
                pre = 0
            v |= pre << self.bits
            self.send(init_msg(ts, t, self.tag, v))
            self.pending.append(("init", t, v))
        else:
            t = r.choice(self.topics)
            self.send(E.msg(ts, t, data))
            self.pending.append(("id", t, data))
        self.ctx.stat("messages")

    def take(self, m):
        """one message from the sink: what has been sent before it must be explained"""
        r = self.r
        while True:
            if not self.pending:
                self.bad("unexpected", "unexpected message %r" % m)
            kind, t, d = self.pending.pop(0)
            if kind == "init":
                self.do_init(t, d)
                continue
            if kind == "pass":
                if m.topic != t or m.data != d:
                    self.bad("pass", "message %r was expected to pass unchanged, got %r" % ((t, d), m))
                self.ctx.stat("passed")
                self.ctx.count()
                return
            exp = self.expect(t)
            if exp is None:
                self.ctx.stat("uninitialized")
                continue   # dropped: not initialized
            if m.data != d:
                self.bad("lost", "message %s with topic %r is missing, got %r" % (d, t, m))
            try:
                got = int(m.topic[len(t) + 1:])
            except ValueError:
                got = -1
            if not m.topic.startswith(t + b"/") or got not in exp:
                self.bad("id", "message %s with topic %r came out as %r, acceptable IDs %s" % (d, t, m.topic, exp[:5]))
            if not self.wraps and self.db:
                if (t, got) in self.seen:
                    self.bad("duplicate", "ID %d of topic %r was given to messages %s and %s" % (got, t, self.seen[(t, got)], d))
                self.seen[(t, got)] = d
            self.last[t] = got
            self.slack[t] = 0
            self.ctx.stat("ids")
            self.ctx.count()
            return

    def do_init(self, t, v):
        if self.prefix and v >> self.bits != self.prefix:
            self.ctx.stat("init_refused")
            return
        self.init[t] = v
        self.ctx.stat("initialized")

    def expect(self, t):
        """IDs the next message may get"""
        v = self.last.get(t)
        if not v:
            first = self.init.get(t)
            if self.tag and first is None:
                if not self.slack.get(t):
                    return None
            out = [self.next(first)]
        else:
            out = [self.next(v)]
        for _ in range(self.slack.get(t, 0)):
            out.append(self.next(out[-1]))
        return out

    def drain(self, timeout=60):
        t = time.time()
        while True:
            ms = self.sink.poll()
            while self.done < len(ms):
                self.done += 1
                self.take(ms[self.done - 1])
            # what is left must be without output
            if all(k == "init" or (k == "id" and self.quiet(i)) for i, (k, _, _) in enumerate(self.pending)):
                break
            if self.d.p.poll() is not None:
                return False
            if time.time() - t > timeout:
                self.bad("missing", "%d messages did not come out, first %s" % (len(self.pending), self.pending[0]))
            time.sleep(0.02)
        return True

    def quiet(self, i):
        """pending message i is dropped since its topic is not initialized"""
        t = self.pending[i][1]
        return self.tag and not self.last.get(t) and t not in self.init and not self.slack.get(t) and not any(k == "init" and x == t and (not self.prefix or v >> self.bits == self.prefix) for k, x, v in self.pending[:i])

    def sync(self):
        """a message which always passes marks the end"""
        self.serial += 1
        d = b"sync%d" % self.serial
        self.send(E.msg(self.serial, b"sync", d))
        self.pending.append(("pass", b"sync", d))
        ok = self.drain()
        return ok

    def after_kill(self):
        time.sleep(0.05)
        ms = self.sink.poll()
        while self.done < len(ms):
            self.done += 1
            self.take(ms[self.done - 1])
        for k, t, v in self.pending:
            if k == "id":
                self.slack[t] = self.slack.get(t, 0) + 1
            if k == "init":
                self.do_init(t, v)
        # the first ID of an initialized topic may have been stored: that can not be told apart later from the memory being lost
        for t in self.topics:
            if not self.last.get(t) and self.slack.get(t) and self.tag:
                self.unknown(t)
        self.pending = []
        for k, blk in R.san_reports(self.d.text()):
            self.ctx.violation("san:" + k, "seed %d\n%s" % (self.seed, blk), "VF_INC=%d" % self.seed)

    def unknown(self, t):
        self.topics = [x for x in self.topics if x != t] or [b"t/n%d" % self.serial if self.filter != "t/0" else t]
        if t in self.topics:
            raise Stop()


def init_msg(ts, topic, tag, v):
    return W.msg(1, 11, ts, topic, C07.pack([A.El("h", 0, 1, tag, struct.pack("<Q", v), 0)]), ver=7)


def scenario(ctx, seed, variant, nops):
    x = Inc(ctx, seed, variant)
    r = x.r
    try:
        phases = 4 if x.db else 1
        for ph in range(phases):
            k = r.random()
            crash = r.choice([r.randrange(1, 12), r.randrange(1, 300)]) if x.db and k < 0.5 else None
            faults = x.db and crash is None and r.random() < 0.6
            x.start(crash, faults)
            if crash is not None:
                if not x.sync():
                    raise E.NotUp("ended")
                open(x.arm, "w").close()
            killed = False
            if faults and x.proxy.hold and len(x.topics) > 1:
                # the connection is used for one topic; the answer to its first ping is late and the next message has another topic
                keep, x.topics = x.topics, x.topics[:1]
                for _ in range(5):
                    x.op()
                x.sync()
                x.topics = keep
                t = time.time()
                while not x.proxy.holding and time.time() - t < 20 and x.d.p.poll() is None:
                    time.sleep(0.05)
                keep, x.topics = x.topics, x.topics[1:]
                for _ in range(5):
                    x.op()
                x.sync()
                x.topics = keep
            for i in range(nops):
                for _ in range(r.choice([1, 1, 5, 20])):
                    x.op()
                if r.random() < 0.4 and not x.sync():
                    break
                if x.d.p.poll() is not None:
                    break
            if crash is None and r.random() < 0.3 and ph < phases - 1:
                try:
                    os.killpg(x.d.p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                x.d.p.wait()
                ctx.stat("killed")
                killed = True
            elif x.d.p.poll() is None:
                killed = not x.sync()
            else:
                killed = True
            if killed or x.d.p.poll() is not None:
                ops = len(open(x.clog).read().split("\n")) - 1 if crash is not None else 0
                if crash is not None and ops <= crash:
                    x.bad("ended", "the daemon ended")
                x.d.p.wait()
                if crash is not None:
                    ctx.stat("crash_points")
                    ctx.distinct(("crash", min(crash, 40), open(x.clog).read().split("\n")[-2].split()[1]))
                x.after_kill()
                x.log("killed")
            else:
                t = x.d.stop()
                if x.d.bad:
                    raise Stop()
                x.log("stopped")
            x.s.close()
            if x.db:
                x.proxy.end()
            ctx.distinct(("cfg", x.m, x.p, x.lo, x.hi, bool(x.prefix), bool(x.tag), x.db))
        ctx.stat("scenarios")
    except Stop:
        pass
    except E.NotUp:
        x.d.stop()
        if not x.d.bad:
            raise
    finally:
        if x.d and x.d.p.poll() is None:
            x.d.stop()
        subprocess.run(["rm", "-rf", x.base])


def check(ctx):
    ctx.rule = "every message of a topic gets the documented successor of the last ID given for that topic, and no ID twice"
    one = os.environ.get("VF_INC")
    n = ctx.scale(48, 250)
    jobs = [(ctx.seed * 2100011 + i, "tsan" if i % 10 == 9 else "asan") for i in range(n)]
    if one:
        jobs = [(int(one), os.environ.get("VF_VARIANT", "asan"))]
    else:
        ctx.build("tsan", "rrr")
    ctx.build("asan", "rrr")
    ctx.par(lambda j: scenario(ctx, j[0], j[1], ctx.scale(40, 80)), jobs, workers=12)
    if not one:
        for s, k in (("scenarios", n // 4), ("ids", 1000), ("crash_points", 5), ("pong_before_answer", 5), ("connections_cut", 5), ("initialized", 10)):
            ctx.require(s, k)
