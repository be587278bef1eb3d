"""Message DB: what was acknowledged stays, across kills at any file operation, restarts, changed directory depth and corrupt files."""
import glob, hashlib, os, random, signal, struct, subprocess, threading, time
import e2e as E
import m_msgdb as M
import m_array as A
import m_wire as W
import run as R

TECHNIQUE = "runtime monitoring: online reference model of the message DB under crash-point injection (LD_PRELOAD kill/fault at the Nth file operation), with ASan/UBSan/TSan daemons"
NOTE = "Kills are process kills (page cache survives), not power loss. JavaScript clients are not built here."

SHIM = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "preload", "crash.c")
lock = threading.Lock()


def shim(ctx):
    with lock:
        so = os.path.join(ctx.tmp(), "crash.so")
        if not os.path.exists(so):
            subprocess.run(["gcc", "-Wall", "-O1", "-shared", "-fPIC", "-o", so, SHIM, "-ldl"], check=True)
        return so


class Stop(Exception):
    pass


class Server:
    """A msgdb instance in a directory which outlives it."""

    def __init__(self, ctx, seed, variant):
        import tempfile
        self.ctx, self.seed, self.variant = ctx, seed, variant
        self.r = random.Random(seed)
        self.base = tempfile.mkdtemp(prefix="db-", dir=ctx.tmp())
        self.db = os.path.join(self.base, "db")
        self.sock = os.path.join(self.base, "s")
        self.model = {}  # topic -> list of acceptable values: None or (cl, ts, data)
        self.damaged = set()
        self.d = None
        self.events = []
        self.conns = []
        self.extra = ""
        self.t0 = time.time()

    def log(self, s):
        self.events.append("%.3f %s" % (time.time() - self.t0, s))

    def bad(self, key, text):
        t = ""
        if self.d:
            t = self.d.text()[-3000:]
        self.ctx.violation("msgdb:" + key, "seed %d variant %s\n%s\nlast events:\n  %s\ndaemon log:\n%s" %
                           (self.seed, self.variant, text, "\n  ".join(x[:300] for x in self.events[-40:]), t), "VF_MSGDB=%d VF_VARIANT=%s python3 -m vf.run C20" % (self.seed, self.variant))
        raise Stop()

    def start(self, levels, crash=None):
        """crash: (at, half, mode, armed)"""
        self.levels = levels
        conf = "[db]\nmodule=msgdb\nmsgdb_directory=%s\nmsgdb_socket=%s\nmsgdb_directory_levels=%d\n%s" % (self.db, self.sock, levels, self.extra)
        env = {}
        self.arm = os.path.join(self.base, "arm")
        if os.path.exists(self.arm):
            os.unlink(self.arm)
        if crash:
            at, half, mode, armed = crash
            if armed:
                open(self.arm, "w").close()
            env = {"VF_PRELOAD": shim(self.ctx), "VF_CRASH_DIR": self.db, "VF_CRASH_AT": str(at), "VF_CRASH_HALF": str(half), "VF_CRASH_MODE": mode, "VF_CRASH_ARM": self.arm,
                   "VF_CRASH_LOG": os.path.join(self.base, "crashlog")}
            open(env["VF_CRASH_LOG"], "w").close()
        os.makedirs(self.db, exist_ok=True)
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        self.crash = crash
        self.d = E.Daemon(self.ctx, conf, self.variant, env=env, args=("-d", "1" if not os.environ.get("VF_DBG") else os.environ["VF_DBG"]), leaks=False)
        self.log("start levels %d crash %s" % (levels, crash))
        self.conns = []

    def connect(self):
        c = M.Client(self.d.connect(self.sock))
        self.conns.append(c)
        return c

    def crashed(self):
        """an injected kill took the daemon"""
        return self.crash and self.crash[2] == "kill" and self.ops() > self.crash[0]

    def ops(self):
        try:
            return len(open(os.path.join(self.base, "crashlog")).read().split("\n")) - 1
        except OSError:
            return 0

    def kill(self):
        self.log("SIGKILL")
        try:
            os.killpg(self.d.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.d.p.wait()
        self.close_all()
        self.end_daemon()
        self.ctx.stat("killed")

    def end_daemon(self):
        """look for sanitizer reports of a daemon which was killed"""
        t = self.d.text()
        for k, blk in R.san_reports(t):
            self.ctx.violation("san:" + k, "seed %d\n%s" % (self.seed, blk), "VF_MSGDB=%d python3 -m vf.run C20" % self.seed)

    def close_all(self):
        for c in self.conns:
            c.close()
        self.conns = []

    def stop(self):
        self.close_all()
        if self.crashed():
            self.d.p.wait(20)
            self.end_daemon()
        else:
            self.d.stop()
            if self.d.bad:
                raise Stop()
            self.ctx.stat("stopped")


class Conn:
    """A connection with its outstanding requests. All topics it writes are its own."""

    def __init__(self, sv, name):
        self.sv, self.name, self.c, self.out = sv, name, sv.connect(), []

    def send(self, kind, topic, value=None):
        sv = self.sv
        if kind == "put":
            self.c.queue(M.put(topic, value[2], value[1], value[0]))
        elif kind == "get":
            self.c.queue(M.get(topic))
        elif kind == "del":
            self.c.queue(M.delete(topic))
        elif kind == "ping":
            self.c.queue(M.ctrl(M.PING))
        self.out.append((kind, topic, value))
        sv.log("%s %s %r%s" % (self.name, kind, topic[:50], "" if value is None else " size %d ts %d" % (len(value[2]), value[1])))
        sv.ctx.stat("requests")

    def drain(self, timeout=60):
        """all answers; raises Closed when the connection ends"""
        while self.out:
            a = self.c.recv(timeout)
            if a is None:
                if self.sv.d.p.poll() is not None:
                    raise M.Closed()
                self.sv.bad("no-answer", "%s got no answer to %s" % (self.name, str(self.out[0])[:200]))
            self.answer(a)
        return True

    def answer(self, a):
        sv, m = self.sv, self.sv.model
        if not self.out:
            sv.bad("unexpected", "%s received %s without a request" % (self.name, str(a)[:200]))
        kind, topic, value = self.out.pop(0)
        fault = sv.crash and sv.crash[2] != "kill"
        sv.ctx.count()
        if kind == "ping":
            if a[0] != "pong":
                sv.bad("order", "%s received %s as answer to a ping" % (self.name, str(a)[:200]))
            sv.ctx.stat("pings")
        elif kind in ("put", "del"):
            if not valid_topic(topic):
                if a[0] != "nack":
                    sv.bad("accepted", "%s %s of topic %r answered with %s" % (self.name, kind, topic[:50], a[0]))
                sv.ctx.stat("refused")
            elif a[0] == "ack":
                m[topic] = [value if kind == "put" else None]
                sv.ctx.stat(kind + "_acked")
            elif a[0] == "nack" and fault:
                m[topic] = list(m.get(topic, [None])) + [value if kind == "put" else None]
                sv.ctx.stat("put_failed")
            else:
                sv.bad("refused", "%s %s %r (%d bytes) was answered with %s" % (self.name, kind, topic[:80], len(value[2]) if value else 0, str(a)[:200]))
        elif kind == "get":
            check_get(sv, self.name, topic, a)

    def finish(self):
        """answers which have come before the connection ended, then lost()"""
        try:
            for _ in range(50):
                self.c.pump(0)
        except M.Closed:
            pass
        while self.out:
            a = self.c.next()
            if a is None:
                break
            self.answer(a)
        self.lost()

    def lost(self):
        """the connection ended: outstanding requests may have been performed"""
        m = self.sv.model
        for kind, topic, value in self.out:
            if kind in ("put", "del") and valid_topic(topic):
                m[topic] = list(m.get(topic, [None])) + [value if kind == "put" else None]
                self.sv.ctx.stat("unacknowledged")
        self.out = []


def last_op(sv):
    try:
        return open(os.path.join(sv.base, "crashlog")).read().split("\n")[-2].split()[1]
    except IndexError:
        return "?"


def valid_topic(t):
    return len(t) > 0


def check_get(sv, who, topic, a):
    acc = sv.model.get(topic, [None])
    if a[0] == "nack":
        got = None
    elif a[0] == "msg":
        x = a[1]
        if x.topic != topic or x.ty != M.MSG:
            sv.bad("wrong-message", "%s GET %r returned topic %r type %d" % (who, topic[:80], x.topic[:80], x.ty))
        got = (x.cl, x.ts, x.data)
    else:
        sv.bad("answer", "%s GET %r answered with %s" % (who, topic[:80], a[0]))
    if got not in acc:
        f = lambda v: "nothing" if v is None else "class %d ts %d %d bytes %s" % (v[0], v[1], len(v[2]), hashlib.md5(v[2]).hexdigest()[:8])
        sv.bad("lost" if got is None else "value", "%s GET %r returned %s, acceptable: %s" % (who, topic[:80], f(got), [f(v) for v in acc]))
    sv.model[topic] = [got]
    sv.ctx.stat("get_hit" if got else "get_miss")


def topic_of(r, who, i):
    k = r.random()
    t = b"%s/%d" % (who.encode(), i)
    if k < 0.1:
        t += "/æø☃".encode()
    elif k < 0.15:
        t += b"/" + b"x" * r.choice([200, 255, 256, 4000])
    elif k < 0.17:
        t = t + b"/" + b"y" * (65535 - len(t) - 1)
    elif k < 0.2:
        t += b"/\0z"
    return t


AGES = [1, 100, 10000]


def value_of(r):
    n = r.choice([0, 1, 5, 100, 1000, 4095, 4096, 70000, 300000] if r.random() < 0.3 else [0, 3, 10, 60])
    return (1, int((time.time() - r.choice(AGES)) * 1e6), r.randbytes(n))


def iterate(sv, flag, age, c=None, busy=None):
    """IDX or TIDY on an own connection -> None when the connection ended"""
    own = c is None
    c = c or sv.connect()
    t0 = time.time()
    c.queue(M.ctrl(flag, age))
    sv.log("%s min age %d" % ("IDX" if flag == M.IDX else "TIDY", age))
    got = {}
    while True:
        try:
            a = c.recv(180)
        except M.Closed:
            if flag == M.TIDY:
                for t, acc in sv.model.items():
                    sv.model[t] = acc + [None]
            raise
        if a is None:
            sv.bad("iteration-hang", "iteration did not complete within 180 s")
        if a[0] == "ack":
            break
        if a[0] != "msg" or flag != M.IDX:
            sv.bad("iteration-answer", "received %s" % str(a)[:200])
        got.setdefault(a[1].topic, []).append((a[1].cl, a[1].ts, a[1].data))
    if own:
        c.close()
    dt = time.time() - t0
    due = lambda v: v is not None and t0 * 1e6 - age * 1e6 > v[1]
    busy = busy or set()
    n = 0
    if flag == M.IDX:
        for t, vs in got.items():
            if len(vs) > 1:
                sv.bad("idx-duplicate", "IDX returned topic %r %d times" % (t[:80], len(vs)))
            if t in busy:
                continue
            acc = sv.model.get(t, [None])
            if vs[0] not in acc:
                sv.bad("idx-value", "IDX returned a message with topic %r which is not stored (%d bytes)" % (t[:80], len(vs[0][2])))
            if not (time.time() * 1e6 - age * 1e6 > vs[0][1]):
                sv.bad("idx-young", "IDX with minimum age %d returned a message with age %d" % (age, time.time() - vs[0][1] / 1e6))
            sv.model[t] = [vs[0]]
            n += 1
        for t, acc in sv.model.items():
            if t not in got and t not in busy:
                rest = [v for v in acc if not due(v)]
                if not rest:
                    sv.bad("idx-missing", "IDX with minimum age %d did not return topic %r, age %d" % (age, t[:80], time.time() - acc[0][1] / 1e6))
                sv.model[t] = rest
        sv.ctx.stat("idx")
        sv.ctx.stat("idx_messages", n)
        sv.ctx.count(len(sv.model))
    else:
        for t, acc in sv.model.items():
            if t not in busy:
                sv.model[t] = [None if due(v) else v for v in acc]
        sv.ctx.stat("tidy")
    sv.ctx.stat("iteration_interrupted", 1 if dt > 0.5 else 0)


def corrupt(sv):
    """damage files of a stopped or running server -> they must not harm the others"""
    r = sv.r
    fs = [os.path.join(p, f) for p, _, fl in os.walk(sv.db) for f in fl if not f.startswith(".")]
    n = 0
    for _ in range(r.choice([1, 2, 5])):
        k = r.random()
        try:
            if k < 0.6 and fs:
                f = r.choice(fs)
                b = open(f, "rb").read()
                if len(b) < 30 or b in sv.damaged:   # a second change might undo the first
                    continue
                topic = E.parse(b).topic
                m = r.random()
                if m < 0.3:
                    b2 = b[:r.randrange(0, len(b))]
                elif m < 0.5:
                    b2 = b + b"x" * r.choice([1, 100])
                else:
                    i = r.randrange(len(b)) if m < 0.75 else len(b) - 1
                    b2 = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
                open(f + ".tmp~", "wb").write(b2)
                os.rename(f + ".tmp~", f)
                sv.damaged.add(b2)
                sv.model[topic] = [None]
                sv.log("corrupted file of topic %r (%d -> %d bytes, mode %.2f)" % (topic[:60], len(b), len(b2), m))
                sv.ctx.stat("corrupted")
            else:
                name = r.choice(["x", "ab12", "0" * 64, r.randbytes(32).hex(), "README", "%064d" % r.randrange(10 ** 9), "f" * 200])
                p = sv.db
                if sv.levels and r.random() < 0.7:
                    p = os.path.join(sv.db, *list((name + "0000")[:sv.levels])) if r.random() < 0.7 else os.path.join(sv.db, name[0])
                try:
                    os.makedirs(p, exist_ok=True)
                except FileExistsError:
                    continue
                if not os.path.exists(os.path.join(p, name)):
                    open(os.path.join(p, name), "wb").write(r.randbytes(r.choice([0, 1, 17, 18, 40, 3000])))
                    sv.log("foreign file %s" % os.path.join(p, name)[len(sv.db):])
                sv.ctx.stat("foreign_files")
        except (FileNotFoundError, NotADirectoryError):
            pass


def server(ctx, seed, variant, nops):
    sv = Server(ctx, seed, variant)
    r = sv.r
    topics = {n: [topic_of(r, n, i) for i in range(r.choice([2, 5, 15]))] for n in ("a", "b", "c")}
    many = r.random() < 0.25
    try:
        huge = seed % 12 == 0
        if huge:
            # so many that iterations are interrupted in the middle of a directory
            os.makedirs(sv.db)
            ts = int((time.time() - 3000) * 1e6)
            for i in range(r.choice([9000, 15000])):
                t = b"h/%d" % i
                v = (1, ts, b"h%d" % i)
                open(os.path.join(sv.db, hashlib.sha256(t).hexdigest()), "wb").write(W.msg(1, 1, ts, t, v[2]))
                sv.model[t] = [v]
            many = False
        for phase in range(2 if huge else 4):
            crash = None
            k = r.random()
            restruct = phase and r.random() < 0.25
            if k < 0.55:
                crash = (r.choice([r.randrange(1, 8), r.randrange(1, 60), r.randrange(1, 400)]), r.randrange(2), "kill", bool(restruct))
            elif k < 0.7:
                crash = (r.randrange(1, 60), r.randrange(2), r.choice(["fail", "short"]), False)
            if huge:
                crash = None
            sv.start(0 if huge else r.choice([0, 1, 2, 2, 2, 3]), crash)
            if huge:
                iterate(sv, M.IDX, r.choice([0, 50]))
                ctx.stat("huge_iterations")
            cs = []
            try:
                for n in topics:
                    cs.append(Conn(sv, n))
                if crash and not crash[3]:
                    for c in cs:  # started
                        c.send("ping", b"")
                        c.drain()
                    open(sv.arm, "w").close()
                if phase:
                    for c in cs:
                        for t in [t for t in sv.model if t in topics[c.name]]:
                            c.send("get", t)
                            c.drain()
                    ctx.stat("verified_after_restart")
                if many and phase == 0:
                    for i in range(r.choice([500, 2000])):
                        t = b"c/many/%d" % i
                        topics["c"].append(t)
                        cs[2].send("put", t, (1, int((time.time() - 100) * 1e6), b"m" * r.choice([1, 30, 3000])))
                        if i % 50 == 49:
                            cs[2].drain()
                    cs[2].drain()
                for op in range(nops // 3 if huge else nops):
                    for c in cs:
                        for _ in range(r.choice([0, 1, 1, 3, 8])):
                            t = r.choice(topics[c.name])
                            k = r.random()
                            if k < 0.5:
                                c.send("put", t, value_of(r))
                            elif k < 0.75:
                                c.send("get", t)
                            elif k < 0.93:
                                c.send("del", t)
                            elif k < 0.98:
                                c.send("ping", b"")
                            else:
                                c.send(r.choice(["put", "del"]), b"", value_of(r))
                        if r.random() < 0.05 and not sv.crash:
                            # leave with requests in flight
                            c.c.pump(0)
                            if r.random() < 0.5:
                                time.sleep(0.002)
                            c.c.close()
                            c.lost()
                            c.c = sv.connect()
                            # an old connection's requests could still be read after this: wait until they are done
                            c.send("ping", b"")
                            c.drain()
                            for _ in range(20):
                                time.sleep(0.02)
                                c.send("ping", b"")
                                c.drain()
                            ctx.stat("left")
                    if crash and crash[2] == "kill" and r.random() < 0.3:
                        for c in cs:
                            c.c.pump(0)
                    for c in cs:
                        c.drain()
                    k = r.random()
                    if k < 0.04:
                        iterate(sv, M.IDX, r.choice([0, 50, 5000]))
                    elif k < 0.05:
                        iterate(sv, M.TIDY, r.choice([50, 5000]))
                    elif k < 0.08 and not crash:
                        corrupt(sv)
                        if r.random() < 0.5:
                            iterate(sv, M.IDX, 0)
                    elif k < 0.1 and not crash:
                        # a second iteration on the same connection while one is going on may end that connection only
                        c = sv.connect()
                        c.queue(M.ctrl(M.IDX, 0) + M.ctrl(r.choice([M.IDX, M.TIDY]), 20000))
                        try:
                            while c.recv(1) is not None:
                                pass
                        except M.Closed:
                            pass
                        c.close()
                        ctx.stat("second_iteration")
                        for t, acc in sv.model.items():
                            pass
                    elif k < 0.12 and not crash:
                        # others write while the iteration is going on
                        c = sv.connect()
                        c.queue(M.ctrl(M.IDX, 0))
                        c.pump(0)
                        busy = set()
                        for q in cs:
                            for _ in range(3):
                                t = r.choice(topics[q.name][:10])
                                busy.add(t)
                                q.send("put" if r.random() < 0.6 else "del", t, value_of(r))
                        for q in cs:
                            q.drain()
                        got = {}
                        while True:
                            a = c.recv(180)
                            if a is None or a[0] not in ("msg", "ack"):
                                sv.bad("iteration-answer", "received %s" % str(a)[:200])
                            if a[0] == "ack":
                                break
                            got.setdefault(a[1].topic, []).append((a[1].cl, a[1].ts, a[1].data))
                        for t, acc in sv.model.items():
                            if t in busy:
                                continue
                            if None not in acc and len(got.get(t, [])) != 1:
                                sv.bad("idx-concurrent", "IDX returned topic %r %d times while others were changed" % (t[:80], len(got.get(t, []))))
                        c.close()
                        ctx.stat("idx_concurrent")
                    if sv.d.p.poll() is not None:
                        raise M.Closed()
                for c in cs:
                    c.drain()
                if r.random() < 0.5 and not crash:
                    iterate(sv, M.IDX, r.choice([0, 50]))
                if r.random() < 0.5 and not crash:
                    for c in cs:
                        for _ in range(10):
                            c.send("put" if r.random() < 0.7 else "del", r.choice(topics[c.name]), value_of(r))
                        c.c.pump(0)
                    time.sleep(r.choice([0, 0.001, 0.01]))
                    try:
                        os.killpg(sv.d.p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    sv.d.p.wait()
                    for c in cs:
                        c.finish()
                    sv.kill()
                else:
                    sv.stop()
            except (M.Closed, E.NotUp) as e:
                # the daemon, or a connection, ended
                time.sleep(0.3)
                for c in cs:
                    c.finish()
                if sv.crashed():
                    ctx.stat("crash_points")
                    ctx.distinct(("crash", min(sv.crash[0], 40), last_op(sv), sv.crash[1], crash[3]))
                    sv.stop()
                elif crash and crash[2] != "kill" and sv.ops() > crash[0] and not isinstance(e, E.NotUp):
                    sv.stop()
                elif isinstance(e, E.NotUp):
                    sv.bad("not-up", "the daemon did not listen")
                else:
                    sv.bad("closed", "the server closed a connection or ended")
            if r.random() < 0.3:
                corrupt(sv)
        ctx.stat("server_scenarios")
    except Stop:
        pass
    finally:
        if sv.d and sv.d.p.poll() is None:
            sv.close_all()
            sv.d.stop()
        sv.close_all()
        subprocess.run(["rm", "-rf", sv.base])


def check(ctx):
    ctx.rule = "an acknowledged message is there, unchanged, until it is replaced or removed; iterations list each stored message once"
    one = os.environ.get("VF_MSGDB")
    n = ctx.scale(60, 300)
    jobs = [(ctx.seed * 1900009 + i, "tsan" if i % 10 == 9 else "asan") for i in range(n)]
    if one:
        jobs = [(int(one), os.environ.get("VF_VARIANT", "asan"))]
    else:
        ctx.build("tsan", "rrr")
    ctx.build("asan", "rrr")
    ctx.par(lambda j: server(ctx, j[0], j[1], ctx.scale(60, 120)), jobs, workers=10)
    if not one:
        for s, k in (("server_scenarios", n // 4), ("crash_points", 10), ("killed", 5), ("put_acked", 500), ("get_hit", 200), ("verified_after_restart", 20), ("idx", 10), ("corrupted", 10), ("huge_iterations", 2), ("iteration_interrupted", 2)):
            ctx.require(s, k)
