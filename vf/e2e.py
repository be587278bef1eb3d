"""Running the rrr daemon (sanitizer build) with generated configurations; feeding and observing it over its real interfaces."""
import os, re, signal, socket, struct, subprocess, threading, time, tempfile
import run as R
import m_wire as W


class Daemon:
    """One daemon with one configuration in a scratch directory."""

    def __init__(self, ctx, conf, variant="asan", env=None, args=(), prog="rrr", leaks=True):
        self.ctx, self.variant = ctx, variant
        self.bin = ctx.build(variant, "rrr", "p_" + prog) if prog != "rrr" else ctx.build(variant, "rrr")
        self.dir = tempfile.mkdtemp(prefix="e2e-", dir=ctx.tmp())
        self.conf = conf.replace("@DIR@", self.dir)
        self.cfile = os.path.join(self.dir, "rrr.conf")
        open(self.cfile, "w").write(self.conf)
        self.log = os.path.join(self.dir, "log")
        e = R.san_env(variant, env, leaks=leaks)
        self.cmd = [os.path.join(self.bin, prog), "-r", os.path.join(self.dir, "run"), *args, self.cfile]
        e["LD_PRELOAD"] = "/usr/libexec/coreutils/libstdbuf.so"  # the log is complete also when the process ends abnormally
        e["_STDBUF_O"] = "L"
        if e.get("VF_PRELOAD"):
            e["LD_PRELOAD"] += ":" + e["VF_PRELOAD"]
        self.f = open(self.log, "wb")
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.DEVNULL, stdout=self.f, stderr=subprocess.STDOUT, env=e, cwd=self.dir, start_new_session=True)

    def path(self, n):
        return os.path.join(self.dir, n)

    def text(self):
        return open(self.log, errors="replace").read()

    def wait_log(self, rx, timeout=30, n=1):
        t = time.time()
        while time.time() - t < timeout:
            if len(re.findall(rx, self.text())) >= n:
                return True
            if self.p.poll() is not None:
                return False
            time.sleep(0.05)
        return False

    def connect(self, addr, timeout=30):
        """unix path or (host, port); retried until the daemon listens"""
        t = time.time()
        while True:
            s = socket.socket(socket.AF_UNIX if isinstance(addr, str) else socket.AF_INET6 if ":" in addr[0] else socket.AF_INET, socket.SOCK_STREAM)
            try:
                s.connect(addr)
                return s
            except OSError:
                s.close()
                if self.p.poll() is not None or time.time() - t > timeout:
                    raise NotUp(self.text()[-3000:])
                time.sleep(0.05)

    def sink(self, name="out"):
        return Sink(self.path(name))

    def stop(self, how=signal.SIGINT, timeout=25):
        """-> log text; sanitizer reports, crashes and hangs become violations"""
        c = self.ctx
        hang = False
        if self.p.poll() is None:
            self.p.send_signal(how)
            try:
                self.p.wait(timeout)
            except subprocess.TimeoutExpired:
                hang = True
                if os.environ.get("VF_GDB"):
                    subprocess.run("for i in $(pgrep -g %d); do gdb -p $i -batch -ex 'thread apply all bt 8'; done" % self.p.pid, shell=True)
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()
        self.f.close()
        t = self.text()
        what = "daemon %s\nconfiguration:\n%s\n" % (" ".join(self.cmd), self.conf)
        n = 0
        self.cancelled = "Trying to cancel it" in t
        if self.cancelled:
            c.stat("threads_cancelled")
        for k, blk in R.san_reports(t):
            if self.cancelled and "leak" in k:
                continue  # a cancelled thread (overloaded machine) can not release what it works with
            n += 1
            c.violation("san:" + k, what + "log:\n" + t[:t.find("==ERROR")][-2500:] + "\n" + blk, " ".join(self.cmd))
        if n == 0:
            if "Parent sending SIGKILL to worker fork" in t:
                t = t.replace("was terminated by signal 9", "was killed by its parent")  # workers get 100 ms to stop, by design
            m = re.search(r"(?:BUG|Assertion|terminated by signal|was signalled|killed by signal).*", t)
            if m and re.search(r"BUG: |Assertion `|by signal|signal 6|signal 11", m.group(0)):
                c.violation("abort:" + re.sub(r"[^A-Za-z]+", "-", re.sub(r"0x\w+|\d+", "N", m.group(0)))[:70], what + t[-4000:], " ".join(self.cmd))
                n += 1
        if hang and n == 0:
            c.violation("shutdown-hang", what + t[-4000:], " ".join(self.cmd))
        if not hang and n == 0 and self.p.returncode < 0 and -self.p.returncode != how:
            c.violation("crash:rc%d" % self.p.returncode, what + t[-4000:], " ".join(self.cmd))
        c.stat("daemons")
        self.bad = n > 0 or hang
        return t


class NotUp(Exception):
    pass


class Sink:
    """Messages written by vfsink so far."""

    def __init__(self, path):
        self.path, self.pos, self.buf, self.msgs = path, 0, b"", []

    def poll(self):
        if not os.path.exists(self.path):
            return self.msgs
        with open(self.path, "rb") as f:
            f.seek(self.pos)
            d = f.read()
        self.pos += len(d)
        self.buf += d
        while len(self.buf) >= 18:
            n = struct.unpack(">I", self.buf[4:8])[0]
            if len(self.buf) < n:
                break
            self.msgs.append(parse(self.buf[:n]))
            self.buf = self.buf[n:]
        return self.msgs

    def wait(self, n, timeout=20, idle=None):
        """until n messages are there, or nothing new has come for `idle` s"""
        t = last = time.time()
        have = -1
        while time.time() - t < timeout:
            k = len(self.poll())
            if k != have:
                have, last = k, time.time()
            if k >= n and idle is None:
                break
            if idle is not None and time.time() - last > idle:
                break
            time.sleep(0.02)
        return self.msgs


class Msg:
    def __init__(self, ty, cl, ts, topic, data, value=0):
        self.ty, self.cl, self.ts, self.topic, self.data, self.value = ty, cl, ts, topic, data, value

    def __repr__(self):
        return "<%d/%d ts=%d %r %r>" % (self.ty, self.cl, self.ts, self.topic[:80], self.data[:60])

    def key(self):
        return (self.ty, self.cl, self.ts, self.topic, self.data)


def parse(b):
    size, mtype, value, dcrc = struct.unpack(">IHII", b[4:18])
    body = b[18:]
    ts, tc, ver, tl = struct.unpack(">QBBH", body[:12])
    return Msg(tc & 15, tc >> 4, ts, body[12:12 + tl], body[12 + tl:], value)


def msg(ts, topic=b"", data=b"", cl=1, ty=1):
    return W.msg(ty, cl, ts, topic, data)


def free_port(kind=socket.SOCK_STREAM):
    s = socket.socket(socket.AF_INET, kind)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p
