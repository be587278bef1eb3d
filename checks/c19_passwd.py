"""Password files: rrr_passwd changes exactly what it is told to, atomically; rrr_auth admits exactly whom the file says."""
import base64, hashlib, os, random, shutil, signal, subprocess, tempfile, threading, time
import run as R
from checks.c20_msgdb import shim, Stop

TECHNIQUE = "runtime monitoring: reference model of the password file compared after each run of the real programs, independent hash implementation, concurrent reader, injected kills, failures and short writes at every file operation; ASan/UBSan"
NOTE = "The terminal prompt is driven through a pseudo terminal. File system contents after power loss are not judged (kills of the process are)."
MAXP = 32


def kdf(pw, salt):
    return base64.b64encode(hashlib.pbkdf2_hmac("sha256", pw, salt, 20000, 256))


def mkhash(pw, salt=None, kind=1):
    if kind == 0:
        return b"$0$$" + base64.b64encode(pw)
    salt = salt or os.urandom(32)
    return b"$1$" + base64.b64encode(salt) + b"$" + kdf(pw, salt)


def accepts(h, pw):
    """does the hash text h accept pw -> True, False or None (unspecified)"""
    if not pw or not h:
        return False
    e = h.split(b"$")
    if len(e) != 4 or e[0]:
        return False
    if e[1] == b"0":
        return not e[2] and len(pw) <= 256 and base64.b64encode(pw) == e[3]
    if e[1] == b"1":
        try:
            s, k = base64.b64decode(e[2], validate=True), base64.b64decode(e[3], validate=True)
        except Exception:
            return False
        if len(s) < 32 or len(k) != 256:
            return False
        return hashlib.pbkdf2_hmac("sha256", pw, s, 20000, 256) == k
    return False


def parse(b):
    """-> list of (raw line, user, perms, hash) or None when broken"""
    out = []
    for l in b.replace(b"\r", b"\n").split(b"\n"):
        l = l.lstrip(b" \t")
        if not l:
            continue
        e = l.split(b":")
        if len(e) != 3 or (e[1] and len(e[1].split(b",")) > MAXP):
            return None
        out.append((l, e[0], e[1].split(b",") if e[1] else [], e[2]))
    return out


def word(r, bad=0.0):
    k = r.random()
    if k < 0.5:
        return r.choice([b"alice", b"bob", b"carol", b"mqtt", b"http", b"a", b"alice2", b"Alice"])
    if k < 0.5 + bad:
        return r.choice([b"a:b", b"a,b", b":", b"x\ny:mqtt:z", b"x\ny", b"x\r", b"\nx", b" lead", b"\tlead", b"a:b:c"])
    n = r.choice([1, 2, 10, 100, 255])
    return bytes(r.choice(b"abcXYZ019_-.+@$/=*%!#") for _ in range(n)).replace(b"-", b"_").replace(b"=", b"e")


def password(r):
    k = r.random()
    if k < 0.5:
        return r.choice([b"x", b"secret", b"secret1", b"pass word", b"Secret", b"\xc3\xa6\xc3\xb8", b"p$a:s,s"])
    n = r.choice([1, 3, 47, 48, 49, 72, 255, 256, 257, 1000])
    return bytes(r.choice(b"abcdefgXYZ0123456789!#") for _ in range(n))


class Case:
    def __init__(self, ctx, seed):
        self.ctx, self.seed = ctx, seed
        self.r = random.Random(seed)
        self.base = tempfile.mkdtemp(prefix="pw-", dir=ctx.tmp())
        self.f = os.path.join(self.base, "d", "passwd")
        os.mkdir(os.path.dirname(self.f))
        b = ctx.build("asan", "progs")
        self.passwd, self.auth = os.path.join(b, "rrr_passwd"), os.path.join(b, "rrr_auth")
        self.events = []
        self.other = {}
        for n in ("passwd.old", "passwd.bak", "other", "passwd.new"):
            if self.r.random() < 0.5:
                self.other[n] = os.urandom(20)
                open(os.path.join(self.base, "d", n), "wb").write(self.other[n])
        self.plain = {}   # hash -> password which it accepts

    def log(self, s):
        self.events.append(s)

    def bad(self, key, text):
        self.ctx.violation("passwd:" + key, "seed %d\n%s\nlast events:\n  %s\nfile:\n%s" % (self.seed, text, "\n  ".join(self.events[-20:]), (self.read() or b"(none)")[-3000:].decode("latin1")),
                           "VF_PASSWD=%d python3 -m vf.run C19" % self.seed)
        raise Stop()

    def read(self):
        try:
            return open(self.f, "rb").read()
        except FileNotFoundError:
            return None

    def call(self, cmd, stdin=None, env=None, tty=None):
        if tty is None:
            p = self.ctx.run(cmd, stdin=stdin, env=env, leaks=not env, timeout=120)
        else:
            p = tty_run(self.ctx, cmd, tty)
        for k, blk in R.san_reports(p.err):
            self.ctx.violation("san:" + k, "seed %d\ncmd %s\n%s" % (self.seed, cmd, blk), "VF_PASSWD=%d python3 -m vf.run C19" % self.seed)
            raise Stop()
        if p.timeout:
            self.bad("hang", "%s did not end" % cmd)
        if p.rc < 0 and not env:
            self.bad("crash", "%s ended with %d\n%s" % (cmd, p.rc, p.err[-2000:]))
        return p

    def same_dir(self, crashed=False):
        d = os.path.dirname(self.f)
        for n in os.listdir(d):
            if n == "passwd" or n in self.other:
                continue
            if crashed and n.startswith("passwd."):
                os.unlink(os.path.join(d, n))   # temporary file of a killed program
                continue
            self.bad("left", "file %s was left behind" % n)
        for n, b in self.other.items():
            try:
                if open(os.path.join(d, n), "rb").read() != b:
                    self.bad("other-file", "file %s was changed" % n)
            except FileNotFoundError:
                self.bad("other-file", "file %s was removed" % n)


def tty_run(ctx, cmd, lines):
    """run with the lines typed at the prompts of a pseudo terminal"""
    import pty, select
    m, s = pty.openpty()
    e = R.san_env("asan", None, leaks=True)
    p = subprocess.Popen(cmd, stdin=s, stdout=s, stderr=subprocess.PIPE, env=e, start_new_session=True, cwd=ctx.tmp())
    os.close(s)
    out, n, t0 = b"", 0, time.time()
    while time.time() - t0 < 100:
        x, _, _ = select.select([m], [], [], 0.2)
        if x:
            try:
                b = os.read(m, 65536)
            except OSError:
                break
            if not b:
                break
            out += b
            while out.count(b"assword: ") + out.count(b"(again): ") > n and n < len(lines):
                os.write(m, lines[n] + b"\n")
                n += 1
        elif p.poll() is not None:
            break
    to = p.poll() is None and time.time() - t0 >= 100
    if to:
        p.kill()
    err = p.stderr.read().decode("utf8", "replace")
    p.wait()
    os.close(m)
    return R.Proc(p.returncode, out, err, to, cmd, 0)


def apply(lines, user, op, perms, append, pw):
    """the documented effect -> new list of (user, perms, 'keep' or raw line or password) or None when it must fail"""
    if any(c in user for c in b":,\n\r") or user[:1] in (b" ", b"\t") or any(c in p for p in perms or [] for c in b":\n\r"):
        return None
    names = [l[1] for l in lines]
    if op == "remove":
        if append or perms is not None or pw is not None or names.count(user) != 1:
            return None
        return [("raw", l) for l in lines if l[1] != user]
    if append and perms is None:
        return None
    new = []
    found = 0
    for l in lines:
        if l[1] != user:
            new.append(("raw", l))
            continue
        found += 1
        new.append(("user", user, (l[2] if perms is None or append else []) + (perms or []), ("hash", l[3]) if pw is None else ("pw", pw)))
    if op == "create":
        if found:
            return None
        new.append(("user", user, perms or [], ("pw", pw or b"")))
    elif found != 1:
        return None
    for n in new:
        if n[0] == "user" and len({p for p in n[2] if p}) > MAXP:
            return None
    return new


def compare(c, b, new):
    """does file b hold what new says"""
    got = parse(b)
    if got is None:
        return "the file cannot be read"
    if len(got) != len(new):
        return "%d users instead of %d" % (len(got), len(new))
    for g, n in zip(got, new):
        if n[0] == "raw":
            if g[0] != n[1][0]:
                return "line of user %r changed" % n[1][1]
            continue
        if g[1] != n[1]:
            return "user %r instead of %r" % (g[1], n[1])
        want = {p for p in n[2] if p}
        if sorted(p for p in g[2] if p) != sorted(want):
            return "user %r has permissions %r instead of %r" % (g[1], g[2], sorted(want))
        kind, v = n[3]
        if kind == "hash":
            if g[3] != v:
                return "password of user %r changed" % g[1]
        elif not v:
            if g[3]:
                return "user %r has a password instead of being disabled" % g[1]
        else:
            if not g[3].startswith(b"$1$") or not accepts(g[3], v):
                return "password hash of user %r does not match" % g[1]
            c.plain[g[3]] = v
    return None


def one_op(c, crash=None):
    r, ctx = c.r, c.ctx
    before = c.read()
    lines = parse(before or b"")
    user = word(r, 0.1)
    if lines and r.random() < 0.6:
        user = r.choice(lines)[1] or user
    if not user:
        user = b"a"
    op = r.choice(["create", "create", "modify", "modify", "remove"]) if lines else r.choice(["create", "create", "create", "modify"])
    perms = None
    if r.random() < 0.5:
        perms = [word(r, 0.06).replace(b",", b"") or b"p" for _ in range(r.choice([0, 1, 2, 3, 3, 31, 32, 33, 50] if r.random() < 0.3 else [0, 1, 2, 3]))]
        if len(perms) > 10:
            perms = [b"perm%d" % i for i in range(len(perms))]
        if perms and r.random() < 0.3:
            perms.append(perms[0])
    append = perms is not None and r.random() < 0.4 or r.random() < 0.03
    pw = r.choice([b"", password(r), password(r), password(r)]) if r.random() < 0.6 else None
    if op == "remove":
        perms = None if r.random() < 0.9 else perms
        append = append and r.random() < 0.1
        pw = None if r.random() < 0.9 else pw
    prompt = pw is None and (op == "create" or (not append and op != "remove" and not perms and perms != []))
    tty = None
    if prompt:
        pw = password(r) if r.random() < 0.9 else b""
        tty = [pw, pw]
        if r.random() < 0.2:
            tty = [pw, pw + b"x"] + tty
        if len(pw) > 900:
            tty = None
    stdout = r.random() < 0.15
    cmd = [c.passwd]
    opts = []
    if op == "create":
        opts.append(r.choice([["-c"], ["--create-user"]]))
    if op == "remove":
        opts.append(r.choice([["-r"], ["--remove-user"]]))
    if perms is not None:
        opts.append(["-p", b",".join(perms)])
    if append:
        opts.append(["-a"])
    if pw is not None and tty is None:
        opts.append(["-P", pw])
    if stdout:
        opts.append(["-s"])
    r.shuffle(opts)
    cmd = [x.encode() if isinstance(x, str) else x for x in cmd + [c.f, user] + [o for l in opts for o in l]]
    eff = perms
    if perms == []:
        eff = []
    new = apply(lines, user, op, eff, append, pw)
    if perms == [] and append:
        # an empty list to append
        new2 = [None, new]
    env = {}
    if crash:
        at, half, mode = crash
        arm = os.path.join(c.base, "arm")
        open(arm, "w").close()
        lg = os.path.join(c.base, "crashlog")
        open(lg, "w").close()
        env = {"LD_PRELOAD": "libasan-placeholder", "VF_CRASH_DIR": os.path.dirname(c.f), "VF_CRASH_AT": str(at), "VF_CRASH_HALF": str(half), "VF_CRASH_MODE": mode, "VF_CRASH_ARM": arm, "VF_CRASH_LOG": lg}
        env["LD_PRELOAD"] = shim(ctx)
        env["LSAN_OPTIONS"] = "detect_leaks=0"
        if tty:
            cmd += [b"-P", pw]
            tty = None
    c.log("%s crash %s" % (" ".join(repr(x.decode("latin1")) for x in cmd[2:]), crash))
    seen = []
    watch = Watch(c, seen) if before is not None and not crash and r.random() < 0.5 else None
    p = c.call(cmd, env=env or None, tty=tty)
    if watch:
        watch.end()
    after = c.read()
    ctx.count()
    ctx.stat("op_" + op + ("_refused" if new is None else ""))
    ctx.distinct((op, append, perms is not None and min(len(perms), 4), pw is None, len(pw or b"") > 100, stdout, bool(tty), new is None, crash and crash[2]))
    if watch:
        for s in seen:
            if s not in (before, after):
                c.bad("not-atomic", "a reader saw %s while the file was updated" % ("no file" if s is None else "%d bytes which are neither the old nor the new contents" % len(s)))
        ctx.stat("watched_reads", watch.n)
    unchanged = after == before or (before is None and not after)
    if crash:
        ops = len(open(lg).read().split("\n")) - 1
        hit = ops > crash[0]
        ctx.stat("crash_" + crash[2] if hit else "crash_not_reached")
        if not hit and p.rc < 0:
            c.bad("crash", "ended with %d\n%s" % (p.rc, p.err[-2000:]))
        e = None if new is None or stdout else compare(c, after or b"", new)
        if not unchanged and (new is None or stdout or e):
            c.bad("crash-point", "after %s at operation %d the file is neither the old nor the new one%s" % (crash[2], crash[0], ": " + e if e else ""))
        if before is not None and after is None:
            c.bad("crash-lost", "the file is missing")
        if hit and crash[2] == "fail" and p.rc == 0 and new is not None and not stdout and unchanged and compare(c, before or b"", new):
            c.bad("fail-unnoticed", "a failing file operation was not noticed, exit status 0")
        if p.rc == 0 and not stdout and (new is None or e):
            c.bad("status", "exit status 0 but the file is not as told%s" % (": " + e if e else ""))
        c.same_dir(True)
        return
    if new is None:
        if p.rc == 0:
            c.bad("accepted", "was accepted")
        if not unchanged:
            c.bad("changed", "was refused but the file changed")
    else:
        if p.rc != 0:
            c.bad("refused", "was refused with status %d\n%s" % (p.rc, p.err[-1000:]))
        if stdout:
            if not unchanged:
                c.bad("changed", "the file was changed despite of -s")
            o = p.out if tty is None else p.out.replace(b"\r\n", b"\n").split(b"(again): \n")[-1]
            e = compare(c, b"\n".join(l for l in o.split(b"\n") if not l.startswith(b"<")), new)   # without the log
            if e:
                c.bad("stdout", "output is wrong: " + e + "\n" + p.out.decode("latin1"))
            ctx.stat("stdout")
        else:
            e = compare(c, after or b"", new)
            if e:
                c.bad("contents", e)
    if tty:
        ctx.stat("prompted")
    c.same_dir()


class Watch:
    def __init__(self, c, seen):
        self.c, self.seen, self.stop, self.n = c, seen, False, 0
        self.t = threading.Thread(target=self.go)
        self.t.start()

    def go(self):
        last = 0
        while not self.stop:
            b = self.c.read()
            self.n += 1
            if b != last:
                self.seen.append(b)
                last = b
            time.sleep(0.0002)

    def end(self):
        self.stop = True
        self.t.join()


def auth_one(c, user, pw, perm, expect, how):
    """one run of rrr_auth"""
    cmd = [c.auth.encode(), c.f.encode(), user] + ([b"-p", perm] if perm is not None else [])
    c.log("auth %r %r %r %s, expected %s" % (user[:60], pw[:60], perm, how, expect))
    if how == "tty":
        p = c.call(cmd, tty=[pw])
    elif how == "parts":
        p = parts_run(c, cmd + [b"-s"], pw)
    else:
        p = c.call(cmd + [b"-s"], stdin=pw)
    c.ctx.count()
    if p.rc not in (0, 1):
        c.bad("auth-crash", "rrr_auth ended with %d\n%s" % (p.rc, p.err[-2000:]))
    if expect is not None and (p.rc == 0) != expect:
        c.bad("auth-" + ("refused" if expect else "admitted"), "user %r with password %r and permission %r was %s" % (user, pw[:300], perm, "admitted" if p.rc == 0 else "refused"))
    c.ctx.stat("auth_ok" if p.rc == 0 else "auth_refused")


def parts_run(c, cmd, pw):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=R.san_env("asan", None, leaks=True), start_new_session=True, cwd=c.ctx.tmp())
    n = c.r.randrange(1, len(pw)) if len(pw) > 1 else 0
    try:
        p.stdin.write(pw[:n])
        p.stdin.flush()
        time.sleep(0.5)
        p.stdin.write(pw[n:])
        p.stdin.flush()
    except BrokenPipeError:
        pass
    try:
        out, err = p.communicate(timeout=60)
    except subprocess.TimeoutExpired:
        p.kill()
        c.bad("hang", "rrr_auth did not end")
    c.ctx.stat("auth_in_parts")
    return R.Proc(p.returncode, out, err.decode("utf8", "replace"), False, cmd, 0)


def verdict(lines, user, pw, perm):
    """what the file says"""
    if lines is None or not pw or b"\0" in pw or len(pw) >= 1022:
        return False
    for l in lines:
        if l[1] == user:
            return accepts(l[3], pw) and (perm is None or perm in l[2])
    return False


def auths(c, n):
    r = c.r
    b = c.read() or b""
    lines = parse(b)
    for _ in range(n):
        user = r.choice(lines)[1] if lines and r.random() < 0.85 else word(r)
        l = next((x for x in lines or [] if x[1] == user), None)
        right = c.plain.get(l[3]) if l else None
        k = r.random()
        pw = right if right and k < 0.5 else password(r)
        if right and k > 0.6:
            pw = r.choice([right[:-1], right + b"x", right + b"\n", right + b"\0", right + b"\0x", right.swapcase(), b" " + right, b"\0", right[1:], right + right])
        if l and k > 0.97:
            pw = l[3]
        if not user or (right and len(right) > 1000):
            continue
        perm = None
        if r.random() < 0.5:
            perm = r.choice([x for x in l[2] if x] or [b"mqtt"]) if l and r.random() < 0.6 else r.choice([b"mqtt", b"http", b"a", b"mqt", b"mqttx", b"perm1"])
        how = "parts" if r.random() < 0.15 and len(pw) > 1 else "tty" if r.random() < 0.15 and pw and not any(x < 32 or x > 126 for x in pw) and len(pw) < 1000 else "stdin"
        if not pw:
            how = "stdin"
        auth_one(c, user, pw, perm, verdict(lines, user, pw, perm), how)


def handmade(c):
    """files not written by rrr_passwd, also broken ones"""
    r = c.r
    ls = []
    for i in range(r.choice([1, 2, 5])):
        pw = password(r)
        k = r.random()
        if k < 0.3:
            h = mkhash(pw)
        elif k < 0.7:
            h = mkhash(pw, kind=0)
        elif k < 0.75:
            h = b""
        else:
            h = mkhash(pw)
            e = h.split(b"$")
            m = r.randrange(9)
            if m == 0:
                h = b"$1$" + base64.b64encode(os.urandom(r.choice([1, 3, 8, 31]))) + b"$" + e[3]
            elif m == 1:
                h = b"$1$" + e[2] + b"$" + base64.b64encode(base64.b64decode(e[3])[:r.choice([1, 3, 255, 128])])
            elif m == 2:
                h = b"$1$" + e[2] + b"$"
            elif m == 3:
                h = b"$1$" + e[2]
            elif m == 4:
                h = r.choice([b"$", b"$$$", b"$1$$$", b"x", b"$2$a$b", b"$0$a$b", b"$0$$", b"$1$!$!", b"$1$AAAA$AAAA", b"x" + e[1] + b"$" + e[2] + b"$" + e[3]])
            elif m == 5:
                h = h + b"$"
            elif m == 6:
                h = b"$1$" + e[2] + b"$" + e[3][:-8] + b"AAAAAAAA"
            elif m == 7:
                d = bytearray(base64.b64decode(e[3]))
                d[r.choice([0, 31, 32, 128, 255])] ^= 1
                h = b"$1$" + e[2] + b"$" + base64.b64encode(bytes(d))
            else:
                h = mkhash(pw[:max(1, len(pw) - 1)], kind=0)
        c.plain[h] = pw
        ls.append(r.choice([b"", b"", b"", b"  ", b"\t", b"\n"]) + (word(r) if i else b"u") + b":" + r.choice([b"", b"mqtt", b"a,mqtt", b",mqtt,", b",".join(b"p%d" % j for j in range(r.choice([31, 32, 33, 40])))]) + b":" + h)
    if r.random() < 0.2:
        ls.insert(r.randrange(len(ls) + 1), r.choice([b"x", b"::", b":::", b"x:y", b"a:b:c:d", b":mqtt:" + mkhash(b"x", kind=0)]))
    b = r.choice([b"\n", b"\n", b"\r\n", b"\n\n"]).join(ls) + r.choice([b"", b"\n"])
    open(c.f, "wb").write(b)
    c.log("handmade file of %d lines" % len(ls))
    c.ctx.stat("handmade")
    lines = parse(b)
    good = lines
    if lines is None:
        # users before the broken line may be served, nobody after it
        good = []
        for l in b.replace(b"\r", b"\n").split(b"\n"):
            p = parse(l)
            if p is None:
                break
            good += p
        c.ctx.stat("handmade_broken")
    for l in ([x for x in parse_any(b)] or [(b"", b"u", [], b"")]):
        user = l[1]
        if not user or b"\0" in user:
            continue
        for pw in {c.plain.get(l[3], b"x"), c.plain.get(l[3], b"x")[:-1] or b"y", c.plain.get(l[3], b"x") + r.choice([b"x", b"xyz"])}:
            if r.random() < 0.8:
                perm = r.choice([None, None, b"mqtt", b"p1", b"a"])
                v = verdict(good, user, pw, perm)
                if v is False or lines is not None:
                    auth_one(c, user, pw, perm, v, "stdin")
                else:
                    auth_one(c, user, pw, perm, None, "stdin")


def parse_any(b):
    for l in b.replace(b"\r", b"\n").split(b"\n"):
        e = l.lstrip(b" \t").split(b":")
        if len(e) == 3:
            yield (l, e[0], e[1].split(b","), e[2])


def scenario(ctx, seed):
    c = None
    try:
        c = Case(ctx, seed)
        k = seed % 3
        if k == 2:
            for _ in range(3):
                handmade(c)
        else:
            for i in range(12):
                crash = None
                if k == 1 and c.r.random() < 0.7:
                    crash = (c.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15]), c.r.choice([0, 1]), c.r.choice(["kill", "kill", "fail", "short"]))
                one_op(c, crash)
                if c.r.random() < 0.3:
                    auths(c, 2)
            auths(c, 6)
        ctx.stat("scenarios")
    except Stop:
        pass
    finally:
        if c:
            shutil.rmtree(c.base)


def check(ctx):
    ctx.rule = "the password file holds exactly the users, permissions and passwords which it was told to hold, at all times; authentication succeeds exactly according to it"
    one = os.environ.get("VF_PASSWD")
    n = ctx.scale(150, 1500)
    jobs = [ctx.seed * 2900001 + i for i in range(n)] if not one else [int(one)]
    ctx.build("asan", "progs")
    ctx.par(lambda j: scenario(ctx, j), jobs, workers=12)
    if not one:
        for s, k in (("scenarios", n // 2), ("auth_ok", 100), ("auth_refused", 200), ("crash_kill", 50), ("crash_fail", 20), ("crash_short", 20), ("watched_reads", 500), ("handmade", 50), ("prompted", 10), ("auth_in_parts", 10), ("stdout", 20)):
            ctx.require(s, k)
