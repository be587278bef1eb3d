#!/usr/bin/env python3
"""Run one property's check:  run.py PROPERTY [quick|thorough]

exit 0  the property held on everything this run observed
exit 1  VIOLATION line printed
exit 2  harness error; exit 3 inconclusive (nothing was decided)
"""
import hashlib, importlib, json, os, re, signal, subprocess, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "vf"))
import build as B  # noqa: E402

EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Inconclusive(Exception):
    pass


class HarnessError(Exception):
    pass


class Proc:
    def __init__(self, rc, out, err, timeout, cmd, wall):
        self.rc, self.out, self.err, self.timeout, self.cmd, self.wall = rc, out, err, timeout, cmd, wall


def san_env(variant, extra=None, leaks=False, log=None, supp=None):
    e = dict(os.environ)
    sym = "/usr/lib/llvm-18/bin/llvm-symbolizer"
    lg = ":log_path=%s" % log if log else ""
    e["ASAN_OPTIONS"] = ("detect_leaks=%d:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                         "detect_odr_violation=0:handle_abort=1:detect_stack_use_after_return=0:"
                         "malloc_context_size=20%s" % (1 if leaks else 0, lg))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99" + lg
    e["LSAN_OPTIONS"] = "exitcode=99:suppressions=%s" % os.path.join(VERIF, "cfg/lsan.supp")
    e["TSAN_OPTIONS"] = ("halt_on_error=0:exitcode=66:history_size=5:second_deadlock_stack=1:report_signal_unsafe=0:"
                         "die_after_fork=0:suppressions=%s%s" % (supp or os.path.join(VERIF, "cfg/tsan.supp"), lg))
    if os.path.exists(sym):
        e["ASAN_SYMBOLIZER_PATH"] = sym
    e.pop("LD_PRELOAD", None)
    if extra:
        e.update(extra)
    return e


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)|#\d+ (\S+) (\S+:\d+)")


def san_reports(text):
    """-> list of (key, excerpt) for every sanitizer report in text"""
    res = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        kind = None
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", l)
        if m:
            kind = "asan-" + m.group(1).rstrip(":")
        m2 = re.search(r"runtime error: (.*)", l)
        if m2:
            kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m2.group(1))[:60].replace(" ", "_")
        m3 = re.search(r"WARNING: ThreadSanitizer: ([^(]*)", l)
        if m3:
            kind = "tsan-" + m3.group(1).strip().replace(" ", "-")
        m4 = re.search(r"ERROR: LeakSanitizer: detected memory leaks", l)
        if m4:
            kind = "lsan-leak"
        if re.search(r"Assertion `.*' failed", l):
            kind = "assert"
        if kind is None:
            i += 1
            continue
        blk = lines[i:i + 120]
        end = len(blk)
        for j in range(1, len(blk)):
            if blk[j].startswith("SUMMARY:") or blk[j].startswith("=================="):
                end = j + 1
                break
        blk = blk[:end]
        fr = []
        if kind == "assert":
            m = re.search(r"(\w+\.c):(\d+): (\w+):", l)
            fr = [m.group(3)] if m else []
        for b in blk:
            m = FRAME.search(b)
            if m:
                fn = m.group(1) or m.group(3)
                fl = m.group(2) or m.group(4)
                if re.search(r"/src/(lib|modules|cmodules)|mirror/src|/harness/", fl or "") and fn not in fr:
                    fr.append(fn)
        res.append((kind + ":" + ">".join(fr[:3]), "\n".join(blk)))
        i += max(end, 1)
    return res


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.evals = 0
        self.dist = set()
        self.ndist_extra = 0
        self.samples = []
        self.stats = {}
        self.rule = ""
        self.assumptions = []
        self.viol = {}
        self.level = "exploration"
        self.workdir = None
        self.build_s = 0.0
        self.incon = []
        self.extra = {}
        self.built = {}
        self.lock = threading.RLock()

    # ---- bookkeeping
    def scale(self, q, t):
        return q if self.quick else t

    def count(self, n=1):
        with self.lock:
            self.evals += n

    def distinct(self, key):
        if not isinstance(key, bytes):
            key = repr(key).encode()
        self.dist.add(hashlib.blake2b(key, digest_size=8).digest())

    def stat(self, k, n=1):
        with self.lock:
            self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, (str, dict, list, int)) else repr(s))

    def violation(self, key, detail, replay=""):
        if key not in self.viol:
            self.viol[key] = (detail, replay)

    def inconclusive(self, why):
        self.incon.append(why)

    def require(self, stat, least=1):
        if self.stats.get(stat, 0) < least and not self.viol:
            raise Inconclusive("observed too little: %s=%s < %s" % (stat, self.stats.get(stat, 0), least))

    # ---- building and running
    def build(self, variant, *targets):
        k = (variant, targets)
        with self.lock:
            if k not in self.built:
                self.built[k] = self._build(variant, *targets)
            return self.built[k]

    def _build(self, variant, *targets):
        try:
            d, t = B.build(variant, targets or ("lib",))
        except RuntimeError as e:
            raise HarnessError(str(e))
        self.build_s += t
        return d

    def par(self, fn, jobs, workers=8, limit=None):
        """fn(job) for all jobs on a thread pool; no new ones are started after limit seconds or many violations"""
        limit = limit or self.scale(420, 780)

        def go(j):
            if time.time() - self.t0 > limit or len(self.viol) > 12:
                self.stat("jobs_skipped")
                return None
            return fn(j)
        with ThreadPoolExecutor(workers) as ex:
            return list(ex.map(go, jobs))

    def tmp(self):
        with self.lock:
            if self.workdir is None:
                import tempfile
                self.workdir = tempfile.mkdtemp(prefix="vf-%s-" % self.prop, dir="/tmp")
            return self.workdir

    def run(self, cmd, timeout=120, stdin=None, env=None, variant="asan", leaks=False, cwd=None, supp=None):
        e = san_env(variant, env, leaks=leaks, supp=supp)
        t = time.time()
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or self.tmp(),
                             start_new_session=True)
        to = False
        try:
            out, err = p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        return Proc(p.returncode, out, err.decode("utf8", "replace"), to, cmd, time.time() - t)

    def judge(self, p, what, replay=None, allow_rc=(0,)):
        """Fold one process' outcome into the verdict; -> True if clean."""
        rp = replay if replay is not None else " ".join(map(str, p.cmd))
        reps = san_reports(p.err)
        txt = "%s\ncmd: %s\nrc=%s\n" % (what, rp, p.rc)
        for k, blk in reps:
            self.violation("san:" + k, txt + blk, rp)
        for m in re.finditer(rb"^#V (\S+) ?(.*)$", p.out or b"", re.M):
            self.violation(m.group(1).decode(), txt + m.group(2).decode("utf8", "replace") + "\n" + p.err[-2000:], rp)
        if reps or re.search(rb"^#V ", p.out or b"", re.M):
            return False
        if p.timeout:
            return None
        if p.rc not in allow_rc:
            if p.rc < 0 or p.rc in (99, 66, 134, 139):
                self.violation("crash:%s:%s" % (os.path.basename(str(p.cmd[0])), crash_tail(p.err)), txt + p.err[-4000:], rp)
                return False
            raise HarnessError("%s: rc %s\n%s" % (rp, p.rc, p.err[-3000:]))
        return True

    def fold_stats(self, out):
        """#C name n / #S sample / #E n (evaluations) / #D n (distinct) lines of a C harness"""
        for l in (out or b"").decode("utf8", "replace").split("\n"):
            if l.startswith("#C "):
                _, k, n = l.split(" ", 2)
                self.stat(k, int(n))
            elif l.startswith("#S "):
                self.sample(l[3:])
            elif l.startswith("#E "):
                self.evals += int(l[3:])
            elif l.startswith("#D "):
                self.distinct(l[3:])

    def harness(self, name, arglists, variants=("asan",), timeout=150, leaks=False, env=None, workers=8, supp=None):
        """Run a C harness once per (variant, args); hangs are re-run once, alone."""
        jobs = []
        for v in variants:
            d = self.build(v, "h:" + name)
            for a in arglists:
                jobs.append((v, [os.path.join(d, "h_" + name)] + [str(x) for x in a]))

        def one(j):
            v, cmd = j
            return j, self.run(cmd, timeout=timeout, variant=v, leaks=leaks and v == "asan", env=env, supp=supp)
        hung = []
        with ThreadPoolExecutor(workers) as ex:
            for j, p in ex.map(one, jobs):
                self.fold_stats(p.out)
                if self.judge(p, "%s build of harness %s" % (j[0], name)) is None:
                    hung.append(j)
        for j in hung[:2]:
            j, p = one(j)
            if self.judge(p, "re-run") is None:
                self.violation("hang:" + name, "no progress within %ss, twice: %s\nlast output:\n%s" % (
                    timeout, " ".join(j[1]), (p.out or b"")[-1500:].decode("utf8", "replace")), " ".join(j[1]))
            else:
                self.stat("hang_not_reproduced")

    def drv(self, name, cmds, variant="asan", workers=8, timeout=200, leaks=True, env=None, batch=None, args=()):
        """Feed command lines to a driver harness; -> one response (str or None) per command.
        cmds: list of lists (groups kept in one process, in order) or list of str.
        A crash is recorded as a violation naming the command; the group goes on after it."""
        exe = os.path.join(self.build(variant, "h:" + name), "h_" + name)
        flat = not cmds or isinstance(cmds[0], str)
        groups = cmds
        if flat:
            b = batch or max(1, (len(cmds) + workers - 1) // workers)
            groups = [cmds[i:i + b] for i in range(0, len(cmds), b)]

        def one(g):
            res, pos, fails = [], 0, 0
            while pos < len(g):
                part = g[pos:]
                p = self.run([exe, *args], timeout=timeout, stdin=("\n".join(part) + "\n").encode(), variant=variant, leaks=leaks, env=env)
                lines = p.out.decode("utf8", "replace").split("\n")[:-1]
                res += lines[:len(part)]
                pos += len(lines)
                if p.rc == 0 and len(lines) == len(part):
                    break
                culprit = g[pos] if pos < len(g) else "(exit)"
                rp = "printf '%%s\\n' '%s' | %s" % (culprit[:3000], " ".join([exe, *args]))
                if p.timeout:
                    self.violation("hang:" + name, "driver %s stuck for %ss in command: %s" % (name, timeout, culprit[:3000]), rp)
                else:
                    hist = "\nprevious commands:\n" + "\n".join(c[:600] for c in g[max(0, pos - 3):pos])
                    self.judge(p, "driver %s, command: %s%s" % (name, culprit[:3000], hist), replay=rp)
                if pos >= len(g):
                    break
                res.append(None)
                pos += 1
                fails += 1
                if fails >= 4:
                    res += [None] * (len(g) - pos)
                    break
            return res[:len(g)]
        with ThreadPoolExecutor(workers) as ex:
            out = list(ex.map(one, groups))
        return [r for o in out for r in o] if flat else out

    # ---- verdict
    def known(self):
        res = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3)))
        return res

    def finish(self):
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for f in os.listdir(os.path.join(EVID, "replay")):
            if re.match(r"%s-\d+\.txt$" % self.prop, f):
                os.unlink(os.path.join(EVID, "replay", f))
        known = self.known()
        hit, bad = set(), []
        for k, v in self.viol.items():
            ks = [x for x in known if x[0] == k or (x[0].startswith("re:") and re.fullmatch(x[0][3:], k))]
            if ks:
                hit.add(ks[0])
            else:
                bad.append((k, v))
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.dist) + self.ndist_extra, "rule": self.rule,
               "samples": self.samples or ["none"], "observed": self.stats,
               "build_s": round(self.build_s, 1)}
        cov.update(self.extra)
        if self.incon:
            cov["inconclusive"] = self.incon[:20]
        json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
                   "coverage": cov, "assumptions": self.assumptions,
                   "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)},
                  open(os.path.join(EVID, self.prop + ".json"), "w"), indent=1)
        for k, what in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for n, (k, (d, rp)) in enumerate(bad):
            path = os.path.join(EVID, "replay", "%s-%d.txt" % (self.prop, n))
            open(path, "w").write("property: %s\nkey: %s\nseed: %d tier: %s\nreplay: %s\n\n%s\n" % (
                self.prop, k, self.seed, self.tier, rp, d))
            if n < 8:
                print("  key=%s\n  %s" % (k, d[:1500].replace("\n", "\n  ")))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s %s seed=%d: evaluations=%d distinct=%d wall=%.1fs (build %.1fs) %s" % (
            self.prop, self.tier, self.seed, self.evals, len(self.dist) + self.ndist_extra, time.time() - self.t0, self.build_s,
            " ".join("%s=%s" % kv for kv in sorted(self.stats.items()))[:1500]))
        if bad:
            return 1
        if self.incon:
            print("INCONCLUSIVE: " + "; ".join(self.incon[:5]))
        return 0


def crash_tail(err):
    for l in reversed(err.strip().split("\n")):
        m = re.search(r"BUG: (.*)", l)
        if m:
            return "BUG:" + re.sub(r"[^A-Za-z0-9_]+", "_", m.group(1))[:60]
    for l in err.strip().split("\n"):
        m = re.search(r"Assertion `(.*)' failed", l)
        if m:
            return "assert:" + re.sub(r"[^A-Za-z0-9_]+", "_", m.group(1))[:60]
    return "exit"


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.setrecursionlimit(10000)
    ctx = Ctx(prop, tier)
    rc = 2
    try:
        mods = [f[:-3] for f in os.listdir(os.path.join(VERIF, "checks")) if re.match(prop.lower() + r"(_.*)?\.py$", f)]
        mod = importlib.import_module("checks." + mods[0])
        mod.check(ctx)
        rc = ctx.finish()
    except Inconclusive as e:
        if ctx.viol:
            rc = ctx.finish()
        else:
            print("INCONCLUSIVE: %s" % e)
            rc = 3
    except Exception:
        traceback.print_exc()
        if ctx.viol:
            try:
                rc = ctx.finish() or 2
            except Exception:
                rc = 2
        else:
            rc = 2
    finally:
        if ctx.workdir and not os.environ.get("VF_KEEP"):
            subprocess.run(["rm", "-rf", ctx.workdir])
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
