"""Instance graphs: what enters at the sources arrives at the sinks exactly as configured."""
import random, time, threading, collections
import e2e as E
import m_pipe as P
TECHNIQUE = "runtime monitoring: whole daemons with generated instance graphs, recorded deliveries compared with a reference model (exactly once, content, order per path), under ASan/UBSan/LSan and TSan"
NOTE = ("Graphs of up to 3 sources, 7 inner instances (buffer, mangler, exploder, incrementer) and their sinks; up to some hundred messages per source; "
        "order is required between messages which took the same path. Competing readers are judged as a group, without order.")


def rnd_msgs(rng, src, n, base, bad=0):
    out = []
    for i in range(n):
        ts = base + rng.choice([0, i, i * 1000]) * 8 + i
        topic = P.rnd_topic(rng, i) if rng.random() < 0.85 else b""
        ty = rng.choice([1, 1, 1, 2, 3, 4, 5])
        if rng.random() < bad:
            v, d = P.rnd_bad(rng, i)
            m = P.M(ts, ty, topic, d, None, (), src, i, bad=v)
        elif rng.random() < 0.6:
            m = P.M(ts, ty, topic, b"", P.rnd_els(rng, i), (), src, i)
        else:
            d = b"%s-%d-" % (src.encode(), i) + rng.randbytes(rng.choice([0, 1, 10, 100, 100, 5000 if rng.random() < 0.2 else 3]))
            m = P.M(ts, ty, topic, d, None, (), src, i)
        out.append(m)
    return out


def judge(ctx, what, exp, got, t0, t1, rep):
    """exp: model messages, got: {sink: [Msg]} of one sink or group"""
    want = collections.Counter(m.key() for m in exp)
    have = collections.Counter()
    nows = {k[1:] for k in want if k[0] is None}
    obs = {}
    for s, ms in got.items():
        obs[s] = []
        for g in ms:
            k = g.key_ts()
            if k not in want and k[1:] in nows and t0 <= k[0] <= t1:
                k = (None,) + k[1:]
            have[k] += 1
            obs[s].append(k)
    bad = False
    for k in want.keys() | have.keys():
        if want[k] != have[k]:
            bad = True
            sig = "lost" if have[k] == 0 else "surplus" if want[k] == 0 else "count"
            ctx.violation("pipe:" + sig, "%s\nmessage (ts, type, class, topic, data) %r\nexpected %d times, received %d times\n"
                          "other differences: %d expected but missing, %d unexpected" % (
                              what, k, want[k], have[k], sum((want - have).values()), sum((have - want).values())), rep)
            break
    if bad:
        return
    if len(got) > 1:
        return  # competing readers: no order among them is promised
    # order: j-th occurrence of equal keys of messages which took the same set of paths
    slots = collections.defaultdict(list)
    for m in exp:
        slots[m.key()].append(m)
    for s, ks in obs.items():
        seen = collections.Counter()
        last = {}
        for k in ks:
            ms = slots[k]
            if len({(m.src, m.seq, m.sub) for m in ms}) > 1:
                continue  # not distinguishable
            j = seen[k]
            seen[k] += 1
            m = ms[0]
            lab = (m.src, tuple(sorted(x.path for x in ms)), j)
            pos = (m.seq, order(m.sub))
            if lab in last and last[lab] > pos:
                ctx.violation("pipe:order", "%s\nat %s: message %r of %s came after number %r" % (what, s, k, m.src, last[lab]), rep)
                return
            last[lab] = pos
            ctx.stat("ordered")


def order(sub):
    d = []
    while sub:
        sub, r = divmod(sub, 64)
        d.insert(0, r)
    return tuple(d)


def key_ts(self):
    return (self.ts, self.ty, self.cl, self.topic, self.data)


E.Msg.key_ts = key_ts


def one(ctx, seed, variant, nmax, interrupt=False):
    rng = random.Random(seed)
    nodes = P.gen_graph(rng, rng.choice([3, 5, 8]))
    srcs = [n for n in nodes if n.kind in ("socket", "ip")]
    ports = {n.name: E.free_port() for n in srcs}
    cf = P.conf(rng, nodes, ports)
    base = 1700000000000000 + seed % 1000 * 1000000
    total = 1 << 30
    while True:
        bad = rng.choice([0, 0, 0.02, 0.2])  # array messages which can not be decoded
        sent = {n.name: rnd_msgs(rng, n.name, rng.randrange(1, nmax), base, bad) for n in srcs}
        for n in nodes:
            n.state = {}
        exp = P.model(nodes, sent)
        total = sum(map(len, exp.values()))
        if total <= 20 * nmax or nmax <= 4:
            break
        nmax //= 2
    what = "graph seed %d (%s): %s" % (seed, variant, ", ".join("%s:%s<-%s" % (n.name, n.kind, "+".join(s.name for s in n.senders)) for n in nodes))
    rep = "VF_PIPE=%d python3 -m vf.run C15" % seed
    d = E.Daemon(ctx, cf, variant)
    t0 = int(time.time() * 1e6) - 1000
    sinks = {n.name: E.Sink(d.path(n.name)) for n in nodes if n.kind == "vfsink"}
    try:
        conns = {n.name: d.connect(d.path(n.name + ".sock") if n.kind == "socket" else ("127.0.0.1", ports[n.name])) for n in srcs}
    except E.NotUp as ex:
        d.stop()
        ctx.violation("pipe:refused", what + "\nthe daemon did not start:\n%s\n%s" % (cf, ex), rep)
        return
    chunks = rng.random() < 0.5

    def feed(name):
        r = random.Random(seed * 31 + len(name))
        s = conns[name]
        buf = b"".join(m.wire() for m in sent[name])
        i = 0
        try:
            while i < len(buf):
                n = r.choice([1, 7, 100, 4096, 65536]) if chunks else 1 << 20
                s.sendall(buf[i:i + n])
                i += n
                if chunks and r.random() < 0.02:
                    time.sleep(0.002)
        except OSError:
            pass

    th = [threading.Thread(target=feed, args=(n,)) for n in conns]
    for t in th:
        t.start()
    if interrupt:
        time.sleep(rng.random() * 0.4)
    else:
        for t in th:
            t.join(60)
        tmo = time.time() + 40
        idle = time.time()
        cnt = -1
        while time.time() < tmo:
            c = sum(len(s.poll()) for s in sinks.values())
            if c != cnt:
                cnt, idle = c, time.time()
            if time.time() - idle > (0.5 if c >= total else 6):
                break
            time.sleep(0.02)
    t1 = int(time.time() * 1e6) + 1000
    log = d.stop()
    for t in th:
        t.join(5)
    for s in conns.values():
        s.close()
    got = collections.defaultdict(dict)
    for n in nodes:
        if n.kind == "vfsink":
            got[n.group or n.name][n.name] = sinks[n.name].poll()
    ctx.stat("undecodable_arrays", sum(m.bad > 0 for ms in sent.values() for m in ms))
    ctx.stat("messages_sent", sum(map(len, sent.values())))
    ctx.stat("deliveries", sum(len(m) for g in got.values() for m in g.values()))
    ctx.distinct(cf)
    for n in nodes:
        ctx.stat("instances_" + n.kind)
    if d.bad:
        return
    if interrupt:
        ctx.stat("interrupted")
        for g, gg in got.items():  # whatever arrived must be expected, and not more often
            want = collections.Counter(m.key()[1:] for m in exp[g])
            have = collections.Counter(x.key_ts()[1:] for ms in gg.values() for x in ms)
            for k, v in have.items():
                if v > want[k]:
                    ctx.violation("pipe:surplus", "%s (interrupted)\nmessage %r expected %d times, received %d times\n%s" % (what, k, want[k], v, cf), rep)
                    return
        return
    for g in set(exp) | set(got):
        judge(ctx, what + "\n" + cf + "\nsink " + g + "\nlog end:\n" + log[-1500:], exp.get(g, []), got.get(g, {}), t0, t1, rep)
        ctx.count()
        ctx.stat("sinks")


def check(ctx):
    import os
    ctx.rule = ("one evaluation = the contents of one sink compared with the model; distinct = distinct configurations")
    if os.environ.get("VF_PIPE"):
        one(ctx, int(os.environ["VF_PIPE"]), os.environ.get("VF_VARIANT", "asan"), 60)
        return
    ctx.build("asan", "rrr")
    ctx.build("tsan", "rrr")
    jobs = []
    for i in range(ctx.scale(90, 1100)):
        jobs.append((ctx.seed * 100000 + i, "asan", 60 if i % 5 and i % 4 != 3 else 300, i % 4 == 3))
    for i in range(ctx.scale(12, 120)):
        jobs.append((ctx.seed * 100000 + 50000 + i, "tsan", 60, i % 4 == 3))
    ctx.par(lambda j: one(ctx, *j), jobs, 8)
    ctx.require("ordered", 500)
    ctx.require("sinks", 40)
