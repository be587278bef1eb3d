"""MQTT broker: every message reaches exactly the matching subscribers at the agreed quality of service."""
import os, random, socket, time
import m_mqtt as B
import mqtt as M
import e2e as E
TECHNIQUE = "runtime monitoring: the real broker observed by an online reference model (deliveries, handshakes, packet IDs, order, flow limits) over random histories of V3.1, V3.1.1 and V5 clients, under ASan/UBSan and TSan"
NOTE = ("Up to 5 clients per broker, some hundred operations; sequential histories with bursts in which many messages of several publishers are in flight. "
        "A message matching several subscriptions of one client is owed once per subscription, which is what this broker documents.")

LV = ["a", "b", "", "c d", "$x", "\u00e5"]


def topic(r):
    return "/".join(r.choice(LV) for _ in range(r.randint(1, 3))) or "a"


def filt(r, ver):
    lv = topic(r).split("/")
    lv = ["+" if r.random() < 0.3 else x for x in lv]
    if r.random() < 0.35:
        lv = lv[:r.randint(0, len(lv))] + ["#"]
    return "/".join(lv) or "#"


def burst(b, r, pubs):
    """several publishers at once, handshakes interleaved"""
    n = r.choice([3, 10, 40, 150])
    ts = [topic(r) for _ in range(2)]
    for i in range(n):
        c = r.choice(pubs)
        if len(c.out) > 80:
            b.pump(0)
            b.finish(c)
        b.post(c, r.choice(ts), b.payload(c, r.choice([0, 3, 100])), r.choice([0, 1, 1, 2]), 0, b.rprops(c) if r.random() < 0.1 else ())
        if r.random() < 0.1:
            b.pump(0)
            for c in pubs:
                for o in c.out.values():
                    if o.state == "rec":
                        o.state = "rel"
                        b.ack(c, M.PUBREL, o.pid)
    for c in pubs:
        b.finish(c)


def scenario(ctx, seed, variant, nops):
    r = random.Random(seed)
    b = B.Bench(ctx, seed, variant, retry=r.choice([1, 2, 60]))
    try:
        for i in range(r.randint(2, 5)):
            c = b.client("cl%d" % i)
            ver = r.choice([3, 4, 4, 5, 5, 5])
            b.connect(c, ver=ver, clean=True, lives=0, mode=r.choice(["now", "now", "hold", "half"]), ka=r.choice([0, 0, 60]),
                      rmax=r.choice([0, 0, 1, 2, 5, 20]), mps=r.choice([0, 0, 0, 60, 150, 1200]))
        cs = list(b.cl.values())
        for op in range(nops):
            c = r.choice(cs)
            x = r.random()
            if x < 0.25:
                b.settle()
                b.subscribe(c, [(filt(r, c.ver), B.opts(r, c.ver)) for _ in range(r.choice([1, 1, 1, 2, 4]))])
            elif x < 0.32 and c.subs:
                b.settle()
                fs = [f for f in c.subs if r.random() < 0.4] or [next(iter(c.subs))]
                if r.random() < 0.3:
                    fs.append(b"not/subscribed")
                b.unsubscribe(c, fs)
            elif x < 0.75:
                ret = int(r.random() < 0.25)
                t = topic(r)
                if b.retained and r.random() < 0.3:
                    t = r.choice(list(b.retained)).decode()
                    ret = 1
                pl = b"" if ret and r.random() < 0.3 else b.payload(c)
                b.publish(c, t, pl, r.choice([0, 1, 2]), ret, b.rprops(c))
            elif x < 0.85:
                burst(b, r, r.sample(cs, r.randint(1, len(cs))))
                ks = [k for k in cs if k.mode != "now" and any(y[1] in ("pub", "rel") for y in k.infl.values())]
                if b.retry_s <= 2 and ks and r.random() < 0.15:
                    b.retry(r.choice(ks))
            elif x < 0.9:
                c.mode = r.choice(["now", "hold", "half"])
            elif x < 0.93:
                # empty message through the system, no retain
                b.publish(c, topic(r), b"", r.choice([0, 1, 2]) if len([k for k in cs]) else 0)
                b.settle()
            else:
                b.settle(quiet=r.choice([0, 0.2]))
        b.settle(quiet=r.choice([0.3, 2.5]))
        ctx.stat("scenarios")
    except B.Stop:
        pass
    except E.NotUp as x:
        b.end()
        if not b.d.bad:
            raise
        return
    finally:
        b.end()


def slow(ctx, seed, variant):
    """Subscribers which stop reading while large messages are published to them, pinging the broker all the
    time, and later read slowly: what they get is an intact packet stream with all messages in order."""
    r = random.Random(seed)
    b = B.Bench(ctx, seed, variant, retry=60)
    b.what += " (slow readers)"
    try:
        subs = []
        for i in range(r.choice([1, 2, 3])):
            ver, q = r.choice([3, 4, 5]), r.choice([0, 1, 2])
            c = b.raw(ver)
            c.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, r.choice([40000, 65536, 300000]))
            c.send(M.connect(ver, "slow%d" % i, 1, 0))
            k, _ = b.wait1(c)
            c.send(M.subscribe(ver, 1, [("t/#", q)]))
            k, _ = b.wait1(c)
            if k is None or k.t != M.SUBACK or list(k.codes) != [q]:
                b.bad("suback", "SUBACK expected, received %s" % k)
            subs.append([c, q, [], 0, 0, i])
        p = b.raw(4)
        p.send(M.connect(4, "pub", 1, 0))
        b.wait1(p)
        sent = []
        for i in range(r.randint(2, 10)):
            n = r.choice([0, 10, 3000, 200000, 1000000, 3000000]) if sum(len(x) for x, _ in sent) < 6000000 else 50
            x = (b"%08d" % i) + r.randbytes(n)
            q = r.choice([0, 1, 1])
            p.send(M.publish(4, "t/%d" % i, x, q, 0, 0, i + 1))
            sent.append((x, q))
            b.log("PUBLISH %d size %d QoS %d" % (i, len(x), q))
            if q:
                k, _ = b.wait1(p, 60)
                if k is None or k.t != M.PUBACK or k.pid != i + 1:
                    b.bad("no-ack", "PUBLISH of %d bytes to slow readers was not acknowledged: %s" % (len(x), k))
            for s in subs:
                if r.random() < 0.5:
                    for _ in range(r.randint(1, 3)):
                        s[0].send(M.frame(M.PINGREQ, 0, b""))
                        s[3] += 1
                        time.sleep(r.choice([0, 0, 0.02]))
        end = time.time() + 60 * b.slow
        while time.time() < end:
            todo = False
            for s in subs:
                c, q, got, pings, pongs, i = s
                full = len(got) >= len(sent) and pongs >= pings
                if full and c.open:
                    continue
                todo = True
                try:
                    ps = c.pull(0.02)
                except M.Malformed as x:
                    b.bad("corrupt", "subscriber slow%d received a malformed packet: %s (after %d messages)" % (i, x, len(got)))
                if not c.open:
                    b.bad("closed", "the connection of subscriber slow%d was closed" % i)
                for k in ps:
                    if k.t == M.PINGRESP:
                        s[4] += 1
                    elif k.t == M.PUBLISH:
                        j = len(got)
                        if j >= len(sent) or k.payload != sent[j][0] or k.topic != b"t/%d" % j or k.qos != min(q, sent[j][1]):
                            b.bad("corrupt", "subscriber slow%d: message %d arrived as topic %r QoS %d payload %r (%d bytes)" % (i, j, k.topic, k.qos, k.payload[:12], len(k.payload)))
                        got.append(1)
                        if k.qos == 1:
                            c.send(M.ack(c.ver, M.PUBACK, k.pid))
                        ctx.count()
                        ctx.stat("slow_delivered")
                    else:
                        b.bad("unexpected", "subscriber slow%d received %s" % (i, k))
                if r.random() < 0.05:
                    c.send(M.frame(M.PINGREQ, 0, b""))
                    s[3] += 1
            if not todo:
                break
        for c, q, got, pings, pongs, i in subs:
            if len(got) < len(sent) or pongs != pings:
                b.bad("missing", "subscriber slow%d received %d of %d messages and %d of %d ping responses" % (i, len(got), len(sent), pongs, pings))
            ctx.distinct(("slow", q, c.ver, len(sent)))
        ctx.stat("slow_scenarios")
    except B.Stop:
        pass
    finally:
        b.end()


def check(ctx):
    ctx.rule = "every delivery owed by the model arrives once, nothing else arrives, all packets are well-formed and allowed in the protocol state"
    one = os.environ.get("VF_MQTT")
    n = ctx.scale(60, 260)
    nops = ctx.scale(60, 120)
    jobs = [(ctx.seed * 1000003 + i, "tsan" if i % 6 == 5 else "asan") for i in range(n)]
    if one:
        jobs = [(int(one), os.environ.get("VF_VARIANT", "asan"))]
    else:
        ctx.build("tsan", "rrr")
    ctx.build("asan", "rrr")
    ctx.par(lambda j: slow(ctx, j[0], j[1]) if j[0] % 10 == 7 else scenario(ctx, j[0], j[1], nops), jobs, workers=12)
    if not one:
        ctx.require("scenarios", n // 3)
        ctx.require("slow_delivered", 20)
        for s in ("delivered_qos0", "delivered_qos1", "delivered_qos2", "retained_expected", "properties_checked", "no_local", "too_large", "order_checked", "pubrec_error", "retries_checked"):
            ctx.require(s, 5)
