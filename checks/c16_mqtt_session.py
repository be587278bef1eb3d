"""MQTT broker: sessions outlive connections exactly as agreed, wills are published exactly when due."""
import os, random, time
import m_mqtt as B
import mqtt as M
import e2e as E
TECHNIQUE = "runtime monitoring: the real broker observed by an online reference model of sessions, queues, handshakes and wills over random histories with disconnects of all kinds, reconnects, takeovers and interrupted transfers, under ASan/UBSan and TSan"
NOTE = "Up to 5 clients per broker; session lifetimes, will delays and message lifetimes of a few seconds, judged with tolerances of one to some seconds."
TOPICS = ["s/a", "s/b", "s/c/d", "t"]
FILT = ["s/a", "s/+", "#", "s/#", "t", "+/b", "s/c/d"]


def will(b, r, c):
    if r.random() < 0.45:
        return None
    ps = []
    if c.ver == 5:
        if r.random() < 0.6:
            ps.append((24, r.choice([0, 1, 2, 4, 1000])))
        if r.random() < 0.2:
            ps.append((2, r.choice([30, 1000])))
        if r.random() < 0.3:
            ps.append((38, ("why", "will")))
        if r.random() < 0.3:
            ps.append((3, "text/will"))
        if r.random() < 0.3:
            ps.append((9, r.randbytes(3)))
        if r.random() < 0.3:
            ps.append((8, "re/will"))
    pl = b"" if r.random() < 0.1 else b.payload(c, r.choice([0, 10, 300]))
    return M.Will(r.choice(TOPICS + ["w/" + c.cid]), pl, r.choice([0, 1, 2]), int(r.random() < 0.2 and not any(k == 24 and v for k, v in ps)), ps)


def connect(b, r, c, resume=False):
    if not c.conn and (not c.off_at or r.random() < 0.1):
        c.ver = r.choice([3, 4, 4, 5, 5, 5])
    kw = dict(clean=r.random() < 0.25, lives=r.choice([0, 3, 4, 6, 3000, B.INF, B.INF]), mode=r.choice(["now", "now", "hold", "half"]),
              rmax=r.choice([0, 0, 0, 3]), ka=r.choice([0, 0, 60]))
    kw["will"] = will(b, r, c)
    (b.resume if resume else b.connect)(c, **kw)


def publish(b, r, c):
    ps = list(b.rprops(c, False))
    if c.ver == 5 and r.random() < 0.25:
        ps.append((2, r.choice([2, 3, 5, 1000])))
    b.publish(c, r.choice(TOPICS), b.payload(c, r.choice([0, 10, 200])), r.choice([0, 1, 1, 2, 2]), int(r.random() < 0.1), ps)


def interrupted(b, r, c):
    """the connection breaks while messages of the client are in transfer; they are repeated afterwards"""
    b.settle()
    for i in range(r.choice([1, 2, 5, 20])):
        b.post(c, r.choice(TOPICS), b.payload(c, r.choice([0, 10])), r.choice([1, 2, 2]))
        if r.random() < 0.5:
            b.pump(0)
            for o in list(c.out.values()):
                # QoS2 messages are published in the order of PUBREL
                if o.state == "pub" and o.qos == 2 or r.random() < 0.2:
                    break
                if o.state == "rec":
                    o.state = "rel"
                    b.ack(c, M.PUBREL, o.pid)
    if r.random() < 0.5:
        t = time.time() + r.choice([0.01, 0.1])
        while time.time() < t:
            b.pump(0.01)
    b.drop(c, "abrupt")
    time.sleep(r.choice([0, 0, 0.3]))
    b.resume(c, ver=c.ver, clean=False, lives=B.INF, mode=r.choice(["now", "hold"]))
    b.settle()
    b.ctx.stat("interrupted_transfers")


def scenario(ctx, seed, variant, nops):
    r = random.Random(seed)
    b = B.Bench(ctx, seed, variant, retry=r.choice([1, 60, 60]))
    try:
        for i in range(r.randint(3, 5)):
            connect(b, r, b.client("s%d" % i))
        obs = b.client("obs")
        b.connect(obs, ver=r.choice([4, 5]), clean=True)
        b.subscribe(obs, [("#", 2)])
        cs = [c for c in b.cl.values() if c is not obs]
        end = time.time() + (60 if ctx.tier == "thorough" else 30)
        for op in range(nops):
            if time.time() > end:
                break
            c = r.choice(cs)
            x = r.random()
            if not c.conn:
                if x < 0.35:
                    connect(b, r, c)
                else:
                    publish(b, r, r.choice([k for k in cs if k.conn] + [obs]))
            elif x < 0.2:
                b.settle()
                b.subscribe(c, [(r.choice(FILT), B.opts(r, c.ver) & 15) for _ in range(r.choice([1, 2]))])
            elif x < 0.24 and c.subs:
                b.settle()
                b.unsubscribe(c, [next(iter(c.subs))])
            elif x < 0.6:
                publish(b, r, c)
            elif x < 0.66:
                # something in flight to the client when the connection goes
                c.mode = r.choice(["hold", "half", "now"])
                for _ in range(r.choice([1, 3, 10])):
                    publish(b, r, obs)
            elif x < 0.82:
                if r.random() < 0.5:
                    b.settle()
                how = r.choice(["abrupt", "abrupt", "normal", "will" if c.ver == 5 else "normal"])
                lv = r.choice([None, None, 0, 3, B.INF]) if c.ver == 5 and how != "abrupt" and c.lives else None
                b.drop(c, how, lv)
            elif x < 0.88:
                connect(b, r, c)
            elif x < 0.93 and c.lives == B.INF:
                interrupted(b, r, c)
            else:
                b.settle(quiet=r.choice([0, 0.2, 1, 2.5]))
        for c in cs:
            if not c.conn and r.random() < 0.8:
                connect(b, r, c)
        b.settle(quiet=1)
        if r.random() < ctx.scale(0.3, 0.5):
            # keep alive
            c = r.choice(cs)
            if c.conn:
                b.drop(c, "normal")
            c.ver = r.choice([4, 5])
            b.connect(c, clean=r.random() < 0.5, lives=r.choice([0, B.INF]), ka=r.choice([1, 2, 3]), will=will(b, r, c))
            b.drop(c, "silent")
            b.settle(quiet=0.5)
        ctx.stat("scenarios")
    except B.Stop:
        pass
    except E.NotUp as x:
        b.end()
        if not b.d.bad:
            raise
        return
    finally:
        b.end()


def check(ctx):
    ctx.rule = "session present, queued messages, handshakes continued, and wills are what the model of sessions says, nothing more and nothing less"
    one = os.environ.get("VF_MQTT")
    n = ctx.scale(70, 300)
    nops = ctx.scale(70, 150)
    jobs = [(ctx.seed * 1000003 + 500000 + i, "tsan" if i % 6 == 5 else "asan") for i in range(n)]
    if one:
        jobs = [(int(one), os.environ.get("VF_VARIANT", "asan"))]
    else:
        ctx.build("tsan", "rrr")
    ctx.build("asan", "rrr")
    ctx.par(lambda j: scenario(ctx, j[0], j[1], nops), jobs, workers=16)
    if not one:
        ctx.require("scenarios", n // 3)
        for s in ("sessions_resumed", "sessions_new", "takeovers", "wills_expected", "wills_cancelled", "interrupted_transfers", "publish_repeated", "redelivered", "keep_alive_timeouts"):
            ctx.require(s, 3)
