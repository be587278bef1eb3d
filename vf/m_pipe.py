"""Random graphs of rrr instances: configuration text and reference model of what has to arrive at the sinks."""
import importlib.util, os, sys, struct
import m_array as A
import m_topic as T
import m_wire as W

HERE = os.path.dirname(os.path.abspath(__file__))


def _mod(name):
    spec = importlib.util.spec_from_file_location(name, os.path.join(HERE, "..", "checks", name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


C02, C07, C09 = _mod("c02_routes"), _mod("c07_array_msg"), _mod("c09_convert")


class M:
    """message inside the model; ts None = time of processing"""
    __slots__ = ("ts", "ty", "topic", "data", "els", "path", "src", "seq", "sub", "bad")

    def __init__(self, ts, ty, topic, data, els, path, src, seq, sub=0, bad=0):
        self.ts, self.ty, self.topic, self.data, self.els, self.path, self.src, self.seq, self.sub = ts, ty, topic, data, els, path, src, seq, sub
        self.bad = bad  # array message (this version) which can not be decoded, content in data

    def but(self, **k):
        n = M(self.ts, self.ty, self.topic, self.data, self.els, self.path, self.src, self.seq, self.sub, self.bad)
        for a, b in k.items():
            setattr(n, a, b)
        return n

    @property
    def cl(self):
        return 11 if self.els is not None or self.bad else 1

    def body(self):
        return C07.pack(self.els) if self.els is not None else self.data

    def wire(self):
        return W.msg(self.ty, self.cl, self.ts, self.topic, self.body(), ver=self.bad or (7 if self.els is not None else 0))

    def key(self):
        return (self.ts, self.ty, self.cl, self.topic, self.body())


TAGS = ["a", "ab", "axb", "b", "tag", "n1", "x"]


def rnd_els(rng, uniq):
    els = [A.El("str", 0, 1, rng.choice(TAGS + [None]), b"u%d" % uniq, 0)]
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        e = C09.rnd_value(rng)
        while e.ident == "msg" or e.ident == "vain" and rng.random() < 0.7:
            e = C09.rnd_value(rng)
        e.tag = rng.choice(TAGS + [None, None])
        els.insert(rng.randrange(len(els) + 1), e)
    return els


def rnd_bad(rng, uniq):
    """-> (version, data) of an array message which can not be decoded"""
    els = rnd_els(rng, uniq)
    d = C07.pack(els)
    k = rng.randrange(5)
    if k == 0:
        return 6, d
    if k == 1:
        return 7, d + b"\x01" * rng.randrange(1, 12)
    if k == 2:
        return 7, bytes([rng.choice([0, 100, 200])]) + d[1:]
    if k == 3:
        return 7, d[:4] + b"\xff\xff\xff" + d[7:]
    return 7, d + struct.pack(">BBHII", 5, 0, 0, 0, 1)  # empty blob


class Node:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.senders, self.readers, self.opt = [], [], {}
        self.dup = False
        self.route = None     # list of programs (operations)
        self.filter = None
        self.invert = False
        self.nobuf = False
        self.group = None     # sinks: competing readers
        self.state = {}

    def conf(self, rng):
        o = ["[%s]" % self.name, "module=%s" % self.kind]
        if self.senders:
            o.append("senders=" + ",".join(s.name for s in self.senders))
        if self.dup:
            o.append("duplicate=yes")
        if self.nobuf:
            o.append("buffer=no")
        if self.filter is not None:
            o.append("topic_filter=" + self.filter.decode())
            if self.invert:
                o.append("topic_filter_invert=yes")
        for k, v in self.opt.items():
            o.append("%s=%s" % (k, v))
        if self.route:
            o.append("route=" + ",".join("<R_%s_%d>" % (self.name, i) for i in range(len(self.route))))
        rng.shuffle(o[1:])
        return "\n".join(o) + "\n\n"

    def step(self, m, now_ok=True):
        """messages this node emits for one received message"""
        g = self.opt.get
        yes = lambda k: g(k) == "yes"
        if self.kind == "buffer":
            return [m]
        if self.kind == "mangler":
            if m.els is None and not m.bad:
                return [m] if yes("mangler_non_array_passthrough") else []
            top = g("mangler_topic", "").encode() or m.topic
            clear = g("mangler_clear_tags", "").split(",") if g("mangler_clear_tags") else []
            conv = g("mangler_conversions", "").split(",") if g("mangler_conversions") else []
            if not clear and not conv:
                return [m.but(topic=top)]
            if m.bad:
                return []
            fl = C09.TRY | (0 if yes("mangler_convert_tolerant_blobs") else C09.SB) | (0 if yes("mangler_convert_tolerant_strings") else C09.SS)
            els = []
            for e in m.els:
                if e.tag in clear:
                    continue
                r = C09.recipe(conv, e, fl) if conv else C09.NP
                els.append(e if r is C09.NP else r)
            return [m.but(topic=top, els=els, ts=None, ty=1)]
        if self.kind == "exploder":
            if m.bad:
                return []
            if m.els is None:
                return [m] if yes("exploder_non_array_passthrough") else []
            out = []
            for i, e in enumerate(m.els):
                t = (m.topic if yes("exploder_preserve_topic") else b"") + g("exploder_topic", "").encode()
                if yes("exploder_topic_append_tag") and e.tag:
                    t += e.tag.encode()
                out.append(m.but(els=[e], topic=t, ts=m.ts if yes("exploder_preserve_timestamp") else None, sub=m.sub * 64 + i + 1, ty=1))
            if yes("exploder_original_passthrough"):
                out.append(m.but(sub=m.sub * 64 + 63))
            return out
        if self.kind == "incrementer":
            if not m.topic or not T.match(g("incrementer_subject_topic_filter").encode(), m.topic):
                return [m]
            mod, pos = g("incrementer_id_modulus", 1), g("incrementer_id_position", 0)
            lo, hi, pre = g("incrementer_id_min", 1), g("incrementer_id_max", 0xffffffff), g("incrementer_id_prefix", 0)
            old = self.state.get(m.topic, 0)
            n = old - old % mod + mod + pos
            if n < lo or n > hi:
                n = lo - lo % mod + pos
                if n < lo:
                    n += mod
            self.state[m.topic] = n
            return [m.but(topic=m.topic + b"/%d" % (n | pre << hi.bit_length()))]
        raise AssertionError(self.kind)

    def targets(self, m):
        """readers which get an emitted message -> (list, competing)"""
        r = self.readers
        if self.route:
            acc = C02.run(self.route, "a" if m.els is not None or m.bad else "d", m.topic, {e.tag.encode() for e in m.els if e.tag} if m.els is not None else set())
            cur = []
            for a in acc[:-1] if acc else []:
                cur = [c for c in cur if c != a[1:]] + ([a[1:]] if a[0] == "+" else [])
            if cur:
                r = [x for x in r if x.name in cur]
        return r

    def accepts(self, m):
        if self.filter is None:
            return True
        ok = bool(m.topic) and T.match(self.filter, m.topic)
        return ok != self.invert


def gen_graph(rng, size):
    """-> list of nodes in topological order, sources first; sinks are vfsink"""
    src = [Node("s%d" % i, rng.choice(["socket", "socket", "ip"])) for i in range(rng.choice([1, 1, 2, 3]))]
    nodes = list(src)
    for i in range(rng.randrange(1, size)):
        k = rng.choice(["buffer", "buffer", "mangler", "mangler", "exploder", "incrementer"])
        n = Node("m%d" % i, k)
        cand = [x for x in nodes if x.group is None]
        multi = 1 if k == "incrementer" else rng.choice([1, 1, 1, 2, 3])
        for p in rng.sample(cand, min(multi, len(cand))):
            n.senders.append(p)
        if k == "incrementer" and paths(n) != 1:
            n.kind = k = "buffer"
        for p in n.senders:
            p.readers.append(n)
        nodes.append(n)
        opts(rng, n)
    k = 0
    for n in list(nodes):
        if not n.readers or rng.random() < 0.15:
            comp = not n.readers and rng.random() < 0.2
            for _ in range(rng.choice([2, 3]) if comp else 1):
                s = Node("o%d" % k, "vfsink")
                k += 1
                s.senders = [n]
                if comp:
                    s.group = n.name
                elif rng.random() < 0.2:
                    o = rng.choice([x for x in nodes if x.kind != "vfsink"])
                    if o is not n and not any(r.group for r in o.readers):
                        s.senders.append(o)
                        o.readers.append(s)
                n.readers.append(s)
                nodes.append(s)
    for n in nodes:
        if n.kind == "vfsink":
            n.opt["vfsink_file"] = "@DIR@/" + n.name
            if rng.random() < 0.15:
                n.opt["vfsink_delay_us"] = rng.choice([100, 1000])
        if len(n.readers) > 1 and not n.readers[0].group:
            n.dup = True
        elif len(n.readers) == 1 and rng.random() < 0.2:
            n.dup = True
        n.nobuf = rng.random() < 0.25 and n.kind != "vfsink"
        if n.senders and rng.random() < 0.25 and n.group is None:
            n.filter = rnd_filter(rng)
            n.invert = rng.random() < 0.4
        if n.readers and not n.readers[0].group and rng.random() < 0.4:
            old = C02.DESTS
            C02.DESTS = [r.name for r in n.readers]
            try:
                n.route = []
                for _ in range(rng.choice([1, 1, 2])):
                    while True:
                        ops, ok = C02.gen(rng, rnd_topic(rng, 5), False)
                        if ok and len(ops) < 40 and not any(a is not None and o == "T" and not a.isascii() for o, a in ops):
                            break
                    n.route.append(ops)
            finally:
                C02.DESTS = old
    return nodes


def paths(n):
    return 1 if not n.senders else sum(paths(p) for p in n.senders)


LV = [b"a", b"b", b"ab", b"x", b"p"]


def rnd_topic(rng, i):
    return b"/".join(rng.choice(LV) for _ in range(rng.choice([1, 2, 3]))) + (b"" if rng.random() < 0.5 else b"/%d" % (i % 7))


def rnd_filter(rng):
    f = [rng.choice(LV + [b"+", b"+"]) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.4:
        f[-1:] = [b"#"]
    return b"/".join(f)


def opts(rng, n):
    o, p = n.opt, rng.random
    if n.kind == "mangler":
        if p() < 0.3:
            o["mangler_topic"] = rng.choice(["new/topic", "a/b", "x"])
        if p() < 0.4:
            o["mangler_clear_tags"] = ",".join(rng.sample(TAGS, rng.choice([1, 2])))
        if p() < 0.7:
            o["mangler_conversions"] = ",".join(rng.choice(C09.METHODS[:8] + ["hchar2str"]) for _ in range(rng.choice([1, 2, 3])))
        for k in ("mangler_non_array_passthrough", "mangler_convert_tolerant_blobs", "mangler_convert_tolerant_strings"):
            if p() < 0.6:
                o[k] = rng.choice(["yes", "yes", "no"])
    elif n.kind == "exploder":
        for k in ("original_passthrough", "non_array_passthrough", "preserve_timestamp", "preserve_topic", "topic_append_tag"):
            if p() < 0.6:
                o["exploder_" + k] = rng.choice(["yes", "yes", "no"])
        if p() < 0.5:
            o["exploder_topic"] = rng.choice(["e", "e/", "/e/f"])
    elif n.kind == "incrementer":
        o["incrementer_subject_topic_filter"] = rnd_filter(rng).decode()
        if p() < 0.5:
            m = o["incrementer_id_modulus"] = rng.choice([1, 2, 3, 7, 255])
            o["incrementer_id_position"] = rng.randrange(m)
            if p() < 0.7:
                lo = o["incrementer_id_min"] = rng.choice([1, 2, 5, 100, (1 << 32) - 1000])
                o["incrementer_id_max"] = lo + m + rng.choice([0, 1, 5, 300, 700])
        if p() < 0.3:
            o["incrementer_id_prefix"] = rng.choice([1, 3, 0x7fffffff])


def conf(rng, nodes, ports):
    out = []
    for n in nodes:
        if n.kind == "socket":
            n.opt.update(socket_path="@DIR@/%s.sock" % n.name, socket_receive_rrr_message="yes")
        elif n.kind == "ip":
            n.opt.update(ip_tcp_port=ports[n.name], ip_input_types="msg", ip_extract_rrr_messages="yes", ip_receive_message_max=200000)
        out.append(n.conf(rng))
        for i, ops in enumerate(n.route or []):
            out.append("<R_%s_%d>\n%s\n" % (n.name, i, C02.text(rng, ops)[0].decode()))
    body = out
    # order of instances and definitions does not matter
    rng.shuffle(body)
    return "".join(body)


def model(nodes, sent):
    """sent: {source name: [M]} in order -> {sink or group: [M]} expected (order only meaningful along one path)"""
    inbox = {n.name: [] for n in nodes}
    exp = {}
    for n in nodes:
        if n.kind in ("socket", "ip"):
            emitted = [m.but(path=(n.name,)) for m in sent[n.name]]
        elif n.kind == "vfsink":
            got = [m for m in inbox[n.name] if n.accepts(m)]
            exp.setdefault(n.group or n.name, []).extend(got)
            continue
        else:
            emitted = []
            for m in inbox[n.name]:
                if n.accepts(m):
                    emitted += [x.but(path=m.path + (n.name,)) for x in n.step(m)]
        for m in emitted:
            t = n.targets(m)
            if t and t[0].group:
                t = t[:1]
            for r in t:
                inbox[r.name].append(m)
    return exp
