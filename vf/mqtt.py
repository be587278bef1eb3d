"""Independent MQTT 3.1.1 / 5 codec and a test client (own implementation of the specification)."""
import socket, struct, time, select

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH = range(1, 16)
NAMES = "? CONNECT CONNACK PUBLISH PUBACK PUBREC PUBREL PUBCOMP SUBSCRIBE SUBACK UNSUBSCRIBE UNSUBACK PINGREQ PINGRESP DISCONNECT AUTH".split()

# property id -> kind
PROPS = {1: "b", 2: "I", 3: "s", 8: "s", 9: "d", 11: "v", 17: "I", 18: "s", 19: "H", 21: "s", 22: "d", 23: "b", 24: "I", 25: "b", 26: "s", 28: "s",
         31: "s", 33: "H", 34: "H", 35: "H", 36: "b", 37: "b", 38: "p", 39: "I", 40: "b", 41: "b", 42: "b"}


def vint(n):
    o = b""
    while True:
        o += bytes([n % 128 | (128 if n > 127 else 0)])
        n //= 128
        if not n:
            return o


def rvint(b, i):
    n, m = 0, 1
    for k in range(4):
        n += (b[i] & 127) * m
        m *= 128
        i += 1
        if b[i - 1] < 128:
            return n, i
    raise Malformed("variable integer")


class Malformed(Exception):
    pass


def by(s):
    return s.encode() if isinstance(s, str) else s


def st(s):
    s = by(s)
    return struct.pack(">H", len(s)) + s


def rst(b, i):
    n, = struct.unpack_from(">H", b, i)
    if i + 2 + n > len(b):
        raise Malformed("string beyond end")
    return b[i + 2:i + 2 + n], i + 2 + n


def props(ps):
    o = b""
    for k, v in ps:
        o += bytes([k])
        t = PROPS[k]
        if t == "p":
            o += st(v[0]) + st(v[1])
        elif t in "sd":
            o += st(v)
        elif t == "v":
            o += vint(v)
        else:
            o += struct.pack(">" + t.upper() if t != "b" else ">B", v)
    return vint(len(o)) + o


def rprops(b, i):
    n, i = rvint(b, i)
    e = i + n
    if e > len(b):
        raise Malformed("properties beyond end")
    out = []
    while i < e:
        k = b[i]
        i += 1
        t = PROPS.get(k)
        if t is None:
            raise Malformed("property %d" % k)
        if t == "p":
            x, i = rst(b, i)
            y, i = rst(b, i)
            v = (x, y)
        elif t in "sd":
            v, i = rst(b, i)
        elif t == "v":
            v, i = rvint(b, i)
        else:
            f = {"b": ">B", "H": ">H", "I": ">I"}[t]
            v, = struct.unpack_from(f, b, i)
            i += struct.calcsize(f)
        out.append((k, v))
    if i != e:
        raise Malformed("property length")
    return out, i


def frame(t, flags, body):
    return bytes([t << 4 | flags]) + vint(len(body)) + body


class Will:
    def __init__(self, topic, payload, qos=0, retain=0, props=()):
        self.topic, self.payload, self.qos, self.retain, self.props = topic, payload, qos, retain, list(props)


def connect(ver, cid, clean=1, ka=60, will=None, user=None, pw=None, ps=()):
    fl = clean << 1
    if will:
        fl |= 4 | will.qos << 3 | will.retain << 5
    if user is not None:
        fl |= 128
    if pw is not None:
        fl |= 64
    b = (st("MQIsdp") if ver == 3 else st("MQTT")) + bytes([ver, fl]) + struct.pack(">H", ka)
    if ver == 5:
        b += props(ps)
    b += st(cid)
    if will:
        if ver == 5:
            b += props(will.props)
        b += st(will.topic) + st(will.payload)
    if user is not None:
        b += st(user)
    if pw is not None:
        b += st(pw)
    return frame(CONNECT, 0, b)


def publish(ver, topic, payload, qos=0, retain=0, dup=0, pid=0, ps=()):
    b = st(topic)
    if qos:
        b += struct.pack(">H", pid)
    if ver == 5:
        b += props(ps)
    return frame(PUBLISH, dup << 3 | qos << 1 | retain, b + payload)


def ack(ver, t, pid, reason=0, ps=None):
    b = struct.pack(">H", pid)
    if ver == 5 and (reason or ps is not None):
        b += bytes([reason])
        if ps == "none":
            ps = None
        if ps is not None:
            b += props(ps)
    return frame(t, 2 if t == PUBREL else 0, b)


def subscribe(ver, pid, subs, ps=()):
    """subs: [(filter, options)]"""
    return frame(SUBSCRIBE, 2, struct.pack(">H", pid) + (props(ps) if ver == 5 else b"") + b"".join(st(f) + bytes([o]) for f, o in subs))


def unsubscribe(ver, pid, fs, ps=()):
    return frame(UNSUBSCRIBE, 2, struct.pack(">H", pid) + (props(ps) if ver == 5 else b"") + b"".join(st(f) for f in fs))


def disconnect(ver, reason=0, ps=()):
    return frame(DISCONNECT, 0, bytes([reason]) + props(ps) if ver == 5 and (reason or ps) else b"")


class Pkt:
    def __init__(self, **k):
        self.__dict__.update(k)
        self.at = time.time()

    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("t", "at")}
        return "%s%s" % (NAMES[self.t], {k: v if not isinstance(v, bytes) or len(v) < 40 else v[:40] for k, v in d.items()})


def decode(ver, b):
    """one packet sent by a server (or client) -> Pkt; strict"""
    t, fl = b[0] >> 4, b[0] & 15
    n, i = rvint(b, 1)
    b = b[i:i + n]
    try:
        if t != PUBLISH and fl != (2 if t in (PUBREL, SUBSCRIBE, UNSUBSCRIBE) else 0):
            raise Malformed("flags %d of %s" % (fl, NAMES[t]))
        if t == CONNACK:
            ps, e = rprops(b, 2) if ver == 5 else ([], 2)
            if e != len(b):
                raise Malformed("CONNACK length")
            if b[0] > 1:
                raise Malformed("CONNACK flags")
            return Pkt(t=t, present=b[0], reason=b[1], props=ps)
        if t == PUBLISH:
            topic, i = rst(b, 0)
            q = fl >> 1 & 3
            if q == 3:
                raise Malformed("QoS 3")
            pid = 0
            if q:
                pid, = struct.unpack_from(">H", b, i)
                i += 2
                if not pid:
                    raise Malformed("packet ID 0")
            elif fl & 8:
                raise Malformed("DUP with QoS 0")
            ps, i = rprops(b, i) if ver == 5 else ([], i)
            return Pkt(t=t, topic=topic, qos=q, retain=fl & 1, dup=fl >> 3, pid=pid, props=ps, payload=b[i:])
        if t in (PUBACK, PUBREC, PUBREL, PUBCOMP):
            pid, = struct.unpack_from(">H", b, 0)
            if ver != 5 and len(b) != 2:
                raise Malformed("ack length")
            r = b[2] if len(b) > 2 else 0
            ps = rprops(b, 3)[0] if len(b) > 3 else []
            return Pkt(t=t, pid=pid, reason=r, props=ps)
        if t in (SUBACK, UNSUBACK):
            pid, = struct.unpack_from(">H", b, 0)
            ps, i = rprops(b, 2) if ver == 5 else ([], 2)
            return Pkt(t=t, pid=pid, props=ps, codes=list(b[i:]))
        if t in (SUBSCRIBE, UNSUBSCRIBE):
            pid, = struct.unpack_from(">H", b, 0)
            ps, i = rprops(b, 2) if ver == 5 else ([], 2)
            subs = []
            while i < len(b):
                f, i = rst(b, i)
                if t == SUBSCRIBE:
                    subs.append((f, b[i]))
                    i += 1
                else:
                    subs.append(f)
            return Pkt(t=t, pid=pid, props=ps, subs=subs)
        if t in (PINGREQ, PINGRESP):
            if b:
                raise Malformed("ping length")
            return Pkt(t=t)
        if t == DISCONNECT:
            if ver != 5 and b:
                raise Malformed("DISCONNECT length")
            return Pkt(t=t, reason=b[0] if b else 0, props=rprops(b, 1)[0] if len(b) > 1 else [])
        if t == CONNECT:
            name, i = rst(b, 0)
            v, cf = b[i], b[i + 1]
            ka, = struct.unpack_from(">H", b, i + 2)
            i += 4
            ps, i = rprops(b, i) if v == 5 else ([], i)
            cid, i = rst(b, i)
            w = u = p = None
            if cf & 4:
                wp, i = rprops(b, i) if v == 5 else ([], i)
                wt, i = rst(b, i)
                wm, i = rst(b, i)
                w = Will(wt, wm, cf >> 3 & 3, cf >> 5 & 1, wp)
            if cf & 128:
                u, i = rst(b, i)
            if cf & 64:
                p, i = rst(b, i)
            if i != len(b):
                raise Malformed("CONNECT length")
            return Pkt(t=t, name=name, ver=v, clean=cf >> 1 & 1, ka=ka, props=ps, cid=cid, will=w, user=u, pw=p)
    except (struct.error, IndexError):
        raise Malformed("short %s %r" % (NAMES[t], b[:50]))
    raise Malformed("packet type %d" % t)


class Closed(Exception):
    pass


class Conn:
    """Raw connection: packets in, packets out. Used as client and (by tests of the client module) as server."""

    def __init__(self, sock, ver=4):
        self.s, self.ver, self.buf, self.open = sock, ver, b"", True
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.trace = []
        self.lastraw = b""

    def send(self, b):
        try:
            self.s.sendall(b)
        except OSError:
            self.open = False

    def pull(self, timeout):
        """reads what is there; -> packets"""
        out = []
        if self.open:
            r, _, _ = select.select([self.s], [], [], timeout)
            if r:
                try:
                    d = self.s.recv(1 << 16)
                except OSError:
                    d = b""
                if not d:
                    self.open = False
                self.buf += d
        while True:
            p = self.take()
            if p is None:
                return out
            out.append(p)

    def take(self):
        if len(self.buf) < 2:
            return None
        n = 0
        for k in range(4):
            if 1 + k >= len(self.buf):
                return None
            n |= (self.buf[1 + k] & 127) << 7 * k
            if self.buf[1 + k] < 128:
                break
        else:
            raise Malformed("length")
        e = 2 + k + n
        if len(self.buf) < e:
            return None
        raw, self.buf = self.buf[:e], self.buf[e:]
        self.lastraw = raw
        p = decode(self.ver, raw)
        p.size = len(raw)
        if p.t == CONNECT:
            self.ver = p.ver
        self.trace.append(p)
        return p

    def close(self):
        self.open = False
        try:
            self.s.close()
        except OSError:
            pass
