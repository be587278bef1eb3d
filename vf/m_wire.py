"""Reference codec of RRR messages in network format."""
import struct, zlib

NONE = "-"
h = lambda b: b.hex() if b else "-"


def head(body, mtype, value=0, size=None, dcrc=None, hcrc=None):
    x = struct.pack(">IHII", (len(body) + 18 if size is None else size) & 0xffffffff, mtype, value,
                    (zlib.crc32(body) if body else 0) if dcrc is None else dcrc)
    return struct.pack(">I", zlib.crc32(x) if hcrc is None else hcrc) + x + body


def msg(ty, cl, ts, topic, data, ver=0, value=0, tl=None):
    return head(struct.pack(">QBBH", ts, cl << 4 | ty, ver, len(topic) if tl is None else tl) + topic + data, 2, value)


def log(file, line, lt, lo, flags, prefix, text):
    prefix, text = prefix[:65534] + b"\0", text[:65535] + b"\0"
    return head(file[:127].ljust(128, b"\0") + struct.pack(">IBBBH", line, 0, lt, lo, len(prefix)) + prefix + text, 16, flags)


def stats(ty, flags, ts, path, data, psize=None):
    p = path + b"\0"
    return head(struct.pack(">BIH", ty, flags, len(p) if psize is None else psize) + p + data, 6, ts)


def addr(proto, a):
    return head(bytes([proto]) + a, 8)


def valid_utf8(b):
    try:
        b.decode("utf8")
        return True
    except UnicodeDecodeError:
        return False


def decode(m):
    """complete message -> dump text or None when it must be rejected"""
    size, mtype, value, dcrc = struct.unpack(">IHII", m[4:18])
    body = m[18:]
    if zlib.crc32(body) != dcrc:
        return None
    if mtype & 1:
        if mtype & ~(1 | 4 | 8 | 16 | 32 | 0xf000):
            return None
        return "C:%d:%d" % (mtype, value)
    if mtype == 2:
        if len(body) < 12:
            return None
        ts, tc, ver, tl = struct.unpack(">QBBH", body[:12])
        if tl > len(body) - 12 or tc >> 4 not in (1, 11) or not 1 <= tc & 15 <= 5 or not valid_utf8(body[12:12 + tl]):
            return None
        return "M:%d:%d:%d:%d:%d:%s:%s" % (tc & 15, tc >> 4, ver, value, ts, h(body[12:12 + tl]), h(body[12 + tl:]))
    if mtype == 8:
        if not 1 <= len(body) <= 129:
            return None
        return "A:%d:%d:%s" % (len(body) - 1, body[0], h(body[1:]))
    if mtype == 16:
        if len(body) < 137:
            return None
        line, so, lt, lo, ps = struct.unpack(">IBBBH", body[128:137])
        rest = body[137:]
        if ps > len(rest) or (ps and rest[ps - 1]) or (body[-1]):
            return None
        return "L:%d:%d:%d:%d:%d:%s:%s:%s" % (value, line, so, lt, lo, h(body[:128].split(b"\0")[0]), h(rest[:ps]), h(rest[ps:]))
    if mtype == 6:
        if not 7 <= len(body) <= 7 + 1025:
            return None
        ty, flags, ps = struct.unpack(">BIH", body[:7])
        rest = body[7:]
        if flags & ~15 or ty > 3 or ps > len(rest) or ps > 513 or len(rest) - ps > 512 or (ps and rest[ps - 1]):
            return None
        return "T:%d:%d:%d:%s:%s" % (ty, flags, value, h(rest[:ps].split(b"\0")[0]), h(rest[ps:]))
    return None


def stream(b):
    """-> (dumps of messages delivered, True if the stream was rejected)"""
    pos, out = 0, []
    while len(b) - pos >= 18:
        hd = b[pos:pos + 18]
        if zlib.crc32(hd[4:]) != struct.unpack(">I", hd[:4])[0]:
            return out, True
        size = struct.unpack(">I", hd[4:8])[0]
        if size < 18:
            return out, True
        if size > len(b) - pos:
            return out, False
        d = decode(b[pos:pos + size])
        if d is None:
            return out, True
        out.append(d)
        pos += size
    return out, False
