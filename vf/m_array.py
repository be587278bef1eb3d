"""Reference model of array definitions, conditions and array values, written
from the documentation (rrr.conf(5), rrr_post(1)); plus random generators."""
import struct, zlib

OK, SOFT, INC = 0, 2, 4
M64 = (1 << 64) - 1
SEP = set(b"\n\r\t") | set(range(33, 48)) | set(range(58, 65)) | set(range(91, 97)) | set(range(123, 127)) | {0, 3, 4}
NSEP_END = set(b"\n\r\t\0\x03\x04")
STX = {1, 2}


class Undecided(Exception):
    """the documentation does not say what happens"""


class Fail(Exception):
    def __init__(self, rc, at=None, pos=0, elements=None):
        self.rc, self.at, self.pos, self.elements = rc, at, pos, elements


def s64(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


# ---------------------------------------------------------------- messages
def mkmsg(topic=b"", data=b"", ts=1, typ=1, cls=1, ver=7, value=0, mtype=2):
    """RRR message in network format"""
    body = struct.pack(">QBBH", ts, cls << 4 | typ, ver, len(topic)) + topic + data
    return mkhead(body, mtype, value)


def mkhead(body, mtype, value=0, size=None, dcrc=None, hcrc=None):
    head = struct.pack(">IHII", len(body) + 18 if size is None else size, mtype, value, (zlib.crc32(body) if body else 0) if dcrc is None else dcrc)
    return struct.pack(">I", zlib.crc32(head) if hcrc is None else hcrc) + head + body


# --------------------------------------------------------------- conditions
# node: ("num", value, text) ("neg", value) ("tag", name) ("~", x) (op, a, b)
PREC = {"*": 3, "/": 3, "+": 4, "-": 4, "<<": 5, ">>": 5, "<": 6, ">": 6, "<=": 6, ">=": 6, "==": 7, "!=": 7,
        "&": 8, "^": 9, "|": 10, "&&": 11, "||": 12, "AND": 11, "OR": 12}


class CondErr(Exception):
    pass


def cond_eval(n, env):
    """-> (value as u64, is_signed); both operands of && and || are evaluated"""
    k = n[0]
    if k == "num":
        return n[1] & M64, False
    if k == "neg":
        return n[1] & M64, True
    if k == "tag":
        r = env(n[1])
        if r is None:
            raise CondErr()
        return r
    if k == "~":
        v, s = cond_eval(n[1], env)
        return ~v & M64, s
    a, sa = cond_eval(n[1], env)
    b, sb = cond_eval(n[2], env)
    signed = sa or sb
    if signed:
        if (not sa and a >> 63) or (not sb and b >> 63):
            raise CondErr()
        a, b = s64(a), s64(b)
    if k == "/":
        if b == 0 or (signed and a == -(1 << 63) and b == -1):
            raise CondErr()
        r = abs(a) // abs(b)
        r = -r if (a < 0) != (b < 0) else r
    elif k == "<<":
        r = a << b if 0 <= b < 64 else 0
    elif k == ">>":
        r = a >> b if 0 <= b < 64 else 0
    else:
        r = {"*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b, "<": lambda: a < b, ">": lambda: a > b,
             "<=": lambda: a <= b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b,
             "&": lambda: a & b, "^": lambda: a ^ b, "|": lambda: a | b,
             "&&": lambda: bool(a and b), "AND": lambda: bool(a and b),
             "||": lambda: bool(a or b), "OR": lambda: bool(a or b)}[k]()
    return int(r) & M64, signed


def cond_text(n, rng, parent=99, right=False):
    k = n[0]
    sp = lambda: rng.choice(["", "", " ", " ", "\t", "\n "])
    if k == "num":
        return n[2]
    if k == "neg":
        return str(n[1])
    if k == "tag":
        return "{%s}" % n[1]
    if k == "~":
        t = "~" + sp() + cond_text(n[1], rng, 2, True)
        p = 2
    else:
        p = PREC[k]
        o = " %s " % k if k in ("AND", "OR") else sp() + k + sp()
        t = cond_text(n[1], rng, p, False) + o + cond_text(n[2], rng, p, True)
    if p > parent or (p == parent and right and k != "~") or rng.random() < 0.15:
        t = "(" + sp() + t + sp() + ")"
    return t


def cond_gen(rng, tags, depth=3):
    if depth == 0 or rng.random() < 0.15:
        r = rng.random()
        if tags and r < 0.5:
            return ("tag", rng.choice(tags))
        if r < 0.6:
            v = rng.choice([0, 1, 2, 3, 4, 5, 7, 63, 64, 255, 256, (1 << 63) - 1, 1 << 63, M64, rng.getrandbits(64), rng.getrandbits(16)])
            return ("num", v, rng.choice(["0x%x", "0x%X"]) % v)
        if r < 0.9:
            v = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 63, 64, 255, (1 << 63) - 1, 1 << 63, M64, rng.getrandbits(64), rng.getrandbits(8)])
            return ("num", v, str(v))
        v = -rng.choice([1, 2, 3, 5, 10, 255, 1 << 63, rng.getrandbits(62) + 1])
        return ("neg", v)
    if rng.random() < 0.08:
        x = cond_gen(rng, tags, depth - 1)
        return ("~", x)
    op = rng.choice(list(PREC))
    return (op, cond_gen(rng, tags, depth - 1), cond_gen(rng, tags, depth - 1))


# ----------------------------------------------------------------- elements
class El:
    __slots__ = ("ident", "flags", "count", "tag", "data", "used")

    def __init__(self, ident, flags, count, tag, data, used):
        self.ident, self.flags, self.count, self.tag, self.data, self.used = ident, flags, count, tag, data, used

    def dump(self):
        h = lambda b: b.hex() if b else "-"
        return "%s:%d:%d:%s:%s" % (self.ident, self.flags, self.count, h(self.tag.encode() if self.tag else b""), h(self.data))

    def to64(self):
        if self.ident == "h":
            return struct.unpack("<Q", self.data[:8])[0]
        if self.ident == "vain":
            return 0
        if self.ident == "hdlc":
            return 1
        return int.from_bytes(self.data[-8:], "big") if self.data else 0

    def export(self):
        if self.ident == "h":
            return b"".join(struct.pack(">Q", x[0]) for x in struct.iter_unpack("<Q", self.data))
        if self.ident == "fixp":
            return None
        if self.ident == "str":
            return b'"' + self.data.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'
        if self.ident == "hdlc":
            return b"\x7e" + b"".join(bytes([0x7d, c ^ 0x20]) if c in (0x7d, 0x7e) else bytes([c]) for c in self.data) + b"\x7e"
        return self.data


FIXED = {"be": 8, "le": 8, "h": 8, "blob": 1024, "sep": 64, "stx": 64}


def lookup(els, name):
    for e in reversed(els):
        if e.tag == name:
            return e
    return None


def parse_value(v, els, buf, pos):
    """v = dict(type,len,len_ref,sign,count,count_ref,tag) -> El"""
    t = v["type"]
    rest = len(buf) - pos

    def soft():
        raise Fail(SOFT, v, pos)

    def inc():
        raise Fail(INC, v, pos)
    length, count = v["len"], v["count"]
    for what in ("len", "count"):
        if v[what + "_ref"]:
            e = lookup(els, v[what + "_ref"])
            x = e.to64() if e else 0
            if not e or x > 0xffffffff or x == 0:
                soft()
            if what == "len":
                length = x
            else:
                count = x
    tag = v["tag"]
    if t in FIXED:
        if length > FIXED[t]:
            soft()
        total = length * count
        if (count * 8 if t in ("be", "le", "h") else total) > 0xffffffff:
            soft()
        if total > rest:
            inc()
        raw = buf[pos:pos + total]
        if t in ("be", "le", "h"):
            out = b""
            for i in range(count):
                out += struct.pack("<Q", int.from_bytes(raw[i * length:(i + 1) * length], "big" if t == "be" else "little", signed=v["sign"]) & M64)
            return El("h", 1 if v["sign"] else 0, count, tag, out, total)
        if t == "sep" and any(c not in SEP for c in raw):
            soft()
        if t == "stx" and any(c not in STX for c in raw):
            soft()
        return El(t, 0, count, tag, raw, total)
    if t in ("ustr", "istr"):
        p = pos
        while p < len(buf) and buf[p] in b" \t":
            p += 1
        q = p
        ok = b"0123456789+" + (b"-" if t == "istr" else b"")
        while q < len(buf) and buf[q] in ok:
            q += 1
            if q - p > 63:
                soft()
        if q >= len(buf):
            inc()
        s = buf[p:q]
        body = s[1:] if s[:1] in (b"+", b"-") else s
        if not body.isdigit():
            soft()
        x = int(s)  # out of range numbers become the nearest possible one
        x = max(-(1 << 63), min(x, (1 << 63) - 1)) if t == "istr" else min(x, M64)
        return El("h", 1 if t == "istr" else 0, 1, tag, struct.pack("<Q", x & M64), q - pos)
    if t == "fixp":
        p, base, neg = pos, 10, False
        if rest == 0:
            inc()
        if buf[p:p + 3] in (b"10#", b"16#"):
            base = int(buf[p:p + 2])
            p += 3
        if p >= len(buf):
            inc()
        if buf[p] in b"+-":
            neg = buf[p] == 45
            p += 1
        if p >= len(buf):
            inc()
        digs = b"0123456789" + (b"abcdefABCDEF" if base == 16 else b"")
        q, dots = p, 0
        while q < len(buf) and (buf[q] in digs or buf[q] == 46):
            if buf[q] == 46:
                if q == p:
                    soft()
                dots += 1
                if dots > 1:
                    soft()
            q += 1
        if q == p:
            soft()
        if q >= len(buf):
            inc()
        s = buf[p:q].decode()
        i, _, f = s.partition(".")
        frac = (int(f, base) << 24) // base ** len(f) if f else 0
        if int(i, base) >> 39:
            raise Undecided()
        val = (int(i, base) << 24 | frac)
        val = -val if neg else val
        return El("fixp", 0, 1, tag, struct.pack("<Q", val & M64), q - pos)
    if t == "str":
        if rest < 1:
            inc()
        if buf[pos] != 34:
            soft()
        p, out = pos + 1, bytearray()
        while True:
            if p >= len(buf):
                inc()
            c = buf[p]
            if c == 92:
                if p + 1 >= len(buf):
                    inc()
                out.append(buf[p + 1])
                p += 2
                continue
            if c == 34:
                return El("str", 0, 1, tag, bytes(out), p + 1 - pos)
            out.append(c)
            p += 1
    if t == "nsep":
        for p in range(pos, len(buf)):
            if buf[p] in NSEP_END:
                if p == pos:
                    soft()
                return El("nsep", 0, 1, tag, buf[pos:p], p - pos)
        inc()
    if t == "hdlc":
        p = buf.find(b"\x7e", pos)
        if p < 0:
            inc()
        out, esc = bytearray(), False
        p += 1
        while p < len(buf):
            c = buf[p]
            p += 1
            if esc:
                out.append(c ^ 0x20)
                esc = False
            elif c == 0x7d:
                esc = True
            elif c == 0x7e:
                if out:
                    return El("hdlc", 0, 1, tag, bytes(out), p - pos)
                continue
            else:
                out.append(c)
            if len(out) > 4095:
                soft()
        inc()
    if t == "msg":
        if rest < 30:
            inc()
        h = buf[pos:]
        if zlib.crc32(h[4:18]) != struct.unpack(">I", h[:4])[0]:
            soft()
        size = struct.unpack(">I", h[4:8])[0]
        if size < 30:
            soft()
        if size > rest:
            inc()
        m = h[:size]
        mtype = struct.unpack(">H", m[8:10])[0]
        if zlib.crc32(m[18:]) != struct.unpack(">I", m[14:18])[0] or mtype != 2:
            soft()
        tc, tl = m[26], struct.unpack(">H", m[28:30])[0]
        if tc >> 4 not in (1, 11) or not 1 <= (tc & 15) <= 5 or tl > size - 30:
            soft()
        try:
            m[30:30 + tl].decode("utf8")
        except UnicodeDecodeError:
            soft()
        return El("msg", 0, 1, tag, m, size)
    if t == "err":
        soft()
    if t == "vain":
        return El("vain", 0, 1, tag, b"", 0)
    raise AssertionError(t)


def parse_tree(tree, els, buf, pos):
    for n in tree:
        k = n[0]
        if k == "val":
            e = parse_value(n[1], els, buf, pos)
            els.append(e)
            pos += e.used
        elif k == "rewind":
            if n[1] > len(els):
                raise Fail(SOFT)
            for _ in range(n[1]):
                pos -= els.pop().used
        else:  # ("if", [(cond, tree)...], else_tree or None)
            def env(name):
                e = lookup(els, name)
                return (e.to64(), bool(e.flags & 1)) if e else None
            done = False
            for cond, sub in n[1]:
                try:
                    r = cond_eval(cond, env)[0]
                except CondErr:
                    raise Fail(SOFT)
                if r:
                    pos = parse_tree(sub, els, buf, pos)
                    done = True
                    break
            if not done and n[2] is not None:
                pos = parse_tree(n[2], els, buf, pos)
    return pos


def parse(tree, buf):
    """-> (rc, consumed, elements)"""
    els = []
    try:
        pos = parse_tree(tree, els, buf, 0)
        return OK, pos, els
    except Fail as f:
        return f.rc, 0, f


# --------------------------------------------------------------- generation
NAMES = ["a", "ab", "abc", "b", "x1", "_t", "T", "len", "length", "n_2"]


def gen_value(rng, tags, allow_dyn=True):
    t = rng.choice(["be", "le", "h", "blob", "sep", "stx", "ustr", "istr", "fixp", "str", "nsep", "msg", "hdlc", "vain", "be", "le", "blob"]
                   if allow_dyn else ["be", "le", "h"])
    v = dict(type=t, len=0, len_ref=None, sign=False, count=1, count_ref=None, tag=rng.choice(NAMES) if rng.random() < 0.7 else None)
    if t in FIXED:
        v["len"] = rng.randint(1, 8) if FIXED[t] == 8 else rng.choice([1, 2, 3, rng.randint(1, FIXED[t])]) if rng.random() < 0.9 else FIXED[t]
        if t in ("be", "le", "h"):
            v["sign"] = rng.random() < 0.35
        if tags and rng.random() < 0.2:
            v["len_ref"] = rng.choice(tags)
        if rng.random() < 0.25:
            v["count"] = rng.choice([1, 2, 3, 5, rng.randint(1, 40)])
            if tags and rng.random() < 0.4:
                v["count_ref"] = rng.choice(tags)
    return v


def gen_tree(rng, depth=2, tags=None, nmax=5):
    tags = [] if tags is None else tags
    out = []
    for _ in range(rng.randint(1, nmax)):
        r = rng.random()
        if r < 0.12 and depth:
            conds = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = cond_gen(rng, tags, rng.choice([0, 1, 1, 2]))
                conds.append((c, gen_tree(rng, depth - 1, list(tags), 3) if rng.random() < 0.9 else []))
            els = gen_tree(rng, depth - 1, list(tags), 2) if rng.random() < 0.5 else None
            if els is not None and rng.random() < 0.1:
                els = [("val", dict(type="err", len=0, len_ref=None, sign=False, count=1, count_ref=None, tag=None))]
            out.append(("if", conds, els))
        elif r < 0.2 and out:
            out.append(("rewind", rng.choice([1, 1, 2, 3])))
            out.append(("val", gen_value(rng, tags)))
        else:
            v = gen_value(rng, tags, allow_dyn=rng.random() < 0.8)
            out.append(("val", v))
            if v["tag"] and v["type"] not in ("fixp", "msg"):
                tags.append(v["tag"])
    return out


def value_text(v):
    t = v["type"]
    if t in FIXED:
        t += "{%s}" % v["len_ref"] if v["len_ref"] else str(v["len"])
        if v["sign"]:
            t += "s"
        elif v["type"] in ("be", "le", "h") and v.get("u"):
            t += "u"
        if v["count_ref"]:
            t += "@{%s}" % v["count_ref"]
        elif v["count"] > 1:
            t += "@%d" % v["count"]
    if v["tag"]:
        t += "#" + v["tag"]
    return t


def tree_text(tree, rng, top=True):
    ws = lambda: rng.choice(["", "", "", " ", "\n", "\t", " \n  "])
    s = ws()
    for n in tree:
        if n[0] == "val":
            s += value_text(n[1]) + ws() + "," + ws()
            if rng.random() < 0.05:
                s += "," + ws()
        elif n[0] == "rewind":
            s += "REWIND" + rng.choice(["", " "]) + str(n[1]) + rng.choice([" ", ",", "\n"])
        else:
            for i, (c, sub) in enumerate(n[1]):
                s += ("IF" if i == 0 else "ELSIF") + ws() + "(" + cond_text(c, rng) + ")" + ws() + tree_text(sub, rng, False) + ws()
            if n[2] is not None:
                s += "ELSE" + rng.choice([" ", "\n", ""]) + tree_text(n[2], rng, False) + ws()
            if rng.random() < 0.3:
                s += "," + ws()
    if rng.random() < 0.5 and s.rstrip().endswith(","):
        s = s.rstrip()[:-1]
    return s + ws() + ";"


def gen_bytes(rng, v, els):
    t = v["type"]
    if t in FIXED:
        length, count = v["len"], v["count"]
        if v["len_ref"]:
            e = lookup(els, v["len_ref"])
            length = e.to64() if e else 1
        if v["count_ref"]:
            e = lookup(els, v["count_ref"])
            count = e.to64() if e else 1
        n = length * count
        if n > 20000:
            return rng.randbytes(rng.randint(1, 50))
        if t == "sep":
            return bytes(rng.choice(sorted(SEP)) for _ in range(n))
        if t == "stx":
            return bytes(rng.choice([1, 2]) for _ in range(n))
        b = bytearray(rng.randbytes(n))
        if t in ("be", "le", "h") and rng.random() < 0.6:  # small numbers are useful as counts and lengths
            b = bytearray(n)
            for i in range(count):
                b[i * length + (length - 1 if t == "be" else 0)] = rng.choice([1, 2, 3, 4, 5, 8, 9, 20, 0xff, 0x80])
        return bytes(b)
    if t == "ustr":
        return (rng.choice(["", "", " ", "\t "]) + rng.choice(["", "", "+"]) + str(rng.choice([0, 1, 2, 3, 9, M64, rng.getrandbits(64), rng.getrandbits(10)])) + rng.choice([";", "x", " ", ",", "-"])).encode()
    if t == "istr":
        x = rng.choice([0, 1, 2, -1, -(1 << 63), (1 << 63) - 1, rng.getrandbits(63), -rng.getrandbits(63), rng.randint(-300, 300)])
        return (rng.choice(["", " "]) + ("+" if x >= 0 and rng.random() < 0.2 else "") + str(x) + rng.choice([";", "x", " ", ","])).encode()
    if t == "fixp":
        return gen_fixp(rng).encode() + rng.choice([b",", b" ", b"x", b"\n", b"-"])
    if t == "str":
        s = bytes(rng.choice(b'abc"\\\n\0\xff 1') if rng.random() < 0.7 else rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 30, 100])))
        return b'"' + s.replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'
    if t == "nsep":
        return bytes(rng.choice([x for x in range(5, 256) if x not in NSEP_END]) for _ in range(rng.choice([1, 2, 5, 40]))) + bytes([rng.choice(sorted(NSEP_END))])
    if t == "hdlc":
        d = bytes(rng.choice([0x7d, 0x7e, 0x5d, 0x5e, 0, 0xff, rng.randrange(256)]) for _ in range(rng.choice([1, 2, 5, 40, 500])))
        g = bytes(x for x in rng.randbytes(rng.choice([0, 0, 0, 3])) if x != 0x7e)
        return g + b"\x7e" * rng.choice([1, 1, 2]) + El("hdlc", 0, 1, None, d, 0).export()[1:]
    if t == "msg":
        return mkmsg(rng.choice([b"", b"t", b"a/b", "æ".encode()]), rng.randbytes(rng.choice([0, 1, 7, 60])), rng.getrandbits(63), rng.choice([1, 2, 3, 4, 5]))
    return b""


def gen_fixp(rng):
    """values whose conversion is exact: few fraction digits in base 16, dyadic fractions in base 10"""
    base16 = rng.random() < 0.4
    i = rng.choice([0, 1, 2, 10, 255, (1 << 39) - 1, rng.getrandbits(39), rng.getrandbits(8)])
    sign = rng.choice(["", "", "-", "+"])
    if base16:
        s = "%x" % i if rng.random() < 0.5 else "%X" % i
        if rng.random() < 0.7:
            s += "." + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randint(1, 6)))
        return "16#" + sign + s
    s = str(i)
    if rng.random() < 0.7:
        s += "." + rng.choice(["5", "25", "75", "125", "0", "5000", "03125"])
    return rng.choice(["", "10#"]) + sign + s


def gen_data(rng, tree, limit=4000):
    """data leading the parser as deep into the tree as possible"""
    buf = b""
    for _ in range(60):
        els = []
        try:
            parse_tree(tree, els, buf, 0)
            break
        except Undecided:
            break
        except Fail as f:
            if f.rc != INC or len(buf) > limit:
                break
            part = gen_bytes(rng, f.at, els)
            if not part:
                break
            buf = buf[:f.pos] + part if len(buf) <= f.pos else buf + part
    return buf
