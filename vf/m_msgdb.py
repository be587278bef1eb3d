"""Client of the message DB and its reference model."""
import select, socket, struct, time
import m_wire as W
import e2e as E

MSG, TAG, GET, PUT, DEL = 1, 2, 3, 4, 5
PING, PONG, ACK, NACK, IDX, TIDY = 1 << 2, 1 << 3, 1 << 4, 1 << 5, 1 << 14, 1 << 15


class Closed(Exception):
    pass


class Client:
    def __init__(self, sock):
        self.s, self.buf = sock, b""
        self.s.setblocking(False)
        self.out = b""

    def queue(self, b):
        self.out += b

    def pump(self, timeout):
        """write what can be written, read what has come; raises Closed at the end of the connection"""
        r, w, _ = select.select([self.s], [self.s] if self.out else [], [], timeout)
        try:
            if w:
                n = self.s.send(self.out[:200000])
                self.out = self.out[n:]
            if r:
                d = self.s.recv(1 << 20)
                if not d:
                    raise Closed()
                self.buf += d
        except (BlockingIOError, InterruptedError):
            pass
        except OSError:
            raise Closed()

    def next(self):
        """-> ('ack'|'nack'|'pong'|..., value) or ('msg', Msg) or None"""
        if len(self.buf) < 18:
            return None
        size, mtype = struct.unpack(">IH", self.buf[4:10])
        if len(self.buf) < size:
            return None
        b, self.buf = self.buf[:size], self.buf[size:]
        if W.decode(b) is None:
            return ("bad", b)
        if mtype & 1:
            for n, f in (("ack", ACK), ("nack", NACK), ("pong", PONG), ("ping", PING)):
                if mtype & f:
                    return (n, mtype)
            return ("ctrl", mtype)
        return ("msg", E.parse(b))

    def recv(self, timeout=30):
        t = time.time()
        while True:
            m = self.next()
            if m is not None:
                return m
            left = timeout - (time.time() - t)
            if left <= 0:
                return None
            self.pump(min(left, 0.2))

    def close(self):
        self.s.close()


def put(topic, data, ts, cl=1):
    return W.msg(PUT, cl, ts, topic, data)


def get(topic, ts=0):
    return W.msg(GET, 1, ts, topic, b"")


def delete(topic, ts=0):
    return W.msg(DEL, 1, ts, topic, b"")


def ctrl(flag, value=0):
    return W.head(b"", 1 | flag, value)
