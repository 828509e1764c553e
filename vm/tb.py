"""An independent reader of TensorBoard event logs, and processes that write them and die."""
import os
import random
import signal
import struct
import threading
import time

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0x82F63B78 if _c & 1 else 0)
    _T.append(_c)


def crc(b):
    c = 0xFFFFFFFF
    t = _T
    for x in b:
        c = t[(c ^ x) & 255] ^ (c >> 8)
    c ^= 0xFFFFFFFF
    return (((c >> 15) | (c << 17)) + 0xA282EAD8) & 0xFFFFFFFF


class Bad(Exception):
    pass


def records(blob, tail=False):
    """Payloads of a record file; tail: an incomplete last record is allowed."""
    out, p = [], 0
    while p < len(blob):
        if len(blob) - p < 12:
            if tail:
                return out
            raise Bad(f"truncated header at byte {p} of {len(blob)}")
        head = blob[p:p + 8]
        (n,) = struct.unpack("<Q", head)
        if struct.unpack("<I", blob[p + 8:p + 12])[0] != crc(head):
            raise Bad(f"bad length checksum at byte {p} of {len(blob)}, after {len(out)} records")
        if len(blob) - p < 16 + n:
            if tail:
                return out
            raise Bad(f"truncated record at byte {p} of {len(blob)}")
        body = blob[p + 12:p + 12 + n]
        if struct.unpack("<I", blob[p + 12 + n:p + 16 + n])[0] != crc(body):
            raise Bad(f"bad data checksum at byte {p} of {len(blob)}, after {len(out)} records")
        out.append(bytes(body))
        p += 16 + n
    return out


def _varint(b, p):
    v = s = 0
    while True:
        x = b[p]
        p += 1
        v |= (x & 127) << s
        s += 7
        if x < 128:
            return v, p


def fields(b):
    p = 0
    while p < len(b):
        key, p = _varint(b, p)
        kind = key & 7
        if kind == 0:
            v, p = _varint(b, p)
        elif kind == 1:
            v, p = b[p:p + 8], p + 8
        elif kind == 5:
            v, p = b[p:p + 4], p + 4
        elif kind == 2:
            n, p = _varint(b, p)
            v, p = b[p:p + n], p + n
        else:
            raise Bad(f"wire type {kind}")
        yield key >> 3, v


def scalars(blob, tail=False):
    """[(tag, step, float32 bytes)] in file order."""
    out = []
    for rec in records(blob, tail):
        step, vals = 0, []
        for f, v in fields(rec):
            if f == 2:
                step = v - (1 << 64) if v >> 63 else v
            elif f == 5:
                for g, w in fields(v):
                    if g == 1:
                        tag, val = "", struct.pack("<f", 0.0)
                        for h, x in fields(w):
                            if h == 1:
                                tag = bytes(x).decode()
                            elif h == 2:
                                val = bytes(x)
                        vals.append((tag, val))
        out += [(t, step, v) for t, v in vals]
    return out


def logs(d):
    return sorted((f for f in os.listdir(d) if "tfevents" in f), key=lambda f: os.path.getmtime(os.path.join(d, f)))


def read(d, tail=False):
    out = []
    for f in logs(d):
        with open(os.path.join(d, f), "rb") as h:
            out += scalars(h.read(), tail)
    return out


class Slow:
    """A file on a slow share: every operation may take a while."""

    def __init__(self, inner, seed, scale):
        self.inner, self.rng, self.scale, self.lock = inner, random.Random(seed), scale, threading.Lock()
        self.writes = self.flushes = 0

    def pause(self):
        with self.lock:
            d = self.rng.random()
        if d < 0.5:
            time.sleep(d * self.scale)

    def write(self, data):
        self.pause()
        with self.lock:
            self.writes += 1
            self.inner.write(data)
        self.pause()
        return len(data)

    def flush(self):
        self.pause()
        with self.lock:
            self.flushes += 1
            self.inner.flush()

    def close(self):
        self.inner.close()

    @property
    def closed(self):
        return self.inner.closed

    def __getattr__(self, k):
        return getattr(self.inner, k)


def doomed(d, seed, total):
    """Write, flush now and then, and die without closing; what was flushed is journalled first."""
    from utils.tb_writer import create_summary_writer
    rng = random.Random(seed)
    w = create_summary_writer(d)
    end = rng.randrange(1, total + 1)
    j = os.open(os.path.join(d, "journal"), os.O_CREAT | os.O_WRONLY | os.O_APPEND)
    for i in range(total):
        w.add_scalar(f"t{i % 3}", float(i), i)
        if rng.random() < 0.05:
            w.flush()
            os.write(j, b"%d\n" % (i + 1))
        if i == end:
            os.kill(os.getpid(), signal.SIGKILL)
    w.flush()
    os.write(j, b"%d\n" % total)
    os.kill(os.getpid(), signal.SIGKILL)
