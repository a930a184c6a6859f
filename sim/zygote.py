"""A process forked before the history under observation begins; every reference call runs in its own child of it."""
import json
import os
import struct


class Zygote:
    """A process forked before the history starts; every reference call runs in its own child of it."""

    def __init__(self, fn):
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(b)
                os.close(c)
                rd = os.fdopen(a, "rb")
                while True:
                    h = rd.read(4)
                    if len(h) < 4:
                        os._exit(0)
                    msg = json.loads(rd.read(struct.unpack("<I", h)[0]))
                    r, w = os.pipe()
                    k = os.fork()
                    if k == 0:
                        os.close(r)
                        try:
                            v = ["ok", fn(msg)]
                        except BaseException as e:
                            v = ["harness", f"{type(e).__name__}: {e}"]
                        data = json.dumps(v).encode()
                        while data:
                            data = data[os.write(w, data[:65536]):]
                        os._exit(0)
                    os.close(w)
                    buf = b""
                    while True:
                        x = os.read(r, 1 << 20)
                        if not x:
                            break
                        buf += x
                    os.close(r)
                    os.waitpid(k, 0)
                    buf = buf or b'["harness", "the reference call died"]'
                    out = struct.pack("<I", len(buf)) + buf
                    while out:
                        out = out[os.write(d, out):]
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w = os.fdopen(b, "wb")
        self.r = os.fdopen(c, "rb")
        self.pid = pid

    def ask(self, msg):
        data = json.dumps(msg).encode()
        self.w.write(struct.pack("<I", len(data)) + data)
        self.w.flush()
        n = struct.unpack("<I", self.r.read(4))[0]
        v = json.loads(self.r.read(n))
        if v[0] != "ok":
            raise RuntimeError(v[1])
        return v[1]

    def close(self):
        self.w.close()
        self.r.close()
        os.waitpid(self.pid, 0)
