"""A disk whose behaviour the plan decides. Files live in a private scratch directory; every open, stat and read of a path
below it goes through here, and a fault is injected at the n-th such operation on a path."""
import builtins
import errno
import io
import os
import shutil
import tempfile

ERR = {"EIO": errno.EIO, "EACCES": errno.EACCES, "ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE, "ESTALE": errno.ESTALE,
       "ENOSPC": errno.ENOSPC, "ELOOP": errno.ELOOP, "EISDIR": errno.EISDIR, "EROFS": errno.EROFS,
       "EDQUOT": errno.EDQUOT, "EINTR": errno.EINTR}


def scratch(tag, name=None):
    """A new directory. With a name its path is always the same (unless it is in use), so that paths are part of the input."""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    if name is not None:
        for k in range(10):
            try:
                p = os.path.join(base, f"verif-{tag}-{name}-{k}")
                os.mkdir(p)
                return p
            except FileExistsError:
                pass
    return tempfile.mkdtemp(prefix=f"verif-{tag}-", dir=base)


class _Raw(io.FileIO):
    """A raw file that can read short, fail after some bytes or refuse writes."""

    sim = None

    def readinto(self, b):
        s = self.sim
        if s is None:
            return super().readinto(b)
        k = s.get("kind")
        left = s["after"] - s["n"]
        if k in ("EIO", "ESTALE", "EACCES", "EISDIR") and left <= 0:
            s["disk"].hit(s, "read")
            raise OSError(ERR[k], os.strerror(ERR[k]), self.name)
        want = len(b)
        if k == "truncate":
            if left <= 0:
                s["disk"].hit(s, "read")
                return 0
            want = min(want, left)
        elif k == "short":
            s["disk"].hit(s, "read")
            want = min(want, s.get("chunk", 7))
        elif k in ERR:
            want = min(want, max(left, 1))
        data = super().read(want) or b""
        if k == "garble" and s["n"] <= s["after"] < s["n"] + len(data):
            i = s["after"] - s["n"]
            data = data[:i] + bytes([s.get("byte", 0xFF)]) + data[i + 1:]
            s["disk"].hit(s, "read")
        b[: len(data)] = data
        s["n"] += len(data)
        return len(data)

    def readall(self):
        if self.sim is None:
            return super().readall()
        out = bytearray()
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return bytes(out)
            out += buf[:n]

    def write(self, data):
        s = self.sim
        if s is not None and s["disk"].state.get("dead"):
            return len(data)  # buffers of a process that is no more
        if s is None or s.get("kind") not in ("ENOSPC", "EIO", "EDQUOT", "shortwrite", "kill"):
            return super().write(data)
        k = s["kind"]
        data = bytes(data)
        if k == "shortwrite":
            s["disk"].hit(s, "write")
            return super().write(data[: max(1, s.get("chunk", 5))])
        room = s["after"] - s["n"]
        if room <= 0:
            s["disk"].hit(s, "write")
            if k == "kill":
                s["disk"].kill()
            raise OSError(ERR[k], os.strerror(ERR[k]), self.name)
        n = super().write(data[:room])
        s["n"] += n
        return n


class Disk:
    """Context manager. rules: [{path, op: open|stat|read|write, nth, kind, ...}] with paths relative to root."""

    def __init__(self, root, rules, out=None, state=None):
        self.root = os.path.realpath(root)
        self.state = state if state is not None else {}
        self.rules = [dict(r, disk=self, n=0) for r in rules]
        self.count = {}
        self.out = out
        self.fired = []
        self.opened = []
        self.ops = 0

    def rel(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        if p == self.root:
            return "."
        if p.startswith(self.root + "/"):
            return p[len(self.root) + 1:]
        return None

    def hit(self, rule, op):
        if not rule.get("_hit"):
            rule["_hit"] = True
            self.fired.append([rule["path"], rule["op"], rule["kind"]])
            if self.out is not None:
                self.out.fault(f"disk-{op}-{rule['kind']}")

    def kill(self):
        from .proc import Killed

        self.state["dead"] = True
        raise Killed()

    def due(self, op, rel):
        k = (op, rel)
        self.count[k] = self.count.get(k, 0) + 1
        self.ops += 1
        for r in self.rules:
            if r["op"] == op and r["path"] == rel and (r.get("nth", 1) == self.count[k] or (r.get("sticky") and self.count[k] >= r.get("nth", 1))):
                return r
        return None

    def _apply(self, r, op):
        """Faults that happen to the directory tree before the operation, or instead of it."""
        p = os.path.join(self.root, r["path"])
        k = r["kind"]
        if k == "kill":
            self.hit(r, op)
            self.kill()
        if k in ERR:
            self.hit(r, op)
            raise OSError(ERR[k], os.strerror(ERR[k]), p)
        if k == "vanish":
            self.hit(r, op)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                try:
                    self.o_unlink(p)
                except FileNotFoundError:
                    pass
        elif k == "become-dir":
            self.hit(r, op)
            if os.path.isfile(p):
                self.o_unlink(p)
                os.mkdir(p)
        elif k == "replace":
            self.hit(r, op)
            if os.path.isfile(p):
                with self.o_open(p, "wb") as fh:
                    fh.write(r["with"].encode("utf-8", "surrogateescape"))

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = None if isinstance(file, int) else self.rel(file)
        if rel is None or opener is not None:
            return self.o_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opened.append([rel, mode])
        r = self.due("open", rel)
        if r is not None:
            self._apply(r, "open")
        rd = self.due("write" if any(c in mode for c in "wax+") else "read", rel)
        if rd is None and self.state is not None and any(c in mode for c in "wax+"):
            rd = {"disk": self, "kind": "none", "n": 0}
        if rd is None:
            return self.o_open(file, mode, buffering, encoding, errors, newline)
        raw = _Raw(file, mode.replace("b", "").replace("t", ""))
        raw.sim = rd
        if "w" in mode or "a" in mode or "x" in mode:
            buf = io.BufferedWriter(raw, rd.get("buffer", 64))
        else:
            buf = io.BufferedReader(raw, rd.get("buffer", 64))
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding, errors, newline)

    def stat(self, path, *a, **kw):
        rel = None if isinstance(path, int) else self.rel(path)
        if rel is not None:
            r = self.due("stat", rel)
            if r is not None:
                self._apply(r, "stat")
        return self.o_stat(path, *a, **kw)

    def os_open(self, path, flags, *a, **kw):
        rel = self.rel(path)
        if rel is not None:
            r = self.due("open", rel)
            if r is not None:
                self._apply(r, "open")
        return self.o_osopen(path, flags, *a, **kw)

    def __enter__(self):
        self.o_open, self.o_stat, self.o_osopen, self.o_unlink = builtins.open, os.stat, os.open, os.unlink
        self.o_ioopen = io.open
        builtins.open = io.open = self.open
        os.stat = self.stat
        os.open = self.os_open
        return self

    def __exit__(self, *a):
        builtins.open = self.o_open
        io.open = self.o_ioopen
        os.stat = self.o_stat
        os.open = self.o_osopen


def write_tree(root, files):
    """files: {relpath: str | None (directory) | {"hex": ..}}"""
    for rel, text in files.items():
        p = os.path.join(root, rel)
        if text is None:
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(text, dict):
            data = bytes.fromhex(text["hex"])
        else:
            try:
                data = text.encode("utf-8", "surrogateescape")
            except UnicodeEncodeError:
                data = text.encode("utf-8", "surrogatepass")
        with open(p, "wb") as fh:
            fh.write(data)
