"""A command line process inside this process: argv, working directory, standard streams and exit are the simulator's.

The module runs under `runpy` as `__main__`, what happens at interpreter exit (traceback, flushing of the standard streams,
status 120 when that fails) is done here the way CPython does it. A process can be killed at a write: what it had buffered is
lost, what it had written stays.
"""
import errno
import io
import os
import runpy
import subprocess
import sys
import traceback

from . import disk


class Killed(BaseException):
    pass


class Pipe(io.RawIOBase):
    """The other end of a standard stream. cfg: {"fault": None|ENOSPC|EPIPE|EIO|EAGAIN|short|kill, "after": n, "chunk": k}"""

    def __init__(self, cfg, state):
        self.cfg = cfg or {}
        self.data = bytearray()
        self.state = state
        self.fired = False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.state.get("dead"):
            return len(b)
        k = self.cfg.get("fault")
        if k is None:
            self.data += b
            return len(b)
        if k == "short":
            self.fired = True
            b = b[: max(1, self.cfg.get("chunk", 7))]
            self.data += b
            return len(b)
        room = self.cfg.get("after", 0) - len(self.data)
        if room > 0:
            b = b[:room]
            self.data += b
            return len(b)
        self.fired = True
        if k == "kill":
            self.state["dead"] = True
            raise Killed()
        e = getattr(errno, k)
        raise OSError(e, os.strerror(e))


def stream(cfg, state, errors):
    p = Pipe(cfg, state)
    t = io.TextIOWrapper(io.BufferedWriter(p, 8192), encoding=(cfg or {}).get("enc", "utf-8"), errors=errors)
    return p, t


def run(module, argv, cwd, out_cfg=None, err_cfg=None, rules=(), root=None, out=None):
    """One process. Returns {"status", "stdout", "stderr", "killed", "fired", "ops"}."""
    state = {}
    po, so = stream(out_cfg, state, "strict")
    pe, se = stream(err_cfg, state, "backslashreplace")
    saved = (sys.argv, sys.stdout, sys.stderr, sys.modules.get("__main__"), os.getcwd())
    status, killed = 0, False
    sys.argv = [module] + list(argv)
    sys.stdout, sys.stderr = so, se
    os.chdir(cwd)
    try:
        with disk.Disk(root or cwd, rules, out, state=state) as d:
            try:
                runpy.run_module(module, run_name="__main__", alter_sys=True)
            except SystemExit as e:
                if e.code is None:
                    status = 0
                elif isinstance(e.code, int):
                    status = e.code & 0xFF
                else:
                    _say(se, f"{e.code}\n")
                    status = 1
            except Killed:
                killed = True
            except BaseException:
                _say(se, traceback.format_exc())
                status = 1
            if not killed:
                try:
                    so.flush()
                except Killed:
                    killed = True
                except BaseException as e:
                    status = 120
                    _say(se, f"Exception ignored while flushing: {type(e).__name__}: {e}\n")
            if not killed:
                try:
                    se.flush()
                except Killed:
                    killed = True
                except BaseException:
                    status = status  # CPython ignores what stderr could not take
    finally:
        state["dead"] = True
        sys.argv, sys.stdout, sys.stderr, main, back = saved
        if main is not None:
            sys.modules["__main__"] = main
        os.chdir(back)
        for t in (so, se):
            try:
                t.detach()
            except BaseException:
                pass
    fired = list(d.fired)
    for name, p in (("stdout", po), ("stderr", pe)):
        if p.fired:
            fired.append([name, "write", p.cfg["fault"]])
            if out is not None:
                out.fault(f"{name}-{p.cfg['fault']}")
    return {"status": None if killed else status, "killed": killed, "stdout": bytes(po.data), "stderr": bytes(pe.data), "fired": fired,
            "ops": d.ops}


def _say(se, text):
    try:
        se.write(text)
        se.flush()
    except Killed:
        raise
    except BaseException:
        pass


def run_real(module, argv, cwd, repo, out_cfg=None, out=None):
    """The same in a process of its own, with the operating system's faults."""
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, PYTHONUTF8="1")
    if (out_cfg or {}).get("enc"):
        env["PYTHONIOENCODING"] = out_cfg["enc"] + ":strict"
    fault = (out_cfg or {}).get("fault")
    fired = []
    if fault == "ENOSPC":
        so = open("/dev/full", "wb", buffering=0)
        fired.append(["stdout", "write", "real-ENOSPC"])
    elif fault == "EPIPE":
        r, w = os.pipe()
        os.close(r)
        so = os.fdopen(w, "wb", buffering=0)
        fired.append(["stdout", "write", "real-EPIPE"])
    else:
        so = subprocess.PIPE
    p = subprocess.run([sys.executable, "-B", "-m", module] + list(argv), cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=so,
                       stderr=subprocess.PIPE)
    if so is not subprocess.PIPE:
        so.close()
    for f in fired:
        if out is not None:
            out.fault(f"stdout-{f[2]}")
    return {"status": p.returncode & 0xFF, "killed": False, "stdout": p.stdout or b"", "stderr": p.stderr, "fired": fired, "ops": 0}
