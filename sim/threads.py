"""Simulated threads. Real threads run the real calls, but only one of them is ever awake: at every line (or bytecode
instruction) of the code under test the simulator may park the running thread and wake another one. Which one, and when,
is decided by a seeded policy, so a schedule is data and can be replayed, listed and shortened.
"""
import _thread
import dis
import gc
import linecache
import os
import random
import sys
import threading
import types

from . import simlock

mon = sys.monitoring
TOOL = 3
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class Killed(BaseException):
    """Ends a parked thread when the run is over."""


def key_of(code):
    return f"{code.co_filename}:{code.co_firstlineno}:{code.co_name}"


class Scope:
    """Which code is interleaved: 'pkg' the package without the generated parser, 'all' also the parser and its runtime."""

    def __init__(self, kind):
        self.kind = kind
        self.known = {}  # by id: hashing a code object hashes all of its bytecode
        self.codes = []
        import antlr4

        self.antlr = os.path.dirname(os.path.realpath(antlr4.__file__)) + os.sep
        self.repo = os.path.join(REPO, "explorerscript") + os.sep

    def __call__(self, code):
        k = self.known.get(id(code))
        if k is None:
            self.codes.append(code)
            fn = os.path.realpath(code.co_filename)
            k = False
            if code.co_name != "<module>":
                if fn.startswith(self.repo):
                    k = self.kind == "all" or (os.sep + "antlr" + os.sep) not in fn
                elif fn.startswith(self.antlr):
                    k = self.kind == "all"
            self.known[id(code)] = k
        return k


def start_events(line, instr=None):
    mon.use_tool_id(TOOL, "verif")
    mon.register_callback(TOOL, mon.events.LINE, line)
    if instr is not None:
        mon.register_callback(TOOL, mon.events.INSTRUCTION, instr)
    mon.set_events(TOOL, mon.events.LINE)


def stop_events():
    mon.set_events(TOOL, 0)
    mon.register_callback(TOOL, mon.events.LINE, None)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
    mon.free_tool_id(TOOL)


def count(call, scope):
    """Run call(); returns (its result, {function: line events})."""
    seen = {}

    def line(code, _):
        if not scope(code):
            return mon.DISABLE
        seen[id(code)] = seen.get(id(code), 0) + 1

    start_events(line)
    try:
        r = call()
    finally:
        stop_events()
    out = {}
    for c in scope.codes:
        n = seen.get(id(c))
        if n is None:
            continue
        out[key_of(c)] = out.get(key_of(c), 0) + n
    return r, out


PROCESS_STATE = {"chdir", "getcwd", "environ", "putenv", "getenv", "umask", "setlocale", "setrecursionlimit", "setswitchinterval", "modules", "stdout",
                 "seed", "filterwarnings", "simplefilter", "catch_warnings", "settrace", "setattr", "globals"}
_assigned = None


def assigned_globals():
    """Names of globals that functions of the package assign."""
    global _assigned
    if _assigned is None:
        _assigned = set()
        store = dis.opmap["STORE_GLOBAL"]
        for n, m in list(sys.modules.items()):
            if not n.startswith("explorerscript") or m is None:
                continue
            for k, v in list(vars(m).items()):
                for f in [v] + (list(vars(v).values()) if isinstance(v, type) and v.__module__ == n else []):
                    c = getattr(getattr(f, "__func__", f), "__code__", None)
                    if isinstance(c, types.CodeType):
                        _assigned.update(c.co_names[a] for o, a in zip(c.co_code[::2], c.co_code[1::2]) if o == store)
    return _assigned


def shared_names():
    """Names under which the package keeps state that outlives a call: mutable module globals and class attributes, locks,
    globals that functions assign, and what a process has only one of."""
    names = set(assigned_globals()) | PROCESS_STATE
    for n, m in list(sys.modules.items()):
        if not (n.startswith("explorerscript") or n.startswith("antlr4")) or m is None:
            continue
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (dict, list, set, simlock.SimLock)) or (type(v).__module__ or "").startswith(("explorerscript", "antlr4")):
                names.add(k)
            if isinstance(v, type) and (v.__module__ or "").startswith(("explorerscript", "antlr4")):
                for a, x in list(vars(v).items()):
                    if not a.startswith("__") and (isinstance(x, (dict, list, set, simlock.SimLock)) or (type(x).__module__ or "").startswith(("explorerscript", "antlr4"))):
                        names.add(a)
    return names


def fingerprint():
    """What is bound to the names in which state may outlive a call: {(module, class, name): value's identity and size}."""
    out = {}
    for n, m in list(sys.modules.items()):
        if not n.startswith("explorerscript") or m is None:
            continue
        for k, v in list(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, type) and v.__module__ == n:
                for a, x in list(vars(v).items()):
                    if not a.startswith("__") and not callable(x):
                        out[n, k, a] = id(x), len(x) if isinstance(x, (dict, list, set)) else 0
            elif not callable(v):
                out[n, "", k] = id(v), len(v) if isinstance(v, (dict, list, set)) else 0
    return out


class Sched:
    """cfg: strategy random|pct|hot|lock|list, q (mean quantum), p, points, hot (list of function keys), fine, prio, trace"""

    def __init__(self, n, cfg, seed, scope, limit):
        self.n_threads = n
        self.cfg = cfg
        self.r = random.Random(seed)
        self.scope = scope
        self.limit = limit
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.state = ["ready"] * n  # ready | blocked | done
        self.waits = [None] * n
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.cur = None
        self.n = 0
        self.trace = []
        self.in_call = [False] * n
        self.ident = {}
        self.dead = None
        self.switches = 0
        self.preempts = 0
        self.places = set()
        self.blocked = 0
        self.gcs = 0
        self.aborts = [None] * n
        self.aborted = [None] * n
        self.hot = set(cfg.get("hot") or ())
        self.hotcode = {}
        self.strategy = cfg["strategy"]
        self.order = {}
        if self.strategy == "pct":
            self.prio = list(range(n))
            self.r.shuffle(self.prio)
            self.points = sorted(cfg["points"])
            self.low = -1
        self.held = [None] * n  # meet: the function in which a thread waits for another one to come by
        self.meetings = {}
        self.mixing = None
        self.met = 0
        if self.strategy == "list":
            for at, to in cfg["trace"]:
                self.order.setdefault(at, []).append(to)
        self.next = self.draw()

    # ------------------------------------------------------------------------------------ policy
    def draw(self):
        s = self.strategy
        if s == "random" or (s == "hot" and self.cfg.get("q")):
            return self.n + 1 + int(self.r.expovariate(1.0 / self.cfg["q"]))
        if s == "pct":
            return next((p for p in self.points if p > self.n), 1 << 60)
        if s == "list":
            return min((k for k in self.order if k > self.n), default=1 << 60)
        return 1 << 60

    def others(self):
        return [i for i in range(self.n_threads) if i != self.cur and self.state[i] == "ready"]

    def pick_forced(self):
        """Who runs when the current thread cannot go on."""
        o = self.others()
        if not o:
            return None
        if self.strategy == "list":
            for to in self.order.get(self.n, ()):
                if to in o:
                    return to
            return o[0]
        if self.strategy == "pct":
            return max(o, key=lambda i: self.prio[i])
        if self.strategy == "meet":
            o = [i for i in o if self.held[i] is None] or o
            to = self.r.choice(o)
            self.held[to] = None
            return to
        return self.r.choice(o)

    def meet(self, key):
        """Let threads wait in a function until another one executes it too, then alternate between them in it for a while."""
        if self.mixing is not None:
            if self.mixing[0] != key:
                self.mixing[3] += 1
                if self.mixing[3] > 3:
                    self.mixing = None
                return None
            self.mixing[1] -= 1
            o = [i for i in self.mixing[2] if i != self.cur and self.state[i] == "ready"]
            if self.mixing[1] <= 0 or not o:
                self.mixing = None
                return None
            return self.r.choice(o) if self.r.random() < self.mixing[4] else None
        o = self.others()
        here = [i for i in o if self.held[i] == key]
        if here:
            for i in here:
                self.held[i] = None
            self.met += 1
            rate = self.r.choice([0.7, 0.3, 0.1])
            self.mixing = [key, self.r.choice([4, 10, 40]), here + [self.cur], 0, rate]
            return self.r.choice(here) if self.r.random() < rate else None
        if o and self.meetings.get(key, 0) < self.cfg.get("meets", 4) and self.r.random() < self.cfg["p"]:
            self.meetings[key] = self.meetings.get(key, 0) + 1
            self.held[self.cur] = key
            o = [i for i in o if self.held[i] is None] or o
            to = self.r.choice(o)
            self.held[to] = None
            return to
        return None

    def point(self, code, what):
        """Called at every event of the running thread; parks it if the policy says so."""
        self.n += 1
        if self.n > self.limit:
            self.die(f"no end within {self.limit} steps")
            raise Killed
        s = self.strategy
        to = None
        if s == "list":
            if self.n == self.next:
                for to in self.order[self.n]:
                    if to != self.cur and self.state[to] == "ready":
                        break
                else:
                    to = None
                self.next = self.draw()
        elif self.n >= self.next:
            if s == "pct":
                self.prio[self.cur] = self.low
                self.low -= 1
                self.next = self.draw()
                o = self.others()
                best = max(o, key=lambda i: self.prio[i]) if o else None
                to = best
            else:
                o = self.others()
                to = self.r.choice(o) if o else None
                self.next = self.draw()
        elif s == "meet":
            if code is not None and self.is_hot(code):
                to = self.meet(key_of(code))
        elif (s == "hot" and code is not None and self.is_hot(code) or what == "lock" and s in ("lock", "hot")) and self.r.random() < self.cfg["p"]:
            o = self.others()
            to = self.r.choice(o) if o else None
        if to is not None:
            self.preempts += 1
            if code is not None:
                self.places.add(key_of(code))
            if self.preempts >= self.cfg.get("max", 20000) and s != "list":
                self.next, self.strategy = 1 << 60, "none"
            if self.cfg.get("gc") and self.gcs < 40 and self.r.random() < self.cfg["gc"]:
                gc.collect()
                self.gcs += 1
            self.switch(to)

    def is_hot(self, code):
        k = self.hotcode.get(id(code))
        if k is None:
            k = self.hotcode[id(code)] = key_of(code) in self.hot
        return k

    def switch(self, to):
        me = self.cur
        self.switches += 1
        self.trace.append([self.n, to])
        self.cur = to
        self.gates[to].release()
        self.gates[me].acquire()
        if self.dead:
            raise Killed

    def die(self, why):
        if self.dead is None:
            self.dead = why
            self.over.release()

    # ------------------------------------------------------------------------------------ locks
    def context(self):
        tid = self.ident.get(_thread.get_ident())
        if tid is None or self.dead:
            return None
        return self, tid

    def on_lock(self, lock, tid, what):
        if what == "release":
            self.freed(lock)
        if self.in_call[tid]:
            self.point(None, "lock")

    def block_on(self, lock, tid, timed):
        """Park until the lock is free. False: a timed wait that nobody can end."""
        self.blocked += 1
        self.state[tid], self.waits[tid] = "blocked", lock
        to = self.pick_forced()
        if to is None:
            if timed:
                self.state[tid], self.waits[tid] = "ready", None
                return False
            self.die("deadlock: " + ", ".join(f"thread {i} {s}" for i, s in enumerate(self.state)))
            raise Killed
        self.switch(to)
        return True

    def freed(self, lock):
        for i in range(self.n_threads):
            if self.state[i] == "blocked" and self.waits[i] is lock:
                self.state[i], self.waits[i] = "ready", None

    # ------------------------------------------------------------------------------------ events
    def line_callback(self):
        scope, known, in_call, aborts, hotcode = self.scope, self.scope.known, self.in_call, self.aborts, self.hotcode
        watch = self.strategy in ("hot", "meet") or self.cfg.get("fine")
        DISABLE = mon.DISABLE

        def line(code, lineno):
            k = known.get(id(code))
            if not k and not scope(code):
                return DISABLE
            tid = self.cur
            if tid is None or not in_call[tid]:
                return
            a = aborts[tid]
            if a is not None and a[0] == key_of(code):
                a[1] -= 1
                if a[1] <= 0 and not linecache.getline(code.co_filename, lineno).lstrip().startswith("with "):
                    aborts[tid] = None
                    self.aborted[tid] = code.co_name
                    raise KeyboardInterrupt("cut off by the simulator")
            hot = watch and (hotcode.get(id(code)) or id(code) not in hotcode and self.is_hot(code))
            if not hot and self.n + 1 < self.next and self.n < self.limit:
                self.n += 1
                return
            self.point(code, "line")
            if hot and self.cfg.get("fine") and id(code) not in self.fine_on:
                self.fine_on.add(id(code))
                mon.set_local_events(TOOL, code, mon.events.INSTRUCTION)

        return line

    def instr(self, code, offset):
        tid = self.cur
        if tid is None or not self.in_call[tid] or not self.scope(code):
            return
        self.point(code, "instr")

    # ------------------------------------------------------------------------------------ run
    def run(self, bodies):
        """bodies[i](enter, leave) runs in simulated thread i, one awake at a time, until all are done or the run dies."""
        self.fine_on = set()
        real = threading.Lock, threading.RLock
        threading.Lock, threading.RLock = simlock.SimLock, simlock.SimRLock
        simlock._current = self.context
        start_events(self.line_callback(), self.instr if self.cfg.get("fine") else None)
        try:
            for i, b in enumerate(bodies):
                _thread.start_new_thread(self.body, (i, b))
            self.cur = first = self.r.randrange(self.n_threads) if self.strategy not in ("list", "pct") else (
                self.cfg.get("first", 0) if self.strategy == "list" else max(range(self.n_threads), key=lambda i: self.prio[i]))
            self.first = first
            self.gates[first].release()
            self.over.acquire()
        finally:
            simlock._current = None
            threading.Lock, threading.RLock = real
            stop_events()
        return self.dead

    def body(self, tid, fn):
        self.gates[tid].acquire()
        if self.dead:
            return
        self.ident[_thread.get_ident()] = tid
        try:
            fn(self, tid)
        except Killed:
            return
        except BaseException as e:
            self.die(f"harness: thread {tid} ended with {type(e).__name__}: {e}")
            return
        self.in_call[tid] = False
        self.state[tid] = "done"
        if self.dead:
            return
        to = self.pick_forced()
        if to is not None:
            self.switches += 1
            self.trace.append([self.n, to])
            self.cur = to
            self.gates[to].release()
        elif all(s == "done" for s in self.state):
            self.cur = None
            self.dead = ""
            self.over.release()
        else:
            self.die("deadlock: " + ", ".join(f"thread {i} {s}" for i, s in enumerate(self.state)))
