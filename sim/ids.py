"""id() under the simulator: as CPython's, unique among living objects, but dead objects' ids come back when the seed says so."""
import random
import sys
import weakref


class SimIds:
    def __init__(self, seed, p_reuse, order):
        self.r = random.Random(seed)
        self.p = p_reuse
        self.order = order
        self.free = []
        self.live = {}
        self.next = 1 << 20
        self.reused = 0

    def __call__(self, obj):
        real = id(obj)
        e = self.live.get(real)
        if e is not None and e[0]() is obj:
            return e[1]
        try:
            ref = weakref.ref(obj, lambda _, k=real: self.dead(k))
        except TypeError:
            return real
        if self.free and self.r.random() < self.p:
            i = {"lifo": -1, "fifo": 0}.get(self.order)
            sid = self.free.pop(self.r.randrange(len(self.free)) if i is None else i)
            self.reused += 1
        else:
            sid = self.next
            self.next += 16
        self.live[real] = (ref, sid)
        return sid

    def dead(self, real):
        e = self.live.pop(real, None)
        if e:
            self.free.append(e[1])

    def install(self):
        """Modules of the package see this id(); code that never calls id() is not affected."""
        for n, m in list(sys.modules.items()):
            if n.startswith("explorerscript") and ".antlr" not in n and m is not None and "id" not in vars(m):
                m.id = self
