"""Program generator.  It keeps a Model of its own, steps it with every operation it emits, and so knows which tags,
handles, events ... exist when it chooses the next operation."""
import math, struct
from model import Model, BASE, NAMES, FMTC, BOOL, REAL, LREAL, TIME, CUSTOM, QUEUE, base_size, ERR, A_RO, A_RETAIN, A_OWNED, A_VIRT

INTS = ["BYTE", "SINT", "WORD", "INT", "UINT", "DWORD", "DINT", "UDINT", "LWORD", "LINT", "ULINT", "TIME", "CHAR"]
ALL = ["BOOL"] + INTS + ["REAL", "LREAL"]
WORDS = ["alpha", "Beta", "g", "_x", "T1", "t1", "speed", "Speed", "a_b", "zz9", "M0", "Temp", "x_1", "Q", "level"]


class Gen:
    def __init__(self, rng, exclude=()):
        self.r = rng
        self.m = Model(exclude=exclude)
        self.ops = []
        self.nh = self.ne = self.nm = self.ng = self.nt = self.nn = 0
        self.pools = {}
        self.maps = []           # (src, dst) handles
        self.nomaps = False
        self.bad = 0             # how often some_handle() gives a handle that is out of range

    # ---------------------------------------------------------------- basics
    def emit(self, *op):
        op = list(op)
        r = self.m.step(op)
        if r is not None:
            self.ops.append(op)
        return r is not None

    def p(self, x):
        return self.r.random() < x

    def pick(self, seq):
        return seq[self.r.randrange(len(seq))]

    def wpick(self, weights):
        names = [k for k, w in weights.items() if w > 0]
        return self.r.choices(names, [weights[k] for k in names])[0]

    def clients(self, n, names=None, how=None, cache=None):
        net = self.p(0.1)
        for c in range(n):
            self.emit("connect", c, names[c] if names else "m%d" % c, self.pick([1, 2, 3, 8, 16]) if cache is None else cache,
                      how or ("net" if net and self.p(0.7) else "local"))

    def client(self):
        ks = list(self.m.clients)
        return self.pick(ks) if ks else None

    # ---------------------------------------------------------------- data
    def bytes(self, n):
        k = self.r.random()
        if k < 0.15:
            return bytes(n)
        if k < 0.3:
            return b"\xff" * n
        if k < 0.4:
            b = bytearray(n)
            if n:
                b[self.r.randrange(n)] = 1 << self.r.randrange(8)
            return bytes(b)
        return self.r.randbytes(n)

    def value(self, t):
        """a value of base type t as bytes, from a small pool so that values recur"""
        pool = self.pools.get(t)
        if pool is None:
            pool = self.pools[t] = self._pool(t)
        if self.p(0.85):
            return self.pick(pool)
        return self._rand(t)

    def _rand(self, t):
        n = base_size(t)
        if t in (REAL, LREAL):
            x = self.pick([self.r.uniform(-10, 10), self.r.uniform(-1e6, 1e6), self.r.uniform(-1, 1) * 10.0 ** self.r.randrange(-30, 30)])
            return struct.pack(FMTC[t], x)
        k = self.r.random()
        if k < 0.5:
            v = self.r.randrange(-5, 6)
        elif k < 0.7:
            v = 1 << (self.r.randrange(8 * n))
            v += self.pick([-1, 0, 1])
        else:
            v = self.r.getrandbits(8 * n)
        return (v & ((1 << 8 * n) - 1)).to_bytes(n, "little")

    def _pool(self, t):
        n = base_size(t)
        if t in (REAL, LREAL):
            f = FMTC[t]
            vs = [struct.pack(f, x) for x in (0.0, 1.0, -1.0, 0.5, 2.5, 100.25)]
            return self.r.sample(vs, 4) + [self._rand(t)]
        full = (1 << 8 * n) - 1
        vs = [0, 1, 2, 10, full, full >> 1, (full >> 1) + 1, full - 1, 11, 9]
        if n > 1:
            vs += [255, 256, (full + 1) // 2 - 256]
        if n > 2:
            vs += [65535, 65536, 0x10000 + 5]
        if n > 4:
            vs += [1 << 32, (1 << 32) + 5, (1 << 32) - 1]
        return [x.to_bytes(n, "little") for x in self.r.sample(vs, 5)]

    def data(self, h):
        """data for a handle, as its type suggests"""
        if self.p(0.25) or h.type & CUSTOM or h.type & ~QUEUE == BOOL:
            return self.bytes(h.size)
        n = base_size(h.type & ~QUEUE)
        return b"".join(self.value(h.type & ~QUEUE) for _ in range(h.size // n))

    # ---------------------------------------------------------------- names, types, tags
    def name(self, fresh=True, prefix=""):
        while True:
            k = self.r.random()
            if k < 0.5:
                s = self.pick(WORDS).lstrip("_") + str(self.nn)
            elif k < 0.6:
                s = ("N%d_" % self.nn) + "".join(self.pick("abcXYZ_019") for _ in range(40))
                s = s[:32]
            elif k < 0.7:
                s = ("N%d_" % self.nn) + "".join(self.pick("abcXYZ_019") for _ in range(40))
                s = s[:self.r.randrange(28, 33)]
            else:
                s = "t%d" % self.nn
            self.nn += 1
            if s not in self.m.byname:
                return s

    def cdt(self, c=None, maxm=6, bools=0.35, nest=0.3, valid=True):
        c = self.client() if c is None else c
        n = self.r.randrange(1, maxm + 1)
        ms = []
        for i in range(n):
            mn = self.pick(["a", "b", "Val", "x1", "_f", "flag", "Arr", "len"]) + "%d" % i
            if self.p(0.03):
                mn = (mn + "y" * 40)[:32]
            if self.p(bools):
                T = "BOOL"
                cnt = self.pick([1, 1, 1, 2, 3, 7, 8, 9, 13, 16])
            elif self.m.t and self.p(nest):
                T = "t%d" % self.pick(list(self.m.t))
                cnt = self.pick([1, 1, 2, 3])
            else:
                T = self.pick(INTS + ["REAL", "LREAL"])
                cnt = self.pick([1, 1, 1, 2, 3, 5])
            ms.append([mn, T, cnt])
        size = 0
        for _, T, cnt in ms:
            size += (cnt if T == "BOOL" else cnt * self.m.tsize(self.m.tcode(T)[0]) * 8)
        if size > 8 * 1500:
            return None
        s = self.nt
        self.nt += 1
        self.emit("ct", c, s, self.pick(["Type", "Type", "ty_", "Zz", "aB", "m_"]) + str(s), ms)
        return s

    def T(self, cdt=0.25, types=None):
        if self.m.t and self.p(cdt):
            return "t%d" % self.pick(list(self.m.t))
        if types:
            return self.pick(types)
        return "BOOL" if self.p(0.25) else self.pick(INTS + ["REAL", "LREAL"])

    def count(self, T, big=0.0):
        if self.p(big):
            size = max(1, self.m.tsize(self.m.tcode(T)[0]))
            if T == "BOOL":
                return self.pick([2040 * 8, 4080 * 8, 4088 * 8, 2000 * 8 + 3, 4088 * 8 + 9, 5000 * 8, 9000 * 8 + 1])
            lim = self.pick([2040, 4080, 4088, 4096, 8160, 10000])
            return max(1, min(20000, lim // size + self.pick([-1, 0, 0, 1, 2])))
        return self.pick([1, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 24, 31, 32, 33]) if T == "BOOL" else self.pick([1, 1, 1, 1, 2, 3, 4, 5, 8, 10])

    def tag(self, c=None, T=None, count=None, attr=0, big=0.0, cdt=0.25, name=None, types=None):
        """adds a tag, returns its handle slot or None"""
        c = self.client() if c is None else c
        T = T or self.T(cdt, types)
        if self.m.tcode(T) is None:
            return None
        count = count or self.count(T, big)
        s = self.nh
        self.nh += 1
        if self.emit("add", c, s, name or self.name(), T, count, attr):
            return s if s in self.m.h else None
        return None

    # ---------------------------------------------------------------- references and handles
    def usertags(self, f=None):
        return [t for t in self.m.tags if t.alive and not t.sys and t.special is None and (f is None or f(t))]

    def ref(self, tag, deep=0.75, sub=0.7):
        """valid reference text and count for (part of) a tag"""
        s = tag.name
        typ, items = tag.type, tag.count
        first = True
        while True:
            cust = typ & CUSTOM and not typ & QUEUE
            if cust and self.p(deep):
                if items > 1 or self.p(0.2):
                    s += "[%d]" % self.r.randrange(items)
                n, typ, items, _ = self.pick(self.m.layout(typ))
                s += "." + n
                first = False
                continue
            bt = typ & ~QUEUE
            if not typ & (QUEUE | CUSTOM) and bt not in (BOOL, REAL, LREAL, TIME) and self.p(0.2):
                if items > 1 or self.p(0.2):
                    s += "[%d]" % self.r.randrange(items)
                bit = self.r.randrange(base_size(bt) * 8)
                left = base_size(bt) * 8 - bit
                return s + ".%d" % bit, self.pick([0, 1, self.r.randrange(1, left + 1), left])
            if typ & QUEUE or not self.p(sub):
                return s, 0
            if self.p(0.7):
                i = self.pick([0, items - 1, self.r.randrange(items), self.r.randrange(items)])
                left = items - i
                return s + "[%d]" % i, self.pick([0, 1, self.r.randrange(1, left + 1), left])
            return s, self.pick([0, items, self.r.randrange(1, items + 1)])

    def handle(self, c=None, tag=None, f=None, **kw):
        """emits a handle operation, returns the slot"""
        c = self.client() if c is None else c
        if tag is None:
            ts = self.usertags(f)
            if not ts:
                return None
            tag = self.pick(ts)
        s, n = self.ref(tag, **kw)
        slot = self.nh
        self.nh += 1
        if tag.name in self.m.clients[c]["stale"]:
            return None
        self.emit("hnd", c, slot, s, n)
        return slot if slot in self.m.h else None

    def live_handles(self, f=None):
        out = []
        for s, h in self.m.h.items():
            t = self.m.get(h.index)
            if t is not None and (f is None or f(h, t)):
                out.append(s)
        return out

    def badhandle(self, c):
        """a handle that reaches outside of its tag, or of a tag that never was"""
        hs = self.live_handles(lambda h, t: t.queue is None and not t.attr & A_VIRT)
        if not hs:
            return None
        src = self.pick(hs)
        h = self.m.h[src]
        t = self.m.get(h.index)
        slot = self.nh
        self.nh += 1
        if self.p(0.2):
            self.emit("hset", c, slot, src, self.pick([-1, -2, 100000, 1023, 1024, 2 ** 31 - 1, -2 ** 31]), h.byte)
        else:
            self.emit("hset", c, slot, src, None, self.pick([t.size, t.size - h.size + 1, t.size + 1, t.size + 8, t.size + 64, 2 ** 31 - 1,
                                                             2 ** 31, 2 ** 32 - 1, 2 ** 32 - h.size, 100000]))
        return slot if slot in self.m.h else None

    def some_handle(self, c, f=None, new=0.4):
        if f is None and self.bad and self.p(self.bad):
            s = self.badhandle(c)
            if s is not None:
                return s
        hs = self.live_handles(f)
        if not hs or self.p(new):
            s = self.handle(c)
            if s is not None and (f is None or f(self.m.h[s], self.m.get(self.m.h[s].index))):
                return s
        return self.pick(hs) if hs else None

    def badref(self, tag):
        """text that does not designate anything, or is malformed"""
        s, n = self.ref(tag)
        k = self.r.randrange(16)
        if k == 0:
            return tag.name + "[%d]" % tag.count, n
        if k == 1:
            return tag.name + "[%d]" % self.pick([tag.count + 1, 10 ** 6, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 10 ** 12]), n
        if k == 2:
            return s.replace("[", "[-", 1) if "[" in s else tag.name + "[-1]", n
        if k == 3:
            return s + ".nosuch", n
        if k == 4:
            return s + ".", n
        if k == 5:
            return s + ".%d" % self.pick([8, 16, 32, 64, 65, 1000, 2 ** 31, 2 ** 32]), 0
        if k == 6:
            return s + "[", n
        if k == 7:
            return s + "]", n
        if k == 8:
            return tag.name + "[]", n
        if k == 9:
            return tag.name + "[x]", n
        if k == 10:
            return tag.name + "[0x1]", n
        if k == 11:
            return tag.name, tag.count + self.pick([1, 2, 1000, 2 ** 20])
        if k == 12:
            return s, self.pick([-1, -5])
        if k == 13:
            return s + "[0][0]", n
        if k == 14:
            return s[:-1] if len(s) > 1 else "", n
        return self.pick(["", ".", "[", "[0]", "..", tag.name + "..0", "nosuch", " " + s, s + " ", "x" * 33, "x" * 200, tag.name.swapcase() + "~"]), n

    # ---------------------------------------------------------------- operations
    def write(self, c, slot):
        h = self.m.h[slot]
        k = self.r.random()
        if k < 0.7:
            return self.emit("tw", c, slot, self.data(h).hex() or "-")
        return self.emit("tm", c, slot, self.data(h).hex() or "-", self.bytes(h.size).hex() or "-")

    def rawrange(self, tag):
        n = tag.qsize if tag.queue is not None else tag.size
        if tag.type == BOOL:
            n = (tag.count + 7) // 8
        n = max(n, 1)
        a = self.r.randrange(n)
        b = min(n, a + self.pick([1, 1, 2, 3, 4, 8, self.r.randrange(1, n + 1)]))
        return a, b - a

    def rawwrite(self, c, tag=None):
        tag = tag or self.pick(self.usertags())
        a, n = self.rawrange(tag)
        n = min(n, 4000)
        if self.p(0.5):
            return self.emit("rw", c, ["i", tag.idx], a, self.bytes(n).hex())
        n = min(n, 2000)
        return self.emit("rm", c, ["i", tag.idx], a, self.bytes(n).hex(), self.bytes(n).hex())

    def read(self, c, slot):
        return self.emit("tr", c, slot)

    def readall(self, c, f=None):
        """read every user tag in full"""
        for t in self.usertags(f):
            if t.queue is None:
                n = t.size if t.type != BOOL else (t.count + 7) // 8
                o = 0
                while o < n:
                    k = min(4000, n - o)
                    self.emit("rr", c, ["i", t.idx], o, k)
                    o += k

    def attrs(self, f=None):
        """a new module, which has nothing in its cache, looks up every tag"""
        c = max(self.m.clients, default=0) + 1
        self.emit("connect", c, "fresh", 8, "local")
        for t in self.usertags(f):
            if self.p(0.5):
                self.emit("byidx", c, ["i", t.idx])
            else:
                self.emit("byname", c, t.name)

    def poll(self, limit=5):
        for c, cl in list(self.m.clients.items()):
            if len(cl["pending"]) >= limit:
                self.emit("ep", c)

    def pollall(self):
        for c in list(self.m.clients):
            self.emit("ep", c)

    def event(self, c, slot=None, kinds=None):
        m = self.m
        slot = self.some_handle(c) if slot is None else slot
        if slot is None:
            return None
        h = m.h[slot]
        if h.size > 1500:
            return None
        if kinds is None:
            if h.type & CUSTOM or m.get(h.index) is None or m.get(h.index).queue is not None:
                kinds = [2, 3, 2, 3, 10]
            elif h.type == BOOL:
                kinds = [2, 3, 4, 5, 4, 5, 10]
            elif h.type in (REAL, LREAL):
                kinds = [2, 3, 7, 8, 9, 7, 8, 9, 10]
            else:
                kinds = [2, 3, 6, 7, 8, 9, 6, 7, 8, 9, 10]
            if self.p(0.06):
                kinds = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0]
        k = self.pick(kinds)
        bt = h.type & ~QUEUE
        d = "-"
        if k in (6, 7, 8, 9) and not h.type & CUSTOM and bt != BOOL:
            d = self.value(bt).hex()
            if k == 9:
                n = base_size(bt)
                if bt in (REAL, LREAL):
                    d = struct.pack(FMTC[bt], self.pick([0.0, 0.5, 1.0, 2.5, 50.0])).hex()
                else:
                    d = self.pick([0, 1, 2, 5, 9, 100]).to_bytes(n, "little").hex()
        elif k in (6, 7, 8, 9):
            d = "00" * 8
        e = self.ne
        self.ne += 1
        self.emit("ea", c, e, slot, k, d)
        return e if e in m.e else None

    def live_events(self, c=None):
        return [s for s, e in self.m.e.items() if self.m._ev_live(e) and (c is None or e.c == c)]

    # mappings: destinations are disjoint from each other and from every source (or an exact mirror)
    @staticmethod
    def _overlap(a, b):
        return a.index == b.index and a.byte < b.byte + b.size and b.byte < a.byte + a.size

    @staticmethod
    def _bitoverlap(a, b):
        def bits(h):
            return (8 * h.byte + h.bit, 8 * h.byte + h.bit + h.count) if h.type == BOOL else (8 * h.byte, 8 * (h.byte + h.size))
        x, y = bits(a), bits(b)
        return a.index == b.index and x[0] < y[1] and y[0] < x[1]

    def map(self, c, s=None, d=None):
        m = self.m
        s = self.some_handle(c) if s is None else s
        d = self.some_handle(c) if d is None else d
        if s is None or d is None:
            return None
        hs, hd = m.h[s], m.h[d]
        if self._overlap(hs, hd):
            return None
        for a, b in self.maps:
            if self._bitoverlap(hd, b) or self._overlap(hd, a) or self._overlap(hs, b):
                if (a.tup(), b.tup()) == (hs.tup(), hd.tup()):
                    continue
                return None
        k = self.nm
        self.nm += 1
        if self.emit("ma", c, k, s, d) and k in m.m:
            self.maps.append((hs, hd))
            return k
        return None

    def live_maps(self):
        return [s for s, x in self.m.m.items() if self.m._map_live(x)]

    def group(self, c, n=None, f=None, maxsize=4084):
        n = n or self.pick([1, 2, 3, 4, 5, 8, 12])
        hs, size = [], 0
        for _ in range(n):
            s = self.some_handle(c, f)
            if s is None:
                continue
            if size + self.m.h[s].size > maxsize:
                continue
            size += self.m.h[s].size
            hs.append(s)
        if not hs:
            return None
        g = self.ng
        self.ng += 1
        self.emit("ga", c, g, hs)
        return g if g in self.m.g else None

    def my_groups(self, c):
        return [s for s, g in self.m.g.items() if g["c"] == c]

    def atomic(self, c, slot=None):
        slot = self.some_handle(c) if slot is None else slot
        if slot is None:
            return False
        h = self.m.h[slot]
        if h.size > 1500:
            return False
        op = self.r.randrange(1, 10)
        if h.type in (REAL, LREAL):
            op = self.pick([1, 2, 1, 2, op])
        if op <= 2 and h.count != 1 and self.p(0.9):
            op = self.r.randrange(3, 10)
        if self.p(0.02):
            op = self.pick([0, 10, 11, 255, 65535])
        return self.emit("at", c, slot, op, self.data(h).hex() or "-")

    def override(self, c, slot=None):
        slot = self.some_handle(c) if slot is None else slot
        if slot is None:
            return False
        k = self.wpick(dict(oa=5, od=2, os=4, oc=2, og=3))
        if k == "oa":
            return self.emit("oa", c, slot, self.data(self.m.h[slot]).hex() or "-")
        return self.emit(k, c, slot)

    def grow(self, c):
        ts = self.usertags(lambda t: t.queue is None)
        if not ts:
            return
        t = self.pick(ts)
        T = self.tname(t.type)
        if T is None:
            return
        s = self.nh
        self.nh += 1
        self.emit("add", c, s, t.name, T, t.count + self.pick([-1, 0, 1, 2, 5, 8, 9]) or 1, 0)

    def tname(self, typ):
        q = "q" if typ & QUEUE else ""
        t = typ & ~QUEUE
        if t & CUSTOM:
            for s, v in self.m.t.items():
                if v == t:
                    return "%st%d" % (q, s)
            return None
        return q + NAMES[t]
