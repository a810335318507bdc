"""Reference model of the tag server as seen through the client library.

A program is a list of JSON operations (lists).  Model.step(op) returns None when the operation refers to
something that does not exist (so programs can be cut down freely), otherwise (lines, check) where lines are
daxdrv commands and check(answers) returns None or a description of the discrepancy.

The model is written from the documentation and the public behaviour; it keeps plain byte arrays and evaluates
every operation bit by bit.  Errors are compared as "any error"; where the system documents no particular
behaviour the model accepts several outcomes ("maybe")."""
import ctypes, math, re, struct
from collections import deque

ERR = "ERR"
BASE = dict(BOOL=0x10, BYTE=0x03, SINT=0x13, CHAR=0x23, WORD=0x04, INT=0x14, UINT=0x24, DWORD=0x05, DINT=0x15,
            UDINT=0x25, REAL=0x35, LWORD=0x06, LINT=0x16, ULINT=0x26, TIME=0x36, LREAL=0x46)
NAMES = {v: k for k, v in BASE.items()}
CUSTOM, QUEUE = 0x80000000, 0x40000000
BOOL, REAL, LREAL, TIME = BASE["BOOL"], BASE["REAL"], BASE["LREAL"], BASE["TIME"]
FMT = {"BYTE": "B", "SINT": "b", "CHAR": "b", "WORD": "H", "INT": "h", "UINT": "H", "DWORD": "I", "DINT": "i",
       "UDINT": "I", "REAL": "f", "LWORD": "Q", "LINT": "q", "ULINT": "Q", "TIME": "q", "LREAL": "d"}
FMTC = {BASE[k]: "<" + v for k, v in FMT.items()}
A_RO, A_VIRT, A_RETAIN, A_OVRSET, A_SPECIAL, A_OWNED = 1, 2, 4, 8, 16, 32
EV_WRITE, EV_CHANGE, EV_SET, EV_RESET, EV_EQ, EV_GT, EV_LT, EV_DB, EV_DEL = 2, 3, 4, 5, 6, 7, 8, 9, 10
MSGDATA = 4088
WMAX, MMAX = 4080, 2040
NAME_RE = re.compile(r"[A-Za-z_][A-Za-z_0-9]*\Z")
DESC = 47
DESCT = ("_tag_added", "_tag_deleted")


def norm(off, b):
    """descriptors of tags: only the documented attribute bits of the copy are compared"""
    b = bytearray(b)
    for pos, keep in ((14 - 2, 0x25), (14 - 1, 0x8F)):
        if 0 <= pos - off < len(b):
            b[pos - off] &= keep
    return bytes(b)


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin1")
    return bytes(b).hex() if b else "-"


def base_size(t):
    return (1 << (t & 15)) // 8


def isneg(tok):
    return tok[:1] == "-" and tok[1:].isdigit()


class Handle:
    __slots__ = ("index", "byte", "bit", "count", "size", "type")

    def __init__(self, index, byte, bit, count, size, typ):
        self.index, self.byte, self.bit, self.count, self.size, self.type = index, byte, bit, count, size, typ

    def tup(self):
        return (self.index, self.byte, self.bit, self.count, self.size, self.type)

    def text(self):
        return "%d %d %d %d %d %x" % self.tup()

    def __repr__(self):
        return "Handle(%s)" % self.text()

    def is_bool(self):
        return self.type == BOOL

    def bitmask(self):
        """mask over the handle's bytes of the bits it addresses"""
        if self.type == BOOL:
            v = ((1 << self.count) - 1) << self.bit
            return v.to_bytes(self.size, "little") if v.bit_length() <= self.size * 8 else b"\xff" * self.size
        return b"\xff" * self.size

    def place(self, data):
        """left aligned data -> (bytes at their position, mask)"""
        if self.type == BOOL:
            m = (1 << self.count) - 1
            v = (int.from_bytes(data, "little") & m) << self.bit
            return v.to_bytes(self.size, "little"), (m << self.bit).to_bytes(self.size, "little")
        return bytes(data), b"\xff" * self.size

    def extract(self, raw):
        """bytes at their position -> what a read returns"""
        if self.type == BOOL:
            v = (int.from_bytes(raw, "little") >> self.bit) & ((1 << self.count) - 1)
            return v.to_bytes(self.size, "little")
        return bytes(raw)


class Event:
    def __init__(self, c, slot, h, kind, ref, tag, eid):
        self.c, self.slot, self.h, self.kind, self.ref, self.id = c, slot, h, kind, ref, eid
        self.opt = 0
        self.taint = False
        self.last = bytearray(tag.data[h.byte:h.byte + h.size]) if tag.queue is None else None
        n = h.count if kind in (EV_SET, EV_RESET, EV_EQ, EV_GT, EV_LT) else 0
        self.state = ["armed"] * n


class Tag:
    def __init__(self, idx, name, typ, count, size):
        self.idx, self.name, self.type, self.count, self.size = idx, name, typ, count, size
        self.data = bytearray(size)
        self.attr = 0
        self.owner = None          # client that would own it
        self.events, self.maps = [], []
        self.odata = self.omask = None
        self.ovrset = False
        self.queue = None
        self.qsize = 0
        self.nextevent = self.nextmap = 1
        self.sys = False
        self.special = None        # client whose module tag this is
        self.alive = True


class Model:
    MAXQ = 8

    def __init__(self, sock="s", port=0, exclude=()):
        self.sock, self.port, self.exclude = sock, port, set(exclude)
        self.tags, self.byname = [], {}
        self.cdts = []
        self.clients = {}          # c -> dict
        self.h, self.e, self.m, self.g, self.t = {}, {}, {}, {}, {}
        self.ovr_inst = self.ovr_set = 0
        self.livecount = 0
        self.uuid = 0
        self.stat = {}
        self.written = 0
        self._boot()

    # ------------------------------------------------------------------ boot
    def _boot(self):
        self.cdts.append(["_module", [("starttime", TIME, 1), ("id", BASE["DINT"], 1), ("running", BOOL, 1),
                                      ("faulted", BOOL, 1), ("status", BASE["CHAR"], 64), ("stop", BOOL, 1),
                                      ("run", BOOL, 1), ("reload", BOOL, 1), ("kill", BOOL, 1)]])
        self.cdts.append(["_tag_desc", [("index", BASE["DINT"], 1), ("type", BASE["UDINT"], 1),
                                        ("count", BASE["UDINT"], 1), ("attributes", BASE["UINT"], 1),
                                        ("name", BASE["CHAR"], 33)]])
        for n, t, c in (("_tagcount", BASE["DINT"], 1), ("_lastindex", BASE["DINT"], 1), ("_tag_added", CUSTOM | 1, 1),
                        ("_tag_deleted", CUSTOM | 1, 1), ("_dbsize", BASE["DINT"], 1), ("_starttime", TIME, 1),
                        ("_lastmodule", BASE["CHAR"], 33), ("_overrides_installed", BASE["DINT"], 1),
                        ("_overrides_set", BASE["DINT"], 1), ("_time", TIME, 1), ("_my_tagname", BASE["CHAR"], 33)):
            tag = self._newtag(n, t, c)
            tag.sys = True
            tag.attr = A_RO | (A_VIRT if n in ("_time", "_my_tagname") else 0)

    # ------------------------------------------------------------------ types
    def tsize(self, t):
        t &= ~QUEUE
        if t & CUSTOM:
            i = t & ~CUSTOM
            if i >= len(self.cdts):
                return None
            pos = 0
            for _, mt, mc in self.cdts[i][1]:
                if mt == BOOL:
                    pos += mc
                else:
                    pos = (pos + 7) // 8 * 8 + self.tsize(mt) * mc * 8
            return (pos + 7) // 8
        if t not in NAMES:
            return None
        return 1 if t == BOOL else base_size(t)

    def layout(self, t):
        """[(name, type, count, bitpos)] of a compound type"""
        pos, out = 0, []
        for n, mt, mc in self.cdts[t & ~CUSTOM & ~QUEUE][1]:
            if mt != BOOL:
                pos = (pos + 7) // 8 * 8
            out.append((n, mt, mc, pos))
            pos += mc if mt == BOOL else self.tsize(mt) * mc * 8
        return out

    def tcode(self, T):
        """type notation of programs -> (code, driver text) or None"""
        q = 0
        s = T
        if s[0] == "q":
            q, s = QUEUE, s[1:]
        if s in BASE:
            return q | BASE[s], "%s%x" % ("q" if q else "", BASE[s])
        if s[0] == "t" and s[1:].isdigit():
            k = int(s[1:])
            if k not in self.t:
                return None
            return q | self.t[k], "%st%d" % ("q" if q else "", k)
        if s.startswith("0x"):
            v = int(s, 16)
            return q | v, "%s%x" % ("q" if q else "", v)
        raise ValueError(T)

    def typename(self, t):
        if t & CUSTOM:
            i = t & ~CUSTOM
            return self.cdts[i][0] if i < len(self.cdts) and not t & QUEUE else None
        return NAMES.get(t)

    def find_type(self, name):
        u = name.upper()
        if u in BASE:
            return BASE[u]
        for i, (n, _) in enumerate(self.cdts):
            if n.upper() == u:
                return CUSTOM | i
        return 0

    # ------------------------------------------------------------------ tags
    def _newtag(self, name, typ, count):
        size = count // 8 + 1 if typ == BOOL else self.tsize(typ) * count
        tag = Tag(len(self.tags), name, typ, count, size)
        if typ & QUEUE:
            tag.queue = deque()
            tag.qsize = (count - 1) // 8 + 1 if typ & ~QUEUE == BOOL else size
            tag.data = bytearray(0)
        self.tags.append(tag)
        self.byname[name] = tag
        self.livecount += 1
        return tag

    def _desc(self, tag, attr):
        return struct.pack("<iIIH", tag.idx, tag.type, tag.count, attr & 0xFFFF) + tag.name.encode().ljust(33, b"\0")

    def _sys_write(self, name, data):
        t = self.byname[name]
        t.data[0:len(data)] = data
        self._events(t, 0, len(data), None)

    def srv_add(self, c, name, typ, count, attr, internal=False):
        """-> tag or ERR"""
        if not internal and name[:1] == "_":
            return ERR
        if count == 0 or self.tsize(typ) is None or (typ & ~QUEUE & ~CUSTOM not in NAMES and not typ & CUSTOM):
            return ERR
        if not NAME_RE.match(name) or len(name) > 32:
            return ERR
        size = count // 8 + 1 if typ == BOOL else self.tsize(typ) * count
        if size > 0x7FFFFFFF:
            return ERR
        tag = self.byname.get(name)
        if tag is not None:
            if tag.attr & A_OWNED and tag.owner != c:
                return ERR
            if tag.type != typ:
                return ERR
            if count > tag.count:
                if tag.attr & A_VIRT or tag.queue is not None:
                    return ERR
                grow = size - tag.size
                tag.data += bytes(grow)
                if tag.odata is not None:
                    tag.odata += bytes(grow)
                    tag.omask += bytes(grow)
                tag.size, tag.count = size, count
                if not tag.attr & A_OWNED:
                    tag.owner = c
                self._setattr(tag, attr)
                self._sys_write("_tag_added", self._desc(tag, attr))
                self._changed(c, tag)
            else:
                if not tag.attr & A_OWNED:
                    tag.owner = c
                old = tag.attr
                self._setattr(tag, attr)
                if old != tag.attr:
                    self._changed(c, tag)
            return tag
        tag = self._newtag(name, typ, count)
        tag.owner = c
        self._sys_write("_lastindex", struct.pack("<i", tag.idx))
        self._sys_write("_tagcount", struct.pack("<i", self.livecount))
        self._setattr(tag, attr)
        self._sys_write("_tag_added", self._desc(tag, attr))
        self._changed(c, tag)
        return tag

    def _setattr(self, tag, attr):
        if attr & A_RETAIN:
            tag.attr |= A_RETAIN
        elif attr & A_OWNED:
            tag.attr |= A_OWNED | (attr & A_RO)

    def srv_del(self, tag, c=None):
        for ev in tag.events:
            if ev.kind == EV_DEL:
                self._fire(ev, tag, "must")
        for ev in tag.events:
            ev.dead = True
        tag.events = []
        tag.maps = []
        del self.byname[tag.name]
        self._sys_write("_tag_deleted", self._desc(tag, self._attr_now(tag)))
        if tag.odata is not None:
            self._ovr_remove(tag)
        tag.alive = False
        tag.attr = 0
        self.livecount -= 1
        self._sys_write("_tagcount", struct.pack("<i", self.livecount))
        self._changed(c, tag)

    def _attr_now(self, tag):
        return (tag.attr | (A_VIRT if tag.queue is not None else 0) | (A_SPECIAL if tag.special is not None else 0)
                | (A_OVRSET if tag.ovrset else 0) | (0x4000 if tag.odata is not None else 0)
                | (0x1000 if tag.maps else 0) | (0x2000 if tag.events else 0))

    def get(self, idx):
        if 0 <= idx < len(self.tags) and self.tags[idx].alive:
            return self.tags[idx]
        return None

    # ------------------------------------------------------------------ client side lookup cache
    def _seen(self, c, tag):
        cl = self.clients[c]
        cl["seen"].add(tag.name)
        cl["seenidx"].add(tag.idx)

    def _changed(self, c, tag):
        """tag was added, grown, deleted or changed attributes by client c: others may hold old information"""
        tag.changes = getattr(tag, "changes", 0) + 1
        for k, cl in self.clients.items():
            if k == c:
                continue
            if tag.name in cl["seen"]:
                cl["stale"].add(tag.name)
            if tag.idx in cl["seenidx"]:
                cl["staleidx"].add(tag.idx)

    def _refresh(self, c, tag):
        cl = self.clients[c]
        cl["stale"].discard(tag.name)
        for t in self.tags:
            if t.name == tag.name:
                cl["staleidx"].discard(t.idx)

    # ------------------------------------------------------------------ server data access
    def _may_write(self, c, tag, off, size):
        """False if refused"""
        if tag.attr & A_RO and not (tag.attr & A_OWNED and tag.owner == c):
            return False
        return True

    def _special_ok(self, c, tag, off, size):
        if tag.special is None:
            return True
        if off == 77 and size == 1:
            return True
        if c is None or self.clients.get(c, {}).get("tag") is not tag:
            return False
        return off >= 12

    def in_range(self, tag, off, size):
        return off >= 0 and size >= 0 and off + size <= tag.size

    def srv_read(self, c, idx, off, size):
        tag = self.get(idx)
        if tag is None or size > MSGDATA:
            return ERR
        if tag.queue is not None:
            if off != 0 or size != tag.qsize or not tag.queue:
                return ERR
            return tag.queue.popleft()
        if not self.in_range(tag, off, size):
            return ERR
        if tag.name == "_my_tagname":
            mt = self.clients[c]["tag"]
            if mt is None:
                return ERR
            return mt.name.encode().ljust(33, b"\0")[off:off + size]
        raw = tag.data[off:off + size]
        if tag.ovrset:
            raw = bytes((d & ~m) | (o & m) for d, o, m in
                        zip(raw, tag.odata[off:off + size], tag.omask[off:off + size]))
        return bytes(raw)

    def _store(self, tag, off, data, mask):
        if mask is None:
            tag.data[off:off + len(data)] = data
        else:
            for i in range(len(data)):
                tag.data[off + i] = (tag.data[off + i] & ~mask[i]) | (data[i] & mask[i])
        self._events(tag, off, len(data), mask)

    def raw_write(self, c, tag, off, data, mask=None):
        """below the read-only check; no mappings"""
        if tag.queue is not None:
            if mask is not None or off != 0 or len(data) != tag.qsize:
                return ERR
            tag.queue.append(bytes(data))
            self._events(tag, 0, tag.qsize, None)
            return 0
        if tag.attr & A_VIRT:
            return ERR
        if not self.in_range(tag, off, len(data)):
            return ERR
        if not self._special_ok(c, tag, off, len(data)):
            return ERR
        self._store(tag, off, data, mask)
        return 0

    def srv_write(self, c, idx, off, data, mask=None):
        tag = self.get(idx)
        if tag is None or not self._may_write(c, tag, off, len(data)):
            return ERR
        r = self.raw_write(c, tag, off, data, mask)
        if r == 0:
            self._maps(tag, off, len(data))
            self.written += 1
        return r

    def _maps(self, tag, off, size):
        if size <= 0:
            return
        for mp in reversed(list(tag.maps)):
            s, d = mp["src"], mp["dst"]
            if off > s.byte + s.size - 1 or off + size - 1 < s.byte:
                continue
            dt = self.get(d.index)
            if dt is None:
                tag.maps.remove(mp)
                continue
            if dt.attr & A_RO:
                continue
            src = bytes(tag.data[s.byte:s.byte + s.size])
            self.stat["mapped"] = self.stat.get("mapped", 0) + 1
            if s.type == BOOL or d.type == BOOL:
                nb = min(s.count if s.type == BOOL else s.size * 8, d.count if d.type == BOOL else d.size * 8)
                v = (int.from_bytes(src, "little") >> s.bit) & ((1 << nb) - 1)
                m = ((1 << nb) - 1) << d.bit
                self.raw_write(None, dt, d.byte, (v << d.bit).to_bytes(d.size, "little"), m.to_bytes(d.size, "little"))
            else:
                self.raw_write(None, dt, d.byte, src)

    # ------------------------------------------------------------------ events
    def _fire(self, ev, tag, how):
        cl = self.clients.get(ev.c)
        if cl is None:
            return
        data = None
        if ev.opt & 1 and tag.queue is None:
            data = bytes(tag.data[ev.h.byte:ev.h.byte + ev.h.size])
            if len(data) > 4000:
                how = "maybe"
            if tag.name in DESCT:
                data = (norm(ev.h.byte, data), ev.h.byte)
        if ev.taint:
            how = "maybe"
        cl["pending"].append((ev.slot, how, data))
        self.stat["fired" if how == "must" else "maybe"] = self.stat.get("fired" if how == "must" else "maybe", 0) + 1

    def _events(self, tag, off, size, mask):
        if size <= 0:
            return
        for ev in list(tag.events):
            h = ev.h
            lo, hi = max(off, h.byte), min(off + size, h.byte + h.size)
            if ev.kind == EV_DEL or lo >= hi:
                continue
            self.stat["evaluated"] = self.stat.get("evaluated", 0) + 1
            # bits touched, relative to the event's range
            tm = bytearray(h.size)
            for i in range(lo, hi):
                tm[i - h.byte] = 0xFF if mask is None else mask[i - off]
            how = self._eval(ev, tag, tm, lo - h.byte, hi - h.byte)
            if ev.taint:
                how = "maybe"
            if how:
                self._fire(ev, tag, how)

    def _eval(self, ev, tag, tm, lo, hi):
        h, k = ev.h, ev.kind
        if k == EV_WRITE:
            return "must" if any(a & b for a, b in zip(tm, h.bitmask())) else "maybe"
        cur = bytes(tag.data[h.byte:h.byte + h.size])
        if k == EV_CHANGE:
            bm = h.bitmask()
            hit = any((a ^ b) & m for a, b, m in zip(cur, ev.last, bm))
            ev.last[:] = cur
            return "must" if hit else None
        res = None

        def up(x):
            nonlocal res
            if x == "must" or res is None:
                res = x
        if k in (EV_SET, EV_RESET):
            v = int.from_bytes(cur, "little") >> h.bit
            t = int.from_bytes(tm, "little") >> h.bit
            for n in range(h.count):
                cond = bool(v >> n & 1) == (k == EV_SET)
                self._edge(ev, n, cond, bool(t >> n & 1), up)
            return res
        inc = base_size(h.type)
        f = FMTC[h.type]
        ref = struct.unpack(f, ev.ref)[0]
        for n in range(lo // inc, (hi - 1) // inc + 1):
            if n >= h.count:
                break
            x = struct.unpack(f, cur[n * inc:(n + 1) * inc])[0]
            touched = any(tm[n * inc:(n + 1) * inc])
            if isinstance(x, float) and not (math.isfinite(x) and math.isfinite(ref)):
                ev.taint = True
                up("maybe")
                continue
            if k == EV_DB:
                y = struct.unpack(f, ev.last[n * inc:(n + 1) * inc])[0]
                if isinstance(y, float):
                    if not math.isfinite(y):
                        ev.taint = True
                        up("maybe")
                        continue
                    d = abs(x - y)
                    if h.type == REAL:
                        d = ctypes.c_float(d).value
                else:
                    d = abs(x - y)
                if d >= ref:
                    up("must" if touched else "maybe")
                    ev.last[n * inc:(n + 1) * inc] = cur[n * inc:(n + 1) * inc]
            else:
                cond = x == ref if k == EV_EQ else x > ref if k == EV_GT else x < ref
                self._edge(ev, n, cond, touched, up)
        return res

    def _edge(self, ev, n, cond, touched, up):
        st = ev.state[n]
        if touched:
            if cond:
                if st == "armed":
                    up("must")
                elif st == "unk":
                    up("maybe")
                ev.state[n] = "fired"
            else:
                ev.state[n] = "armed"
        elif cond and st in ("armed", "unk"):
            up("maybe")
            ev.state[n] = "unk"

    # ------------------------------------------------------------------ overrides
    def _ovr_count(self):
        self._sys_write("_overrides_installed", struct.pack("<i", self.ovr_inst))

    def _ovr_setcount(self):
        self._sys_write("_overrides_set", struct.pack("<i", self.ovr_set))

    def _ovr_remove(self, tag):
        if tag.ovrset:
            self.ovr_set -= 1
            tag.ovrset = False
            self._ovr_setcount()
        self.ovr_inst -= 1
        self._ovr_count()
        tag.odata = tag.omask = None

    # ------------------------------------------------------------------ handles
    def resolve(self, s, count):
        """-> Handle or ERR; the text as a user would read it"""
        if count < 0:
            return ERR
        parts = s.split(".", 1)
        tn, idx = self._index(parts[0])
        if tn is None:
            return ERR
        tag = self.byname.get(tn)
        if tag is None:
            return ERR
        rest = parts[1] if len(parts) > 1 else None
        if rest is None:
            return self._finish(tag.idx, tag.type, 0, tag.count, idx, count)
        if idx is not None and idx >= tag.count:
            return ERR
        if rest[:1].isdigit() and rest[:1].isascii():
            if tag.count > 1 and idx is None:
                return ERR
        elif not tag.type & CUSTOM:
            return ERR
        elif tag.count > 1 and idx is None:
            return ERR
        if tag.type & QUEUE and rest[:1].isdigit():
            return ERR
        pos = self.tsize(tag.type) * 8 * (idx or 0)
        if rest[:1].isdigit():
            return self._bits(tag.idx, tag.type, pos, rest, count)
        return self._member(tag.idx, tag.type, pos, rest, count)

    @staticmethod
    def _index(s):
        i = s.find("[")
        if i < 0:
            return s, None
        m = re.match(r"\[([0-9]+)\]\Z", s[i:])
        if not m or int(m.group(1)) > 0x7FFFFFFF:
            return None, None
        return s[:i], int(m.group(1))

    def _finish(self, ti, typ, pos, items, idx, count):
        if idx is None:
            count = count or items
            idx = 0
        else:
            count = count or 1
        if idx + count > items:
            return ERR
        if typ == BOOL:
            pos += idx
            return Handle(ti, pos // 8, pos % 8, count, (pos % 8 + count - 1) // 8 + 1, typ)
        sz = self.tsize(typ)
        n = (count - 1) // 8 + 1 if typ == (BOOL | QUEUE) else sz * count
        return Handle(ti, pos // 8 + sz * idx, 0, count, n, typ)

    def _bits(self, ti, typ, pos, text, count):
        if not text.isdigit() or typ in (BOOL, TIME, REAL, LREAL) or typ & (CUSTOM | QUEUE):
            return ERR
        bit, n = int(text), self.tsize(typ) * 8
        count = count or 1
        if bit + count > n:
            return ERR
        pos += bit
        return Handle(ti, pos // 8, pos % 8, count, (pos % 8 + count - 1) // 8 + 1, BOOL)

    def _member(self, ti, typ, pos, text, count):
        parts = text.split(".", 1)
        name, idx = self._index(parts[0])
        if name is None:
            return ERR
        for mn, mt, mc, mp in self.layout(typ):
            if mn == name:
                break
        else:
            return ERR
        pos += mp
        rest = parts[1] if len(parts) > 1 else None
        if rest is None:
            return self._finish(ti, mt, pos, mc, idx, count)
        if idx is not None and idx >= mc:
            return ERR
        if rest[:1].isdigit():
            if mc > 1 and idx is None:
                return ERR
            if mt == BOOL:
                return ERR
            return self._bits(ti, mt, pos + self.tsize(mt) * 8 * (idx or 0), rest, count)
        if not mt & CUSTOM:
            return ERR
        return self._member(ti, mt, pos + self.tsize(mt) * 8 * (idx or 0), rest, count)

    # ------------------------------------------------------------------ program steps
    def step(self, op):
        f = getattr(self, "op_" + op[0])
        return f(*op[1:])

    def _live(self, c):
        return c in self.clients

    def _ref(self, ref):
        """('h', slot) or ('i', index) -> (text, index)"""
        if ref[0] == "h":
            if ref[1] not in self.h:
                return None
            return "h%d" % ref[1], self.h[ref[1]].index
        return str(ref[1]), ref[1]

    @staticmethod
    def _rc(exp, what=""):
        """checker for a result code"""
        def chk(a):
            t = a[0].split(" ")[0]
            if exp is None:
                return None
            if exp is ERR:
                return None if isneg(t) else "%saccepted (%s), should be refused" % (what, a[0][:80])
            return None if t == "0" else "%sfailed with %s, should succeed" % (what, a[0][:80])
        return chk

    @staticmethod
    def _data(exp, what, desc=None):
        def chk(a):
            p = a[0].split(" ")
            if desc is not None and p[0] == "0" and exp is not ERR and len(p) > 1 and p[1] != "-":
                if norm(desc, bytes.fromhex(p[1])) == norm(desc, exp):
                    return None
            if exp is ERR:
                return None if isneg(p[0]) else "%s succeeded (%s), should be refused" % (what, a[0][:120])
            want = "0 " + hx(exp)
            if a[0] == want:
                return None
            if isneg(p[0]):
                return "%s failed with %s, should return %s" % (what, p[0], hx(exp)[:200])
            return "%s returned %s, should be %s" % (what, diff(a[0][2:], hx(exp)), "as shown")
        return chk

    def op_connect(self, c, name, cache=8, how="local"):
        if self._live(c):
            return None
        self.clients[c] = cl = dict(name=name, pending=[], seen=set(), seenidx=set(), stale=set(), staleidx=set(),
                                    tag=None, groups=0)
        tag = None
        if name not in self.exclude:
            base = ("_m" + name)[:32]
            tn = base
            while tn in self.byname:
                if self.uuid < 1000:
                    tn = base[:min(len(base), 29)] + "%03d" % self.uuid
                else:
                    tn = base[:min(len(base), 27)] + "%05d" % (self.uuid % 100000)
                self.uuid += 1
            r = self.srv_add(None, tn, CUSTOM | 0, 1, 0, internal=True)
            if r is not ERR:
                tag = r
                tag.owner = None
                tag.special = c
                cl["tag"] = tag
                self._sys_write("_lastmodule", tn.encode().ljust(32, b"\0"))
        line = "connect %d %s %d %s %s %d 15000" % (c, hx(name), cache, how, self.sock if how == "local" else "127.0.0.1",
                                                    self.port)
        return [line], self._rc(0, "connect ")

    def op_drop(self, c):
        """the module dies: its connection just ends"""
        return self.op_disc(c, "drop")

    def op_status(self, c, kind, arg):
        """run / flt (0 or 1) / st (text): the module's own status tag"""
        if not self._live(c):
            return None
        tag = self.clients[c]["tag"]
        line = "status %d %s %s" % (c, kind, hx(arg) if kind == "st" else arg)
        cl = self.clients[c]
        if tag is None or not tag.alive or tag.name in cl["stale"]:
            return None
        if kind == "st":
            d = arg.encode("latin1")[:64].ljust(64, b"\0")
            r = self.srv_write(c, tag.idx, 13, d)
        else:
            bit = 1 if kind == "run" else 2
            r = self.srv_write(c, tag.idx, 12, bytes([bit if arg else 0]), bytes([bit]))
        self._seen(c, tag)
        return [line], self._rc(r, "module status ")

    def op_disc(self, c, how="disc"):
        if not self._live(c):
            return None
        cl = self.clients[c]
        # events and groups of the module go first
        for t in self.tags:
            t.events = [e for e in t.events if e.c != c]
        for s in [s for s, e in self.e.items() if e.c == c]:
            del self.e[s]
        for s in [s for s, g in self.g.items() if g["c"] == c]:
            del self.g[s]
        del self.clients[c]
        for t in list(self.tags):
            if t.alive and t.attr & A_OWNED and t.owner == c:
                self.srv_del(t)
        for t in self.tags:
            if t.owner == c:
                t.owner = "gone"
        if cl["tag"] is not None:
            self.srv_del(cl["tag"])
        lines = ["%s %d" % (how, c)]
        for k in self.clients:
            lines += ["rr %d 0 0 4" % k] * 2
            break
        return lines, self._rc(0, "disconnect ")

    def op_add(self, c, slot, name, T, count, attr):
        if not self._live(c):
            return None
        tc = self.tcode(T)
        if tc is None:
            return None
        typ, tt = tc
        line = "add %d %d %s %s %d %d" % (c, slot, hx(name), tt, count, attr)
        if "\0" in name or len(name) > 32:
            r = ERR
        else:
            r = self.srv_add(c, name, typ, count & 0xFFFFFFFF, attr)
        self.stat["adds"] = self.stat.get("adds", 0) + 1
        if r is ERR:
            return [line], self._rc(ERR, "adding tag '%s' " % name)
        self._refresh(c, r)
        n = (count - 1) // 8 + 1 if typ & ~QUEUE == BOOL else self.tsize(typ) * count
        h = Handle(r.idx, 0, 0, count, n, typ)
        self.h[slot] = h
        want = "0 " + h.text()
        return [line], lambda a: None if a[0] == want else "adding tag '%s' gave handle '%s', should be '%s'" % (name, a[0], want)

    def op_del(self, c, ref):
        r = self._ref(ref)
        if not self._live(c) or r is None:
            return None
        tag = self.get(r[1])
        line = "del %d %s" % (c, r[0])
        if tag is None or tag.name[0] == "_":
            return [line], self._rc(ERR, "deleting tag %d " % r[1])
        self.srv_del(tag, c)
        # this client's own cache entry is dropped with it
        return [line], self._rc(0, "deleting tag %d " % r[1])

    def _tagline(self, c, tag, line, what):
        if tag is None:
            return [line], self._rc(ERR, what)
        keep = A_RO | A_RETAIN | A_OWNED | A_VIRT
        if tag.name not in self.clients[c]["seen"]:
            # nothing of this tag can be in the cache of the client, so this is what the server says now
            keep |= A_OVRSET | A_SPECIAL | 0x7000
        self._seen(c, tag)
        exp = (tag.idx, tag.type, tag.count, (self._attr_now(tag)) & keep, tag.name)

        def chk(a):
            p = a[0].split(" ")
            if p[0] != "0":
                return "%sfailed with %s, the tag exists" % (what, p[0])
            got = (int(p[1]), int(p[2], 16), int(p[3]), int(p[4], 16) & keep, bytes.fromhex(p[5]).decode("latin1") if p[5] != "-" else "")
            return None if got == exp else "%sreturned %s, should be %s" % (what, got, exp)
        return [line], chk

    def _vague(self, c, tag, line):
        if tag is not None:
            self._seen(c, tag)
        return [line], lambda a: None

    def op_byname(self, c, name):
        if not self._live(c):
            return None
        line = "byname %d %s" % (c, hx(name))
        if name in self.clients[c]["stale"]:
            return self._vague(c, self.byname.get(name), line)
        tag = self.byname.get(name)
        if len(name) > 32 or not name:
            tag = None
        return self._tagline(c, tag, line, "lookup of '%s' " % name)

    def op_byidx(self, c, ref):
        r = self._ref(ref)
        if not self._live(c) or r is None:
            return None
        line = "byidx %d %s" % (c, r[0])
        if r[1] in self.clients[c]["staleidx"]:
            return self._vague(c, self.get(r[1]), line)
        return self._tagline(c, self.get(r[1]), line, "lookup of index %d " % r[1])

    def op_hnd(self, c, slot, s, count):
        if not self._live(c):
            return None
        line = "hnd %d %d %s %d" % (c, slot, hx(s), count)
        tn = s.split(".")[0].split("[")[0]
        if tn in self.clients[c]["stale"]:
            self.h.pop(slot, None)
            return self._vague(c, self.byname.get(tn), line)
        r = self.resolve(s, count)
        if tn in self.byname:
            self._seen(c, self.byname[tn])
        if r is ERR:
            return [line], self._rc(ERR, "reference '%s' count %d " % (s, count))
        self.h[slot] = r
        self.stat["handles"] = self.stat.get("handles", 0) + 1
        want = "0 " + r.text()
        return [line], lambda a: None if a[0] == want else "reference '%s' count %d gave '%s', should be '%s'" % (s, count, a[0], want)

    def op_hset(self, c, slot, src, index, byte):
        """a handle like that of slot src, but with another index (None: the same) or byte offset: nothing that a reference
        could give, so everything that is done with it must be refused"""
        if not self._live(c) or src not in self.h:
            return None
        o = self.h[src]
        h = Handle(o.index if index is None else index, byte, o.bit, o.count, o.size, o.type)
        t = self.get(h.index)
        if t is not None and self.in_range(t, h.byte, h.size) and t.size:
            return None
        self.h[slot] = h
        self.stat["bad handles"] = self.stat.get("bad handles", 0) + 1
        return ["hset %d %d %d %d %d %d %d %x" % (c, slot, h.index, h.byte, h.bit, h.count, h.size, h.type)], self._rc(0, "")

    def op_fqn(self, c, slot):
        if not self._live(c) or slot not in self.h:
            return None
        t = self.get(self.h[slot].index)
        if t is not None and not self.in_range(t, self.h[slot].byte, self.h[slot].size):
            return None
        h = self.h[slot]
        tag = self.get(h.index)
        line = "fqn %d %d" % (c, slot)
        if tag is None or h.index in self.clients[c]["staleidx"] or tag.name in self.clients[c]["stale"]:
            return self._vague(c, tag, line)
        self._seen(c, tag)
        snap = self._resolve_snapshot()

        def chk(a):
            if a[0] == "NULL":
                return "no name for handle %s" % h.text()
            s = bytes.fromhex(a[0]).decode("latin1") if a[0] != "-" else ""
            r = snap(s, h.count)
            if r is ERR or r.tup() != h.tup():
                return "handle '%s' was named '%s' which resolves to '%s'" % (h.text(), s, r if r is ERR else r.text())
            return None
        return [line], chk

    def _resolve_snapshot(self):
        frozen = Model.__new__(Model)
        frozen.cdts = list(self.cdts)
        frozen.byname = {}
        for n, t in self.byname.items():
            f = Tag.__new__(Tag)
            f.idx, f.type, f.count, f.name = t.idx, t.type, t.count, t.name
            frozen.byname[n] = f
        return frozen.resolve

    def _fit(self, hexdata, n):
        b = b"" if hexdata == "-" else bytes.fromhex(hexdata)
        return (b + bytes(n))[:n]

    # --- reads and writes
    def op_tr(self, c, slot):
        if not self._live(c) or slot not in self.h:
            return None
        h = self.h[slot]
        line = "tr %d %d" % (c, slot)
        self.stat["reads"] = self.stat.get("reads", 0) + 1
        if h.size > MSGDATA:
            ts = self.tsize(h.type)
            if ts > MSGDATA:
                return [line], lambda a: None
            out, n, r = b"", 0, 0
            while n < h.size:
                k = min(h.size - n, MSGDATA)
                k -= k % ts
                r = self.srv_read(c, h.index, h.byte + n, k)
                if r is ERR:
                    break
                out += r
                n += k
            r = ERR if r is ERR else out
        else:
            r = self.srv_read(c, h.index, h.byte, h.size)
        t = self.get(h.index)
        if t is not None and t.name in ("_time", "_starttime", "_dbsize") or t is not None and t.special is not None and h.byte < 12:
            return [line], self._rc(ERR if r is ERR else 0, "read ")
        if r is not ERR:
            r = h.extract(r)
        return [line], self._data(r, "read of %s" % self._hname(h), h.byte if t is not None and t.name in DESCT else None)

    def _hname(self, h):
        t = self.tags[h.index] if 0 <= h.index < len(self.tags) else None
        return "%s(%s)" % (t.name if t else "?", h.text())

    def _chunks(self, h, limit):
        ts = 1 if h.type == BOOL else self.tsize(h.type)
        if h.size <= limit:
            return [(0, h.size)]
        if ts > limit:
            return None
        out, n = [], 0
        while n < h.size:
            k = min(h.size - n, limit)
            k -= k % ts
            out.append((n, k))
            n += k
        return out

    def handle_write(self, c, h, data, mask=None):
        """what dax_tag_write / dax_tag_mask do; data and mask left aligned. -> 0 or ERR"""
        if h.type == BOOL and (h.bit > 0 or h.count % 8) or mask is not None:
            d, m = h.place(data)
            if mask is not None:
                m2, _ = h.place(mask)
                m = bytes(a & b for a, b in zip(m, m2))
            ch = self._chunks(h, MMAX)
        else:
            d, m = bytes(data), None
            ch = self._chunks(h, WMAX)
        if ch is None:
            return ERR
        for o, k in ch:
            r = self.srv_write(c, h.index, h.byte + o, d[o:o + k], None if m is None else m[o:o + k])
            if r is ERR:
                return ERR
        return 0

    def op_tw(self, c, slot, data):
        if not self._live(c) or slot not in self.h:
            return None
        h = self.h[slot]
        d = self._fit(data, h.size)
        line = "tw %d %d %s" % (c, slot, hx(d))
        self.stat["writes"] = self.stat.get("writes", 0) + 1
        return [line], self._rc(self.handle_write(c, h, d), "write to %s " % self._hname(h))

    def op_tm(self, c, slot, data, mask):
        if not self._live(c) or slot not in self.h:
            return None
        h = self.h[slot]
        d, m = self._fit(data, h.size), self._fit(mask, h.size)
        line = "tm %d %d %s %s" % (c, slot, hx(d), hx(m))
        self.stat["masked"] = self.stat.get("masked", 0) + 1
        return [line], self._rc(self.handle_write(c, h, d, m), "masked write to %s " % self._hname(h))

    def _spare(self, idx, off, size):
        """raw access of BOOL tags that involves the spare byte the server allocates: not specified"""
        t = self.get(idx)
        return t is not None and t.type == BOOL and off + size > (t.count + 7) // 8 and off + size <= t.size

    def op_rr(self, c, ref, off, size):
        r = self._ref(ref)
        if not self._live(c) or r is None or self._spare(r[1], off, size) or size <= 0:
            return None
        line = "rr %d %s %d %d" % (c, r[0], off & 0xFFFFFFFF, size)
        x = self.srv_read(c, r[1], off, size)
        self.stat["reads"] = self.stat.get("reads", 0) + 1
        t = self.get(r[1])
        if t is not None and (t.name in ("_time", "_starttime", "_dbsize") or t.special is not None and off < 12):
            return [line], self._rc(ERR if x is ERR else 0, "read ")
        return [line], self._data(x, "raw read of index %d offset %d size %d" % (r[1], off, size),
                                  off if t is not None and t.name in DESCT else None)

    def op_rw(self, c, ref, off, data):
        r = self._ref(ref)
        d = bytes.fromhex(data) if data != "-" else b""
        if not self._live(c) or r is None or not d or self._spare(r[1], off, len(d)):
            return None
        line = "rw %d %s %d %s" % (c, r[0], off & 0xFFFFFFFF, hx(d))
        self.stat["writes"] = self.stat.get("writes", 0) + 1
        x = ERR if len(d) > WMAX else self.srv_write(c, r[1], off, d)
        return [line], self._rc(x, "raw write of index %d offset %d size %d " % (r[1], off, len(d)))

    def op_rm(self, c, ref, off, data, mask):
        r = self._ref(ref)
        d = bytes.fromhex(data) if data != "-" else b""
        if not self._live(c) or r is None or not d or self._spare(r[1], off, len(d)):
            return None
        m = self._fit(mask, len(d))
        line = "rm %d %s %d %s %s" % (c, r[0], off & 0xFFFFFFFF, hx(d), hx(m))
        self.stat["masked"] = self.stat.get("masked", 0) + 1
        x = ERR if len(d) > MMAX else self.srv_write(c, r[1], off, d, m)
        return [line], self._rc(x, "raw masked write of index %d offset %d size %d " % (r[1], off, len(d)))

    # --- overrides
    def _ovr_target(self, c, slot):
        if not self._live(c) or slot not in self.h or self.h[slot].size > 2000:
            return None
        return self.h[slot]

    def op_oa(self, c, slot, data):
        h = self._ovr_target(c, slot)
        if h is None:
            return None
        d = self._fit(data, h.size)
        line = "oa %d %d %s" % (c, slot, hx(d))
        tag = self.get(h.index)
        if tag is None or tag.queue is not None or tag.attr & A_VIRT or not self.in_range(tag, h.byte, h.size):
            return [line], self._rc(ERR, "override ")
        if tag.odata is None:
            tag.odata, tag.omask = bytearray(tag.size), bytearray(tag.size)
            self.ovr_inst += 1
            new = True
        else:
            new = False
        dd, mm = h.place(d)
        for i in range(h.size):
            tag.odata[h.byte + i] = (tag.odata[h.byte + i] & ~mm[i]) | (dd[i] & mm[i])
            tag.omask[h.byte + i] |= mm[i]
        if new:
            self._ovr_count()
        self.stat["ovr"] = self.stat.get("ovr", 0) + 1
        return [line], self._rc(0, "override of %s " % self._hname(h))

    def op_od(self, c, slot):
        h = self._ovr_target(c, slot)
        if h is None:
            return None
        line = "od %d %d" % (c, slot)
        tag = self.get(h.index)
        if tag is None or tag.odata is None or not self.in_range(tag, h.byte, h.size):
            return [line], self._rc(ERR, "override deletion ")
        mm = h.bitmask()
        for i in range(h.size):
            tag.omask[h.byte + i] &= ~mm[i]
            tag.odata[h.byte + i] &= ~mm[i]
        if not any(tag.omask):
            self._ovr_remove(tag)
        return [line], self._rc(0, "override deletion of %s " % self._hname(h))

    def op_os(self, c, slot):
        h = self._ovr_target(c, slot)
        if h is None:
            return None
        tag = self.get(h.index)
        line = "os %d %d" % (c, slot)
        if tag is None or tag.odata is None:
            return [line], self._rc(ERR, "setting of missing override ")
        if not tag.ovrset:
            tag.ovrset = True
            self.ovr_set += 1
            self._ovr_setcount()
        return [line], self._rc(0, "setting override ")

    def op_oc(self, c, slot):
        h = self._ovr_target(c, slot)
        if h is None:
            return None
        tag = self.get(h.index)
        line = "oc %d %d" % (c, slot)
        if tag is None:
            return [line], self._rc(ERR, "clearing override of deleted tag ")
        if tag.ovrset:
            tag.ovrset = False
            self.ovr_set -= 1
            self._ovr_setcount()
        return [line], self._rc(0, "clearing override ")

    def op_og(self, c, slot):
        h = self._ovr_target(c, slot)
        if h is None:
            return None
        tag = self.get(h.index)
        line = "og %d %d" % (c, slot)
        if tag is None or tag.queue is not None or tag.attr & A_VIRT or not self.in_range(tag, h.byte, h.size):
            return [line], self._rc(ERR, "override query ")
        if tag.name in ("_starttime", "_dbsize", "_tag_added", "_tag_deleted") or tag.special is not None:
            return [line], self._rc(0, "override query ")
        raw = bytes(tag.data[h.byte:h.byte + h.size])
        m = bytes(tag.omask[h.byte:h.byte + h.size]) if tag.omask is not None else bytes(h.size)
        want = "0 %s %s" % (hx(raw), hx(m))
        return [line], lambda a: None if a[0] == want else "override query of %s gave data and mask %s, should be %s" % (self._hname(h), a[0], want)

    # --- atomic operations
    def op_at(self, c, slot, op, data):
        if not self._live(c) or slot not in self.h:
            return None
        h = self.h[slot]
        tag = self.get(h.index)
        n = (h.count + 7) // 8 if h.type == BOOL else h.size
        d = self._fit(data, n)
        line = "at %d %d %d %s" % (c, slot, op, "-" if op == 3 and data == "-" else hx(d))
        self.stat["atomic"] = self.stat.get("atomic", 0) + 1
        bad = (tag is None or h.type & (CUSTOM | QUEUE) or tag.queue is not None or tag.attr & A_VIRT
               or tag.special is not None or not self._may_write(c, tag, h.byte, h.size)
               or not self.in_range(tag, h.byte, h.size) or op < 1 or op > 9 or h.size + 21 > MSGDATA
               or op <= 2 and (h.type == BOOL or h.count != 1) or op > 2 and h.type in (REAL, LREAL))
        what = "atomic operation %d on %s " % (op, self._hname(h))
        if bad:
            return [line], self._rc(ERR, what)
        old = bytes(tag.data[h.byte:h.byte + h.size])
        if op <= 2:
            f = FMTC[h.type]
            x, y = struct.unpack(f, old)[0], struct.unpack(f, d)[0]
            if h.type in (REAL, LREAL):
                if not (math.isfinite(x) and math.isfinite(y)):
                    return None
                z = x + y if op == 1 else x - y
                if h.type == REAL:
                    z = ctypes.c_float(z).value
                if z == 0:
                    z = 0.0 if not (math.copysign(1, z) < 0) else -0.0
                new = struct.pack(f, z)
            else:
                z = (x + y if op == 1 else x - y) & ((1 << 8 * h.size) - 1)
                new = z.to_bytes(h.size, "little")
            mask = None
        else:
            a = int.from_bytes(h.extract(old), "little")
            b = int.from_bytes(d, "little")
            nb = h.count if h.type == BOOL else h.size * 8
            full = (1 << nb) - 1
            b &= full
            z = {3: ~a, 4: a | b, 5: a & b, 6: ~(a | b), 7: ~(a & b), 8: a ^ b, 9: ~(a ^ b)}[op] & full
            new, mask = h.place(z.to_bytes(h.size, "little"))
            if h.type != BOOL:
                mask = None
        self._store(tag, h.byte, new, mask)
        self._maps(tag, h.byte, h.size)
        self.written += 1
        return [line], self._rc(0, what)

    # --- events
    def op_ea(self, c, slot, hslot, kind, data):
        if not self._live(c) or hslot not in self.h or slot in self.e:
            return None
        h = self.h[hslot]
        tag = self.get(h.index)
        n = base_size(h.type) if not h.type & CUSTOM else 0
        need = kind in (EV_EQ, EV_GT, EV_LT, EV_DB)
        d = self._fit(data, max(n, 1)) if need else b""
        line = "ea %d %d %d %d %s" % (c, slot, hslot, kind, hx(d) if need and n else "-")
        ok = tag is not None and not (tag.attr & A_VIRT) and h.size > 0
        if ok and tag.queue is not None:
            ok = kind == EV_WRITE and h.byte == 0 and h.size == tag.qsize
        elif ok:
            ok = self.in_range(tag, h.byte, h.size)
        if ok:
            ht = h.type
            if kind in (EV_WRITE, EV_CHANGE, EV_DEL):
                pass
            elif kind in (EV_SET, EV_RESET):
                ok = ht == BOOL
            elif kind == EV_EQ:
                ok = ht not in (BOOL, REAL, LREAL) and not ht & CUSTOM
            elif kind in (EV_GT, EV_LT, EV_DB):
                ok = ht != BOOL and not ht & CUSTOM
            else:
                ok = False
        what = "adding event type %d on %s " % (kind, self._hname(h))
        if not ok:
            return [line], self._rc(ERR, what)
        ev = Event(c, slot, h, kind, d, tag, tag.nextevent)
        tag.nextevent += 1
        tag.events.append(ev)
        self.e[slot] = ev
        self.stat["events"] = self.stat.get("events", 0) + 1
        want = "0 %d " % h.index
        return [line], lambda a: None if a[0].startswith(want) else "%sgave '%s'" % (what, a[0])

    def _ev_live(self, ev):
        tag = self.get(ev.h.index)
        return tag is not None and ev in tag.events

    def op_ed(self, c, slot):
        if not self._live(c) or slot not in self.e:
            return None
        ev = self.e[slot]
        line = "ed %d %d" % (c, slot)
        if not self._ev_live(ev) or ev.c != c:
            return [line], self._rc(ERR, "deletion of event that is not ours or not there ")
        self.get(ev.h.index).events.remove(ev)
        # a message that is already waiting in the client will not find its callback any more
        cl = self.clients[c]
        cl["pending"] = [(s, "gone" if s == slot else how, d) for s, how, d in cl["pending"]]
        return [line], lambda a: None if a[0] == "0 1" else "deletion of event answered '%s', should be '0 1' (released once)" % a[0]

    def op_eo(self, c, slot, opt):
        if not self._live(c) or slot not in self.e:
            return None
        ev = self.e[slot]
        line = "eo %d %d %d" % (c, slot, opt)
        if not self._ev_live(ev) or ev.c != c:
            return [line], self._rc(ERR, "options of event that is not ours or not there ")
        ev.opt = opt
        return [line], self._rc(0, "event options ")

    def op_edx(self, c, ref, eid):
        """deletion by an identity that does not exist"""
        r = self._ref(ref)
        if not self._live(c) or r is None:
            return None
        tag = self.get(r[1])
        if tag is not None and any(e.id == eid for e in tag.events):
            return None
        return ["edx %d %s %d" % (c, r[0], eid)], self._rc(ERR, "deletion of unknown event ")

    def op_ep(self, c):
        if not self._live(c):
            return None
        cl = self.clients[c]
        pend, cl["pending"] = cl["pending"], []
        line = "ep %d" % c
        self.stat["polls"] = self.stat.get("polls", 0) + 1

        def chk(a):
            p = a[0].split(" ")
            if p[0] != "0":
                return "event poll: read failed with %s" % p[0]
            got = {}
            nerr = 0
            for x in p[1:]:
                if not x:
                    continue
                if x.startswith("err"):
                    nerr += 1
                    continue
                s, n, d = x[1:].split(":")
                got.setdefault(int(s), []).append((int(n), None if d == "-" else bytes.fromhex(d)))
            gone = sum(1 for x in pend if x[1] == "gone")
            if nerr > gone:
                return "%d event messages without a registered event" % nerr
            if len(pend) > self.MAXQ:
                return self._lenient(pend, got)
            for s in set(got) | set(x[0] for x in pend):
                r = self._match(s, [x for x in pend if x[0] == s and x[1] != "gone"], got.get(s, []))
                if r:
                    return r
            return None
        return [line], chk

    @staticmethod
    def _lenient(pend, got):
        for s, lst in got.items():
            if len(lst) > sum(1 for x in pend if x[0] == s):
                return "event %d was delivered %d times, at most %d expected" % (s, len(lst), sum(1 for x in pend if x[0] == s))
        return None

    @staticmethod
    def _match(s, pend, got):
        def same(p, g):
            if p[2] is None:
                return g[0] <= 0
            if isinstance(p[2], tuple):
                return g[0] == len(p[2][0]) and norm(p[2][1], g[1]) == p[2][0]
            return g[0] == len(p[2]) and g[1] == p[2]
        # dynamic programming over optional deliveries
        ok = {0}
        for p in pend:
            nxt = set()
            for i in ok:
                if p[1] == "maybe":
                    nxt.add(i)
                if i < len(got) and same(p, got[i]):
                    nxt.add(i + 1)
            ok = nxt
        if len(got) in ok:
            return None
        return "event %d: delivered %s, expected %s" % (
            s, ["%d:%s" % (n, "-" if d is None else d.hex()[:64]) for n, d in got],
            ["%s:%s" % (how, "-" if d is None else (d[0] if isinstance(d, tuple) else d).hex()[:64]) for _, how, d in pend])

    # --- mappings
    def map_ok(self, s, d):
        st, dt = self.get(s.index), self.get(d.index)
        if st is None or dt is None:
            return False
        for t, h in ((st, s), (dt, d)):
            if t.queue is not None or t.attr & A_VIRT or not self.in_range(t, h.byte, h.size) or h.size == 0:
                return False
        return not dt.attr & A_RO and s.size <= d.size

    def op_ma(self, c, slot, hs, hd):
        if not self._live(c) or hs not in self.h or hd not in self.h:
            return None
        s, d = self.h[hs], self.h[hd]
        line = "ma %d %d %d %d" % (c, slot, hs, hd)
        what = "mapping %s to %s " % (self._hname(s), self._hname(d))
        if not self.map_ok(s, d):
            return [line], self._rc(ERR, what)
        st = self.get(s.index)
        for mp in st.maps:
            if mp["src"].tup() == s.tup() and mp["dst"].tup() == d.tup():
                self.m[slot] = mp
                break
        else:
            mp = dict(src=s, dst=d, id=st.nextmap)
            st.nextmap += 1
            st.maps.append(mp)
            self.m[slot] = mp
            self.stat["maps"] = self.stat.get("maps", 0) + 1
        want = "0 %d " % s.index
        return [line], lambda a: None if a[0].startswith(want) else "%sgave '%s'" % (what, a[0])

    def _map_live(self, mp):
        st = self.get(mp["src"].index)
        return st is not None and mp in st.maps

    def op_md(self, c, slot):
        if not self._live(c) or slot not in self.m:
            return None
        mp = self.m[slot]
        line = "md %d %d" % (c, slot)
        if not self._map_live(mp):
            return [line], self._rc(ERR, "deletion of a mapping that is gone ")
        dead = self.get(mp["dst"].index) is None
        self.get(mp["src"].index).maps.remove(mp)
        return [line], self._rc(None if dead else 0, "deletion of mapping ")

    def op_mg(self, c, slot):
        if not self._live(c) or slot not in self.m:
            return None
        mp = self.m[slot]
        line = "mg %d %d" % (c, slot)
        if not self._map_live(mp):
            return [line], self._rc(ERR, "query of a mapping that is gone ")
        if self.get(mp["dst"].index) is None:
            return [line], lambda a: None
        want = "0 %s %s" % (mp["src"].text().replace(" ", ","), mp["dst"].text().replace(" ", ","))
        return [line], lambda a: None if a[0] == want else "mapping query gave '%s', should be '%s'" % (a[0], want)

    # --- groups
    def op_ga(self, c, slot, hslots):
        if not self._live(c) or any(x not in self.h for x in hslots) or not hslots or slot in self.g:
            return None
        hs = [self.h[x] for x in hslots]
        line = "ga %d %d %s" % (c, slot, " ".join(str(x) for x in hslots))
        total = sum(h.size for h in hs)
        if len(hs) > 150 or total > 4084:
            return [line], self._rc(ERR, "too large group ")
        if self.clients[c]["groups"] >= 4096:
            return [line], self._rc(ERR, "too many groups ")
        self.clients[c]["groups"] += 1
        self.g[slot] = dict(c=c, hs=hs, size=total)
        self.stat["groups"] = self.stat.get("groups", 0) + 1
        want = "0 %d" % total
        return [line], lambda a: None if a[0] == want else "adding group gave '%s', should be '%s'" % (a[0], want)

    def op_gr(self, c, slot):
        if not self._live(c) or slot not in self.g or self.g[slot]["c"] != c:
            return None
        g = self.g[slot]
        line = "gr %d %d" % (c, slot)
        out = b""
        vague = False
        for h in g["hs"]:
            r = self.srv_read(c, h.index, h.byte, h.size)
            if r is ERR:
                return [line], self._rc(ERR, "group read with unreadable member ")
            t = self.get(h.index)
            vague |= t.name in ("_time", "_starttime", "_dbsize") or t.name in DESCT or t.special is not None
            out += h.extract(r)
        self.stat["greads"] = self.stat.get("greads", 0) + 1
        if vague:
            return [line], self._rc(0, "group read ")
        return [line], self._data(out, "group read of %d members" % len(g["hs"]))

    def op_gw(self, c, slot, data):
        if not self._live(c) or slot not in self.g or self.g[slot]["c"] != c:
            return None
        g = self.g[slot]
        d = self._fit(data, g["size"])
        line = "gw %d %d %s" % (c, slot, hx(d))
        off, res = 0, 0
        self.stat["gwrites"] = self.stat.get("gwrites", 0) + 1
        for h in g["hs"]:
            part = d[off:off + h.size]
            tag = self.get(h.index)
            if tag is None or not self._may_write(c, tag, h.byte, h.size):
                res = ERR
                break
            if h.type == BOOL:
                dd, mm = h.place(part)
                res = self.srv_write(c, h.index, h.byte, dd, mm)
            else:
                res = self.srv_write(c, h.index, h.byte, part)
            if res is ERR:
                break
            off += h.size
        return [line], self._rc(res, "group write ")

    def op_gd(self, c, slot):
        if not self._live(c) or slot not in self.g or self.g[slot]["c"] != c:
            return None
        del self.g[slot]
        self.clients[c]["groups"] -= 1
        return ["gd %d %d" % (c, slot)], self._rc(0, "group deletion ")

    # --- compound types
    def op_ct(self, c, slot, name, members):
        if not self._live(c):
            return None
        ms = []
        toks = []
        for mn, T, cnt in members:
            tc = self.tcode(T)
            if tc is None:
                return None
            ms.append((mn, tc[0], cnt))
            toks += [hx(mn), tc[1], str(cnt)]
        line = "ct %d %d %s %s" % (c, slot, hx(name), " ".join(toks))
        r = self._cdt_check(name, ms)
        self.stat["types"] = self.stat.get("types", 0) + 1
        if r is ERR:
            def chk(a):
                return None if a[0][:1] in "nm-" else "type definition %s accepted (%s), should be refused" % (name, a[0])
            return [line], chk
        self.t[slot] = r
        want = "0 %x" % r
        return [line], lambda a: None if a[0] == want else "type definition %s gave '%s', should be '%s'" % (name, a[0], want)

    def _cdt_check(self, name, ms):
        if not NAME_RE.match(name) or len(name) > 32 or not ms:
            return ERR
        seen = set()
        bits = 0
        text = name
        for mn, mt, mc in ms:
            if not NAME_RE.match(mn) or len(mn) > 32 or mn.upper() in seen:
                return ERR
            seen.add(mn.upper())
            if self.typename(mt) is None or mc < 1 or mc > 0x7FFFFFFF:
                return ERR
            bits += mc if mt == BOOL else self.tsize(mt) * 8 * mc + 7
            if bits > 0x7FFFFFFF:
                return ERR
            text += ":%s,%s,%d" % (mn, self.typename(mt), mc)
        if len(text) + 1 > MSGDATA:
            return ERR
        old = self.find_type(name)
        if old:
            if not old & CUSTOM:
                return ERR
            n, om = self.cdts[old & ~CUSTOM]
            return old if n == name and [tuple(x) for x in om] == ms else ERR
        self.cdts.append([name, ms])
        return CUSTOM | (len(self.cdts) - 1)

    def op_s2t(self, c, name):
        if not self._live(c):
            return None
        want = "%x" % self.find_type(name) if name else "0"
        if len(name) > 32:
            want = "0"
        return ["s2t %d %s" % (c, hx(name))], lambda a: None if a[0] == want else "type '%s' resolved to %s, should be %s" % (name, a[0], want)

    def op_t2s(self, c, T):
        tc = self.tcode(T)
        if not self._live(c) or tc is None:
            return None
        n = self.typename(tc[0])
        want = "NULL" if n is None else hx(n)
        return ["t2s %d %s" % (c, tc[1])], lambda a: None if a[0] == want else "type %x is named %s, should be %s" % (tc[0], a[0], want)

    def op_sz(self, c, T):
        tc = self.tcode(T)
        if not self._live(c) or tc is None:
            return None
        n = self.tsize(tc[0])
        return ["sz %d %s" % (c, tc[1])], (self._rc(ERR, "size of unknown type ") if n is None else
                                          lambda a: None if a[0] == str(n) else "size of type %x is %s, should be %d" % (tc[0], a[0], n))

    def op_cn(self, c, T):
        tc = self.tcode(T)
        if not self._live(c) or tc is None or not tc[0] & CUSTOM or tc[0] & QUEUE:
            return None
        i = tc[0] & ~CUSTOM
        line = "cn %d %s" % (c, tc[1])
        if i >= len(self.cdts):
            return [line], self._rc(ERR, "member count of unknown type ")
        n = len(self.cdts[i][1])
        return [line], lambda a: None if a[0] == str(n) else "member count of %x is %s, should be %d" % (tc[0], a[0], n)

    def op_ci(self, c, T):
        tc = self.tcode(T)
        if not self._live(c) or tc is None or not tc[0] & CUSTOM or tc[0] & QUEUE:
            return None
        i = tc[0] & ~CUSTOM
        line = "ci %d %s" % (c, tc[1])
        if i >= len(self.cdts):
            return [line], self._rc(ERR, "iteration of unknown type ")
        want = "0" + "".join(" %s:%x:%d:%d:%d" % (hx(n), t, cnt, p // 8, p % 8) for n, t, cnt, p in self.layout(tc[0]))
        return [line], lambda a: None if a[0] == want else "members of type %s are '%s', should be '%s'" % (self.cdts[i][0], a[0], want)

    def op_cl(self, c):
        """list all types"""
        if not self._live(c):
            return None
        want = "0" + "".join(" %s:%x:0:0:0" % (hx(n), CUSTOM | i) for i, (n, _) in enumerate(self.cdts))
        return ["ci %d 0" % c], lambda a: None if a[0] == want else "list of types is '%s', should be '%s'" % (a[0], want)


def diff(got, want):
    """short text of where two hex strings differ"""
    if len(got) != len(want):
        return "%s (length %d, should be %s, length %d)" % (got[:80], len(got) // 2, want[:80], len(want) // 2)
    for i in range(0, len(got), 2):
        if got[i:i + 2] != want[i:i + 2]:
            a = max(0, i - 8)
            return "..%s.. instead of ..%s.. from byte %d on" % (got[a:i + 24], want[a:i + 24], a // 2)
    return got[:80]
