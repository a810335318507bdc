"""C26: the history log holds what happened to the logged tags, in files and in SQLite."""
import datetime, glob, math, os, signal, sqlite3, struct, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle
from harness import Proc, Server, Died, tail
from wire import (Client, Refused, BOOL, BYTE, SINT, CHAR, WORD, INT, UINT, DWORD, DINT, UDINT, REAL, LWORD, LINT, ULINT, TIME, LREAL)

FMT = {BYTE: "<B", SINT: "<b", CHAR: "<b", WORD: "<H", INT: "<h", UINT: "<H", DWORD: "<I", DINT: "<i", UDINT: "<I", REAL: "<f",
       LWORD: "<Q", LINT: "<q", ULINT: "<Q", TIME: "<q", LREAL: "<d"}
CDT = "HT:a,DINT,1:f,BOOL,3:g,BOOL,7:r,REAL,2:l,LINT,1"
MEMBERS = {".a": (DINT, 0), ".f[1]": (BOOL, 33), ".g[0]": (BOOL, 35), ".g[4]": (BOOL, 39), ".g[6]": (BOOL, 41), ".r[0]": (REAL, 48), ".r[1]": (REAL, 80), ".l": (LINT, 112)}
CDTSIZE = 22
LATE = 30
EPS = 0.003
ROOM = 6            # events that may be on the way
SENT = "zz_done"


class Bad(Exception):
    pass


def value(typ, raw):
    if typ == BOOL:
        return raw[0] & 1
    return struct.unpack(FMT[typ], raw)[0]


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def differs(typ, a, b, thr):
    if typ == REAL:
        return abs(f32(a - b)) >= thr
    if typ == LREAL:
        return abs(a - b) >= thr
    return float(abs(a - b)) >= thr


def timestr(v):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=v)).strftime("%Y-%m-%dT%H:%M:%S") + ".%03d" % (v % 1000)


def same_text(typ, v, s):
    """the text of a file entry"""
    try:
        if typ == CHAR:
            return s == chr(v)
        if typ == TIME:
            return s == timestr(v)
        if typ == REAL:
            return math.isnan(v) and math.isnan(float(s)) or f32(float(s)) == v
        if typ == LREAL:
            return math.isnan(v) and math.isnan(float(s)) or float(s) == v
        return s.strip() == s and int(s) == v
    except ValueError:
        return False


def same_sql(typ, v, s):
    """the value of a column with numeric affinity"""
    try:
        if typ == CHAR:
            return str(s) == chr(v)
        if typ == TIME:
            return s == timestr(v)
        if typ in (REAL, LREAL):
            s = float(s)
            if math.isnan(v):
                return math.isnan(s)
            if math.isinf(v) or v == 0:
                return s == v
            return f32(s) == v if typ == REAL else abs(s - v) <= 4e-16 * abs(v) + 1e-323
        if v >= 1 << 63:
            return abs(s - v) <= 4096
        return isinstance(s, int) and s == v
    except (ValueError, TypeError):
        return False


class Log:
    """one logged tag"""
    def __init__(self, run, d):
        self.name, self.base, self.typ, self.pos = d["name"], d["base"], d["type"], d["pos"]     # pos in bits
        self.trig, self.thr, self.tmo = d["trig"], d["thr"], d["tmo"]
        self.size = 1 if self.typ == BOOL else struct.calcsize(FMT[self.typ])
        self.ev = []            # [kind, raw value, earliest, latest]
        self.run = run

    def now(self):
        m = self.run.mem[self.base]
        if self.typ == BOOL:
            return bytes([m[self.pos // 8] >> self.pos % 8 & 1])
        return bytes(m[self.pos // 8:self.pos // 8 + self.size])

    def hit(self, off, n):
        return off <= self.pos // 8 + self.size - 1 and off + n - 1 >= self.pos // 8


class Run:
    def __init__(self, b, cwd, case):
        self.b, self.cwd = b, cwd
        self.cfg, self.ops = case["cfg"], case["ops"]
        self.st = {}
        self.mod = self.srv = None
        self.mem, self.idx = {}, {}
        self.open_ev = []
        self.sent = 0
        self.nrot = 0

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def stop(self):
        for p in (self.mod, self.srv):
            if p is not None:
                p.stop()

    # ------------------------------------------------------------ configuration
    def config(self):
        c = self.cfg
        t = []
        if c["plugin"] == "file":
            t.append('plugin = "%s"' % os.path.join(self.b.plugins, "file", "libdhl_file.so"))
            t.append('directory = "%s"' % os.path.join(self.cwd, "hist"))
            if c["rot"]:
                t.append('rotate_tag = "%s"' % c["rot"])
        else:
            t.append('plugin = "%s"' % os.path.join(self.b.plugins, "sqlite", "libdhl_sqlite.so"))
            t.append('filename = "%s"' % os.path.join(self.cwd, "hist.db"))
            if c["purge"]:
                t.append("purge_interval = %r" % c["purge"])
        t.append("flush_interval = %r" % c["flush"])
        t.append('add_tag("%s", WRITE, 0, 0, "")' % SENT)
        for n in c["missing"]:
            t.append('add_tag("%s", CHANGE, 1, 0, "fit=STEP")' % n)
        for l in self.logs:
            t.append('add_tag("%s", %s, %r, %r, "%s")' % (l.name, l.trig, l.thr, l.tmo, "fit=LINEAR"))
        with open(os.path.join(self.cwd, "hist.conf"), "w") as f:
            f.write("\n".join(t) + "\n")

    def start(self):
        self.nstart = getattr(self, "nstart", 0) + 1
        self.t0 = time.time()
        self.base_sent = self.count_rows(SENT)
        self.mod = Proc([self.b.histlog, "-U", self.srv.sock, "-S", "LOCAL", "-N", "hist", "-C", os.path.join(self.cwd, "hist.conf")], self.cwd, "histlog%d" % self.nstart)
        if self.cfg["purge"]:
            def logs():
                if not os.path.exists(os.path.join(self.cwd, "hist.db-wal")):
                    return False
                self.sent += 1
                self.w.write(self.idx[SENT], 0, struct.pack("<i", self.sent))
                time.sleep(0.05)
                return self.last_sent() == self.sent
            self.wait(logs, "the module logs")
        else:
            self.wait(lambda: self.count_rows(SENT) >= self.base_sent + 2, "the module logs")
        t = time.time()
        for l in self.logs:
            if l.base in self.mem:
                l.ev.append(["begin", l.now(), self.t0, t])
                l.live = True
            else:
                l.live = False
        self.open_ev = []
        self.loops = time.time()

    def wait(self, cond, what, tmo=LATE):
        end = time.time() + tmo
        nap = 0.002
        while True:
            ok = cond()
            if ok:
                return ok
            if not self.mod.alive():
                raise Died("histlog died (status %s)" % self.mod.p.returncode)
            if not self.srv.alive():
                raise Died("tagserver died")
            if time.time() > end:
                raise Bad("not within %d s: %s" % (tmo, what))
            time.sleep(nap)
            nap = min(nap * 1.3, 0.05)

    # ------------------------------------------------------------ reading the log
    def files(self):
        return sorted(glob.glob(os.path.join(self.cwd, "hist", "*")), key=lambda f: float(os.path.basename(f)[4:-4]))

    def rows(self):
        """[(name, time, value or None)]; file: value is text"""
        if self.cfg["plugin"] == "file":
            out = []
            for f in self.files():
                with open(f, "rb") as fh:
                    text = fh.read().decode("latin1")
                for n, line in enumerate(text.split("\n")[:-1]):
                    p = line.split(",", 2)
                    try:
                        name, t, v = p[0], float(p[1]), p[2]
                    except (IndexError, ValueError):
                        raise Bad("line %d of %s is %r" % (n + 1, os.path.basename(f), line[:200]))
                    out.append((name, t, None if v == "NULL" else v))
            return out
        db = self.db()
        if db is None:
            return []
        try:
            return db.execute("SELECT tagname, timestamp, data FROM Data LEFT JOIN Tags ON Data.tagid = Tags.id ORDER BY Data.id").fetchall()
        finally:
            db.close()

    def db(self):
        f = os.path.join(self.cwd, "hist.db")
        if not os.path.exists(f):
            return None
        if self.mod is None or not self.mod.alive():
            return sqlite3.connect(f, timeout=10)
        return sqlite3.connect("file:%s?mode=ro" % f, uri=True, timeout=10)

    def count_rows(self, name):
        if self.cfg["plugin"] == "file":
            n = 0
            for f in self.files():
                with open(f, "rb") as fh:
                    t = fh.read()
                n += (b"\n" + t[:t.rfind(b"\n") + 1]).count(b"\n" + name.encode() + b",")
            return n
        if self.nstart == 1 and self.mod is None:
            return 0
        if self.nstart == 1 and not os.path.exists(os.path.join(self.cwd, "hist.db-wal")):
            return 0        # don't disturb the module while it sets the database up
        db = self.db()
        if db is None:
            return 0
        try:
            # rows may be purged, the identifiers go on
            return db.execute("SELECT count(*) FROM Data JOIN Tags ON Data.tagid = Tags.id WHERE tagname = ?", (name,)).fetchone()[0]
        except sqlite3.OperationalError:
            return 0
        finally:
            db.close()

    def last_sent(self):
        """the last value of the sentinel in the log"""
        if self.cfg["plugin"] == "file":
            v = None
            for f in reversed(self.files()):
                with open(f, "rb") as fh:
                    t = fh.read()
                t = b"\n" + t[:t.rfind(b"\n") + 1]
                k = t.rfind(b"\n" + SENT.encode() + b",")
                if k >= 0:
                    v = t[k + 1:].split(b"\n")[0].split(b",")[2]
                    return None if v == b"NULL" else int(v)
            return None
        db = self.db()
        if db is None:
            return None
        try:
            r = db.execute("SELECT data FROM Data JOIN Tags ON Data.tagid = Tags.id WHERE tagname = ? ORDER BY Data.id DESC LIMIT 1", (SENT,)).fetchone()
            return r[0] if r else None
        except sqlite3.OperationalError:
            return None
        finally:
            db.close()

    def barrier(self):
        """everything that was written before is in the log"""
        self.sent += 1
        self.w.write(self.idx[SENT], 0, struct.pack("<i", self.sent))
        self.wait(lambda: self.last_sent() == self.sent, "the last write is in the log")
        t = time.time()
        for e in self.open_ev:
            e[3] = t
        self.open_ev = []

    # ------------------------------------------------------------ operations
    def room(self, n):
        if len(self.open_ev) + n + 1 > ROOM:
            self.barrier()

    def written(self, base, off, n, fn):
        hits = [l for l in self.logs if l.live and l.base == base and l.hit(off, n)]
        self.room(len(hits))
        t = time.time()
        fn()
        for l in hits:
            e = ["w", l.now(), t, None]
            l.ev.append(e)
            self.open_ev.append(e)
        self.count("writes")
        self.count("events", len(hits))

    def op_w(self, base, off, data):
        d = bytes.fromhex(data)
        if base not in self.mem:
            return
        m = self.mem[base]
        off %= len(m)
        d = d[:len(m) - off]

        def do():
            m[off:off + len(d)] = d
            self.w.write(self.idx[base], off, d)
        self.written(base, off, len(d), do)

    def op_m(self, base, off, data, mask):
        d, k = bytes.fromhex(data), bytes.fromhex(mask)
        if base not in self.mem:
            return
        m = self.mem[base]
        off %= len(m)
        n = min(len(d), len(k), len(m) - off)
        d, k = d[:n], k[:n]

        def do():
            for i in range(n):
                m[off + i] = m[off + i] & ~k[i] | d[i] & k[i]
            self.w.mwrite(self.idx[base], off, d, k)
        self.written(base, off, n, do)

    def op_nap(self, ms):
        self.barrier()
        time.sleep(ms / 1000)

    def op_bar(self):
        self.barrier()

    def op_rot(self):
        if self.cfg["plugin"] != "file":
            return
        name = self.cfg["rot"] or "hist_rotate"

        def found():
            try:
                return [self.w.get(name)[0]]
            except Refused:
                return None
        i = self.wait(found, "there is a tag %s" % name)[0]
        if len(self.open_ev) > 3:
            self.barrier()
        n = len(self.files())
        self.w.write(i, 0, b"\1")
        self.wait(lambda: self.w.read(i, 0, 1)[0] & 1 == 0, "the rotate tag is reset")
        if len(self.files()) != n + 1:
            raise Bad("%d instead of %d files after the rotation" % (len(self.files()), n + 1))
        self.nrot += 1
        self.count("rotations")

    def op_late(self, k):
        """a tag appears"""
        late = [b for b in self.cfg["bases"] if b["late"] and b["name"] not in self.mem]
        if not late:
            return
        b = late[k % len(late)]
        self.barrier()
        t = time.time()
        self.create(b)
        mine = [l for l in self.logs if l.base == b["name"]]
        have = {l.name: sum(1 for e in l.ev) for l in mine}
        n0 = {l.name: self.count_rows(l.name) for l in mine}

        def all_there():
            if all(self.count_rows(l.name) >= n0[l.name] + 2 for l in mine):
                return True
            # a write makes the module look again
            if self.cfg["flush"] == 0 and not self.open_ev:
                self.barrier()
            return False
        self.wait(all_there, "the new tag %s is logged" % b["name"], 60)
        e = time.time()
        for l in mine:
            l.ev.append(["begin", l.now(), t, e])
            l.live = True
        self.count("late tags")

    def op_term(self, sig):
        """the module is stopped and started again"""
        self.barrier()
        t = time.time()
        if sig == "KILL":
            self.mod.stop(signal.SIGKILL)
        else:
            self.end(getattr(signal, "SIG" + sig))
            for l in self.logs:
                if l.live:
                    l.ev.append(["end", None, t, time.time()])
        self.count("restarts")
        self.start()

    def end(self, sig):
        self.t_term = time.time()
        os.kill(self.mod.p.pid, sig)
        try:
            self.mod.p.wait(LATE)
        except Exception:
            raise Bad("the module did not stop within %d s of a signal" % LATE)
        self.t_exit = time.time()
        if self.mod.p.returncode not in (sig, -sig):
            raise Died("histlog ended with status %s after signal %d" % (self.mod.p.returncode, sig))

    # ------------------------------------------------------------ comparison
    def judge(self):
        rows = {}
        for r in self.rows():
            rows.setdefault(r[0], []).append(r)
        known = {l.name for l in self.logs} | {SENT}
        for n in rows:
            if n not in known:
                raise Bad("the log has %d entries of %s" % (len(rows[n]), n))
        same = same_text if self.cfg["plugin"] == "file" else same_sql
        for l in self.logs:
            self.judge_tag(l, rows.get(l.name, []), same)
        s = [r[2] for r in rows.get(SENT, []) if r[2] is not None]
        self.count("rows", sum(len(x) for x in rows.values()))
        if not self.cfg["purge"]:
            want = [k for k in range(1, self.sent + 1)]
            got = [int(x) for x in s]
            # the value at each start is there too
            k = 0
            for x in got:
                if k < len(want) and x == want[k]:
                    k += 1
                elif not (k and x == want[k - 1] or k == 0 and x == 0):
                    raise Bad("the log of %s has %s" % (SENT, got[:60]))
            if k < len(want):
                raise Bad("the log of %s ends with %s, should with %d" % (SENT, got[-3:], want[-1]))

    def judge_tag(self, l, rows, same):
        """when it isn't certain whether there was a timeout then all possibilities are tried"""
        self.dec, first = [], None
        for _ in range(300):
            self.di = 0
            try:
                self.judge_one(l, rows, same)
                return
            except Bad as e:
                first = first or e
                while self.dec and self.dec[-1]:
                    self.dec.pop()
                if not self.dec:
                    raise first
                self.dec[-1] = True
        self.count("vague")

    def decide(self):
        if self.di == len(self.dec):
            self.dec.append(False)
        self.di += 1
        return self.dec[self.di - 1]

    def judge_one(self, l, rows, same):
        self.i = 0
        purge = self.cfg["purge"]
        desc = "%s (type 0x%x, %s, %r, timeout %r)" % (l.name, l.typ, l.trig, l.thr, l.tmo)

        def show():
            return "entries %s" % [(round(r[1] - self.began, 3), r[2]) for r in rows[max(0, self.i - 3):self.i + 4]]

        def expect(raw, lo, hi, why):
            """the next row"""
            if purge and lo < self.t_exit - purge + EPS:
                # it may be gone
                r = rows[self.i] if self.i < len(rows) else None
                ok = r is not None and lo - EPS <= r[1] <= hi + EPS and ((raw is None) == (r[2] is None)) and (raw is None or same(l.typ, value(l.typ, raw), r[2]))
                if hi < self.t_term - purge - EPS:
                    if ok:
                        raise Bad("%s: the entry %d (%s) should have been purged, %s" % (desc, self.i, why, show()))
                    self.count("purged")
                    return None
                if not ok:
                    return None
                self.i += 1
                return r[1]
            if self.i >= len(rows):
                raise Bad("%s: entry %d is missing (%s, %s), %s" % (desc, self.i, why, "NULL" if raw is None else value(l.typ, raw), show()))
            r = rows[self.i]
            if raw is None:
                if r[2] is not None:
                    raise Bad("%s: entry %d should be a NULL (%s), %s" % (desc, self.i, why, show()))
            elif r[2] is None or not same(l.typ, value(l.typ, raw), r[2]):
                raise Bad("%s: entry %d should be %r (%s), %s" % (desc, self.i, value(l.typ, raw), why, show()))
            if not lo - EPS <= r[1] <= hi + EPS:
                raise Bad("%s: the time of entry %d (%s) should be within %.6f and %.6f, %s" % (desc, self.i, why, lo - self.began, hi - self.began, show()))
            self.i += 1
            return r[1]

        cmpv = last = None
        pend = False
        lo = hi = 0         # when the last event was handled
        for kind, raw, a, b in l.ev:
            if kind == "begin":
                expect(None, a, b, "the log begins")
                t = expect(raw, a, b, "the value when the log begins")
                lo, hi = (t - EPS, t + EPS) if t is not None else (a, b)
                cmpv, last, pend = raw, raw, False
                continue
            if kind == "end":
                expect(None, a, b, "the module was stopped")
                continue
            if l.tmo > 0:
                must, may = a - hi > l.tmo + EPS, b - lo > l.tmo - EPS
                if may and not must:
                    must = self.decide()
                if must:
                    self.count("timeouts")
                    expect(None, a - l.tmo, b - l.tmo, "timeout")
                    t = expect(raw, a, b, "the value after a timeout")
                    lo, hi = (t - EPS, t + EPS) if t is not None else (a, b)
                    if l.trig == "CHANGE":
                        cmpv, last, pend = raw, raw, False
                    continue
            if l.trig == "WRITE":
                t = expect(raw, a, b, "written")
                lo, hi = (t - EPS, t + EPS) if t is not None else (a, b)
            elif differs(l.typ, value(l.typ, cmpv), value(l.typ, raw), l.thr):
                if pend:
                    expect(last, lo, hi, "the value before the change")
                    pend = False
                    self.count("kept")
                t = expect(raw, a, b, "changed from %r" % (value(l.typ, cmpv),))
                lo, hi = (t - EPS, t + EPS) if t is not None else (a, b)
                cmpv = raw
                self.count("changes")
            else:
                last, pend = raw, True
                lo, hi = a, b
                self.count("skipped")
        if self.i < len(rows):
            raise Bad("%s: entry %d is one too many, %s" % (desc, self.i, show()))

    # ------------------------------------------------------------ all of it
    def create(self, b):
        t = self.cdt if b["type"] == "HT" else b["type"]
        i = self.w.add(b["name"], t, b["count"])
        n = CDTSIZE * b["count"] if b["type"] == "HT" else b["count"] // 8 + 1 if t == BOOL else b["count"] * struct.calcsize(FMT[t])
        d = (bytes.fromhex(b["init"]) * (n // (len(b["init"]) // 2) + 1))[:n]
        if t == CHAR:
            d = bytes(33 + x % 94 for x in d)
        if t == TIME:
            d = b"".join(struct.pack("<q", k) for k in range(b["count"]))
        self.w.write(i, 0, d)
        self.mem[b["name"]], self.idx[b["name"]] = bytearray(d), i

    def go(self):
        if "broken" in self.cfg:
            return self.broken()
        i = -1
        self.began = time.time()
        try:
            self.srv = Server(self.b, self.cwd)
            self.w = Client(self.srv, "w")
            self.cdt = struct.unpack("I", self.w.req(13, CDT.encode() + b"\0"))[0]
            self.idx[SENT] = self.w.add(SENT, DINT)
            self.logs = [Log(self, d) for d in self.cfg["logs"]]
            for b in self.cfg["bases"]:
                if not b["late"]:
                    self.create(b)
            self.config()
            self.nstart = 0
            self.start()
            for i, op in enumerate(self.ops):
                getattr(self, "op_" + op[0])(*op[1:])
                self.count("op " + op[0])
            i = len(self.ops)
            self.barrier()
            t = time.time()
            self.end(signal.SIGTERM)
            for l in self.logs:
                if l.live:
                    l.ev.append(["end", None, t, self.t_exit])
            self.judge()
        except Bad as e:
            return self.bad(i, str(e))
        except (Died, OSError, Refused) as e:
            return self.bad(i, repr(e))
        for p in (self.mod, self.srv):
            if "AddressSanitizer" in tail(p.log):
                return Outcome(Fail("crash", "%s died: %s" % (p.name, tail(p.log))), self.st)
        return Outcome(None, self.st)

    def bad(self, i, msg):
        op = self.ops[i] if 0 <= i < len(self.ops) else ["end"] if i >= 0 else ["start"]
        for p in (self.mod, self.srv):
            if p is not None and (not settle(p) and "AddressSanitizer" in tail(p.log) or not p.alive() and p.p.returncode < 0):
                return Outcome(Fail("crash", "%s died, near operation %d %s: %s %s" % (p.name, i, str(op)[:200], msg, tail(p.log))), self.st)
        return Outcome(Fail("op:" + op[0], "operation %d %s: %s" % (i, str(op)[:300], msg), i if 0 <= i < len(self.ops) else None), self.st)

    def broken(self):
        """a configuration that can't work: the module says so and ends"""
        kind = self.cfg["broken"]
        so = os.path.join(self.b.plugins, "file", "libdhl_file.so")
        sq = os.path.join(self.b.plugins, "sqlite", "libdhl_sqlite.so")
        base = 'plugin = "%s"\ndirectory = "%s"\nflush_interval = 1\n' % (so, os.path.join(self.cwd, "hist"))
        text = {"noplugin": "flush_interval = 1\n", "wrongplugin": 'plugin = "/nonexistent/x.so"\nflush_interval = 1\n',
                "notplugin": 'plugin = "%s"\nflush_interval = 1\n' % self.b.libdax,
                "nodir": base.replace(os.path.join(self.cwd, "hist"), os.path.join(self.cwd, "no/such/dir")),
                "nodb": 'plugin = "%s"\nfilename = "%s"\nflush_interval = 1\n' % (sq, os.path.join(self.cwd, "no/such/x.db")),
                "fewargs": base + 'add_tag("a", WRITE)\n', "nilname": base + 'add_tag(nil, WRITE, 1, 1, "")\n', "nilattr": base + 'add_tag("a", WRITE, 1, 1, nil)\n',
                "tabname": base + 'add_tag({}, WRITE, 1, 1, "")\n'}[kind]
        with open(os.path.join(self.cwd, "hist.conf"), "w") as f:
            f.write(text)
        self.srv = Server(self.b, self.cwd)
        self.mod = Proc([self.b.histlog, "-U", self.srv.sock, "-S", "LOCAL", "-N", "hist", "-C", os.path.join(self.cwd, "hist.conf")], self.cwd, "histlog")
        self.count("broken " + kind)
        end = time.time() + LATE
        while self.mod.alive() and time.time() < end:
            time.sleep(0.02)
        if self.mod.alive():
            return Outcome(Fail("op:broken", "the module goes on with the configuration error %s" % kind), self.st)
        rc = self.mod.p.returncode
        if rc < 0 or rc == 99 or "AddressSanitizer" in tail(self.mod.log):
            return Outcome(Fail("crash", "histlog ended with status %d for the configuration error %s: %s" % (rc, kind, tail(self.mod.log))), self.st)
        if rc == 0:
            return Outcome(Fail("op:broken", "the module ends with success for the configuration error %s" % kind), self.st)
        return Outcome(None, self.st)


BROKEN = ["noplugin", "wrongplugin", "notplugin", "nodir", "nodb", "fewargs", "nilname", "nilattr", "tabname"]
NUM = [BYTE, SINT, WORD, INT, UINT, DWORD, DINT, UDINT, REAL, LWORD, LINT, ULINT, LREAL]


class C26(Check):
    prop = "C26"
    rule = "at least four logged events, and one of: a skipped and a logged change, a timeout, a rotation, a late tag, a restart, purged entries; or a configuration that can't work"
    quick, thorough = 480, 5000
    confirm = (3, 2)
    technique = "stateful property-based testing of the real logging module with both of its plugins: generated configurations and histories of writes, every entry of the log (value, order, time) compared with a model; shrinking"
    assumptions = ("no more than six events are on the way to the module at a time (the library keeps the last eight)",
                   "the clock of the machine isn't set while a case runs")

    def scalar(self, rng, typ, near=None, thr=1.0):
        """raw bytes of a value, sometimes close to the one before"""
        if typ == CHAR:
            return struct.pack("<b", rng.choice([rng.randrange(33, 127), ord("'"), ord('"'), ord("5"), ord("%")]))
        if typ == TIME:
            base = rng.choice([0, 1, 999, 1000, 1763500000123, rng.randrange(1 << 31), rng.randrange(1 << 33, 1 << 46), rng.randrange(-10 ** 12, 0)])
            if near is not None and rng.random() < 0.6:
                base = struct.unpack("<q", near)[0] + rng.choice([0, 1, -1, int(thr), -int(thr), int(thr) - 1, 1 << 32, -(1 << 32)])
            return struct.pack("<q", max(-10 ** 12, min(base, 1 << 46)))
        f = FMT[typ]
        n = struct.calcsize(f)
        if typ in (REAL, LREAL):
            x = rng.choice([0.0, 1.0, -1.5, 0.1, 3.14159274, 1e-30, -1e20, 123456.789, rng.uniform(-100, 100), rng.uniform(-1, 1)])
            if rng.random() < 0.06:
                x = rng.choice([math.inf, -math.inf, 3.4e38, -3.4e38, -0.0, math.nan])
            if near is not None and rng.random() < 0.6:
                x = struct.unpack(f, near)[0] + rng.choice([0, 1, -1, thr, -thr, thr * 0.999, -thr * 1.001])
            try:
                return struct.pack(f, x)
            except OverflowError:
                return struct.pack(f, 1.0)
        lo, hi = (0, (1 << 8 * n) - 1) if f[1].isupper() else (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1)
        x = rng.choice([0, 1, lo, hi, hi // 2, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(0, 20)])
        if near is not None and rng.random() < 0.65:
            t = int(min(thr, 1 << 63))
            x = struct.unpack(f, near)[0] + rng.choice([0, 1, -1, t, -t, t - 1, 1 - t, t + 1, -t - 1])
        return struct.pack(f, max(lo, min(hi, x)))

    def gen(self, rng, i, tier):
        if rng.random() < 0.04:
            return dict(cfg=dict(broken=rng.choice(BROKEN)), ops=[])
        plugin = rng.choice(["file", "sqlite"])
        cfg = dict(plugin=plugin, rot=rng.choice(["", "hr", "Rotate_It"]), purge=0, flush=rng.choice([0, 0, 0, 0, 0, 0, 0.3, 1]), missing=[], bases=[], logs=[])
        if plugin == "sqlite" and rng.random() < 0.12:
            cfg["purge"] = rng.choice([0.8, 1.5])
        if rng.random() < 0.2:
            cfg["missing"] = rng.sample(["nothere", "nothere[3]", "no.member", "b0[9999]"], rng.choice([1, 2]))
        slow = 0
        for k in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            t = "HT" if x < 0.2 else BOOL if x < 0.4 else CHAR if x < 0.45 else TIME if x < 0.55 else rng.choice(NUM)
            b = dict(name="b%d" % k, type=t, count=rng.choice([1, 1, 2, 5, 17]), late=False, init=rng.randbytes(rng.choice([1, 3, 8])).hex() if rng.random() < 0.7 else "00")
            if k and rng.random() < 0.12 and cfg["flush"] == 0 and not cfg["purge"]:
                b["late"] = True
            cfg["bases"].append(b)
            for _ in range(rng.choice([1, 1, 2, 2, 3])):
                if len(cfg["logs"]) >= 5:
                    break
                if t == "HT":
                    e = rng.randrange(b["count"])
                    mem = rng.choice(sorted(MEMBERS))
                    typ, pos = MEMBERS[mem][0], MEMBERS[mem][1] + e * CDTSIZE * 8
                    name = b["name"] + ("[%d]" % e if b["count"] > 1 else "") + mem
                else:
                    e = rng.randrange(b["count"])
                    typ, pos = t, e if t == BOOL else e * 8 * struct.calcsize(FMT[t])
                    name = b["name"] + ("[%d]" % e if e or rng.random() < 0.3 else "")
                if any(l["base"] == b["name"] and l["pos"] == pos and l["name"] == name for l in cfg["logs"]):
                    continue
                thr = rng.choice([0, 1, 1, 1, 2, 10, 0.5, 0.1, 100, 1000, 1e9, 5e9, 2.0 ** 40, 2.0 ** 62])
                tmo = rng.choice([0, 0, 0, 0, 60, 1000])
                if rng.random() < 0.15 and not cfg["purge"] and cfg["flush"] == 0:
                    tmo = rng.choice([0.4, 0.6])
                    slow = 1
                cfg["logs"].append(dict(name=name, base=b["name"], type=typ, pos=pos, trig=rng.choice(["WRITE", "CHANGE", "CHANGE"]), thr=float(thr), tmo=float(tmo)))
        ops, cur = [], {}
        by = {b["name"]: b for b in cfg["bases"]}
        for _ in range(rng.choice([3, 8, 15, 25, 40]) if cfg["flush"] == 0 else rng.choice([3, 6, 10])):
            l = rng.choice(cfg["logs"])
            b = by[l["base"]]
            x = rng.random()
            if b["late"] and x < 0.5:
                ops.append(["late", 0])
            elif x < 0.62 or x < 0.8 and l["typ" if False else "type"] in (CHAR, TIME):
                if l["type"] == BOOL:
                    # one bit
                    v = rng.getrandbits(1)
                    k = l["pos"] + rng.choice([0, 0, 0, 1, -1, 7])
                    k = max(k, 0)
                    ops.append(["m", b["name"], k // 8, "%02x" % (v << k % 8), "%02x" % (1 << k % 8)])
                else:
                    d = self.scalar(rng, l["type"], cur.get(l["name"]), l["thr"])
                    cur[l["name"]] = d
                    ops.append(["w", b["name"], l["pos"] // 8, d.hex()])
            elif x < 0.8:
                n = rng.choice([1, 2, 4, 8, 22, 40])
                off = rng.randrange(64)
                if b["type"] in (CHAR, TIME):
                    continue
                if rng.random() < 0.5:
                    ops.append(["w", b["name"], off, rng.randbytes(n).hex()])
                else:
                    ops.append(["m", b["name"], off, rng.randbytes(n).hex(), rng.randbytes(n).hex()])
            elif x < 0.86:
                ops.append(["nap", rng.choice([700, 900, 200]) if slow or cfg["purge"] else 20])
            elif x < 0.91:
                ops.append(["bar"])
            elif x < 0.96:
                ops.append(["rot"])
            elif not cfg["purge"] and sum(o[0] == "term" for o in ops) < 2:
                ops.append(["term", rng.choice(["TERM", "INT", "QUIT", "KILL"])])
        return dict(cfg=cfg, ops=ops)

    def run(self, b, cwd, case):
        r = Run(b, cwd, case)
        try:
            return r.go()
        finally:
            r.stop()

    def nontrivial(self, case, st):
        if "broken" in case["cfg"]:
            return True
        return st.get("events", 0) >= 4 and (st.get("skipped", 0) and st.get("changes", 0) or any(k in st for k in ("timeouts", "rotations", "late tags", "restarts", "purged")))

    def shrinks(self, case, fail):
        cfg, ops = case["cfg"], case["ops"]
        if "broken" in cfg:
            return
        if fail.at is not None and fail.at + 1 < len(ops):
            yield dict(cfg=cfg, ops=ops[:fail.at + 1])
        size = len(ops) // 2
        while size >= 1:
            for a in range(0, len(ops), size):
                yield dict(cfg=cfg, ops=ops[:a] + ops[a + size:])
            size //= 2
        for k in range(len(cfg["logs"])):
            yield dict(cfg=dict(cfg, logs=cfg["logs"][:k] + cfg["logs"][k + 1:]), ops=ops)
        for k, b in enumerate(cfg["bases"]):
            if not any(l["base"] == b["name"] for l in cfg["logs"]):
                yield dict(cfg=dict(cfg, bases=cfg["bases"][:k] + cfg["bases"][k + 1:]), ops=ops)
        for change in (dict(missing=[]), dict(purge=0), dict(flush=0)):
            if any(cfg[k] != v for k, v in change.items()):
                yield dict(cfg=dict(cfg, **change), ops=ops)


if __name__ == "__main__":
    sys.exit(main(C26()))
