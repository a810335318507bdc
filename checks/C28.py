"""C28: the command line client does to the database what its commands say, and shows what is in it."""
import os, random, re, struct, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import harness
from engine import Check, Fail, Outcome, list_shrinks, main
from harness import Server, Died, tail
from gen import Gen, INTS
from model import (Model, Handle, ERR, BASE, BOOL, REAL, LREAL, TIME, CUSTOM, QUEUE, FMTC, base_size,
                   A_RO, A_VIRT, A_RETAIN)
from wire import Client, Refused
from C19 import C19

CONV = C19()
CHAR = BASE["CHAR"]
EVK = {"write": 2, "change": 3, "set": 4, "reset": 5, "equal": 6, "greater": 7, "less": 8, "deadband": 9, "deleted": 10}
OPS = {"inc": 1, "dec": 2, "not": 3, "or": 4, "and": 5, "nor": 6, "nand": 7, "xor": 8, "xnor": 9}
MARK = b"Usage: EXIT\n\nWill cause the program to exit\n"
PLAIN = re.compile(r"[!-~]+\Z")
LATE = 60


def fits(s):
    return PLAIN.match(s) and '"' not in s and s[0] != "~"


class Skip(Exception):
    pass


class Oracle:
    """what daxc is to do with a command: tokens -> (error expected or None, text expected or None)"""
    def __init__(self, m):
        self.m = m
        self.slot = 0
        self.session()

    def session(self):
        self.next = 0
        self.ev = {}            # place -> slot of the model

    # ---------- helpers
    def ok(self, r, yes="0"):
        if r is None:
            raise Skip()
        return r[1]([yes]) is None

    def hnd(self, s, count):
        r = self.m.resolve(s, count)
        if r is ERR:
            return None
        return r

    def put(self, h):
        self.m.h[-1] = h
        return -1

    def text(self, t, raw, i):
        if t == BOOL:
            return str(raw[i // 8] >> i % 8 & 1)
        n = base_size(t)
        raw = raw[i * n:(i + 1) * n]
        v = struct.unpack(FMTC[t], raw)[0]
        if t == TIME:
            if not 0 <= v < 253402300799999:
                raise Skip()
            return time.strftime("%Y-%m-%dT%H:%M:%S", time.gmtime(v // 1000)) + ".%03d" % (v % 1000)
        if t in (REAL, LREAL):
            if v != v:
                return "nan"
            a, b = ("%.8g", "%.9g") if t == REAL else ("%.16g", "%.17g")
            s = a % v
            try:
                same = struct.pack(FMTC[t], float(s)) == raw or v == 0
            except OverflowError:
                same = False
            return s if same or abs(v) == float("inf") else b % v
        return str(v)

    def chars(self, raw):
        return "".join(" " if c == 0 else chr(c) for c in raw)

    def compound(self, t, raw, ind):
        out = ""
        for n, mt, cnt, pos in self.m.layout(t):
            d = raw[pos // 8:]
            out += " " * ind + n + " "
            if mt & CUSTOM:
                out += "\n"
                for i in range(cnt):
                    out += self.compound(mt, d[i * self.m.tsize(mt):], ind + 2)
            elif mt == CHAR:
                out += self.chars(d[:cnt]) + "\n"
            elif mt == BOOL:
                out += "".join("true " if d[(pos % 8 + i) // 8] >> (pos % 8 + i) % 8 & 1 else "false " for i in range(cnt)) + "\n"
            else:
                out += "".join(self.text(mt, d, i) + " " for i in range(cnt)) + "\n"
        return out

    def line(self, t, n=None):
        a = t.attr
        return ("" if n is None else "[%3d] " % n) + "%-32s %s" % (t.name, self.m.typename(t.type)) + ("[%d]" % t.count if t.count > 1 else "") + (
            " READONLY" if a & A_RO else "") + (" VIRTUAL" if a & A_VIRT else "") + (" RETAINED" if a & A_RETAIN else "") + "\n"

    def values(self, h, vals):
        data, mask = bytes(h.size), bytes(h.size)
        for i, s in enumerate(vals[:h.count]):
            if s[0] == "~":
                continue
            v, _ = CONV.parse(h.type, s)
            if v is None:
                raise Skip()
            data = CONV.put(h.type, data, i, v)
            mask = CONV.put(h.type, mask, i, 1 if h.type == BOOL else b"\xff" * base_size(h.type))
        return data, mask

    def string(self, name, s):
        if s[:1] == '"':
            s = s[1:]
        if s[-1:] == '"':
            s = s[:-1]
        if not s:
            return None
        h = self.hnd(name, 0)
        if h is None or h.type & CUSTOM or base_size(h.type) != 1 or h.type == BOOL:
            return None
        return h, s.encode("latin1")[:h.size].ljust(h.size, b"\0")

    # ---------- commands
    def run(self, tok):
        """-> (error, text)"""
        if not tok or tok[0][0] == "#":
            return False, ""
        c = tok[0].lower()
        a = tok[1:]
        if c == "add" and a:
            return getattr(self, "add_" + a[0].lower())(a[1:])
        if c == "del" and a:
            return getattr(self, "del_" + a[0].lower())(a[1:])
        if c in ("add", "del"):
            return True, None
        if c == "list":
            return getattr(self, "list_" + a[0].lower() if a else "list_tag", lambda a: (True, ""))(a[1:])
        return getattr(self, "do_" + c, lambda a: (True, ""))(a)

    def add_tag(self, a):
        if len(a) < 2:
            return True, None
        typ = self.m.find_type(a[1])
        if not typ:
            return True, None
        n, at = 1, a[2:]
        if at and re.match(r"[+-]?\d", at[0]):
            n, at = int(at[0], 0), at[1:]
        attr = 0
        for x in at:
            if x.lower() != "retain":
                return True, None
            attr |= A_RETAIN
        if len(a[0]) > 32:
            return True, None
        r = self.m.srv_add(0, a[0], typ, n & 0xFFFFFFFF, attr)
        if r is ERR:
            return True, None
        self.m._refresh(0, r)
        return False, ("Tag Added at index %d\n" % r.idx,)

    def add_type(self, a):
        if len(a) < 4 or (len(a) - 1) % 3:
            return True, None
        ms = []
        for i in range(1, len(a), 3):
            t = self.m.find_type(a[i + 1])
            if not t:
                return True, None
            ms.append((a[i], t, int(a[i + 2], 0)))
        r = self.m._cdt_check(a[0], ms)
        return r is ERR, "" if r is not ERR else None

    def add_map(self, a):
        if len(a) < 4:
            return True, None
        s, d = self.hnd(a[0], int(a[1])), self.hnd(a[2], int(a[3]))
        if int(a[1]) <= 0 or int(a[3]) <= 0 or s is None or d is None:
            return True, None
        self.m.h[-1], self.m.h[-2] = s, d
        self.slot += 1
        return not self.ok(self.m.op_ma(0, self.slot, -1, -2), "0 %d 1" % s.index), ""

    def add_event(self, a):
        if len(self.ev) == 64 or len(a) < 3 or a[2].lower() not in EVK:
            return True, None
        h = self.hnd(a[0], int(a[1]))
        if h is None:
            return True, None
        k = EVK[a[2].lower()]
        d = "-"
        if len(a) == 4 and not h.type & CUSTOM and h.type != BOOL:
            v, over = CONV.parse(h.type, a[3])
            if v is None or over:
                raise Skip()
            d = v.hex()
        elif k in (6, 7, 8, 9):
            return True, None
        self.slot += 1
        s = self.slot
        if not self.ok(self.m.op_ea(0, s, self.put(h), k, d), "0 %d 1" % h.index):
            return True, None
        n = next(i for i in range(1, 65) if i not in self.ev)
        self.ev[n] = s
        return False, ("OK: Event %d added\n" % n,)

    def add_override(self, a):
        if len(a) < 2:
            return True, None
        if '"' in a[1]:
            r = self.string(a[0], a[1])
            if r is None:
                return True, None
            h, d = r
        else:
            h = self.hnd(a[0], len(a) - 1)
            if h is None or h.type & CUSTOM:
                return True, None
            d = self.values(h, a[1:])[0]
        return not self.ok(self.m.op_oa(0, self.put(h), d.hex())), ""

    def _over(self, a, f):
        h = self.hnd(a[0], 0) if a else None
        if h is None:
            return True, None
        return not self.ok(f(0, self.put(h))), ""

    def del_override(self, a):
        return self._over(a, self.m.op_od)

    def do_set(self, a):
        return self._over(a, self.m.op_os)

    def do_clear(self, a):
        return self._over(a, self.m.op_oc)

    def del_tag(self, a):
        if not a:
            return True, None
        t = self.m.get(int(a[0])) if a[0][0].isdigit() else self.m.byname.get(a[0])
        if t is None:
            return True, None
        return not self.ok(self.m.op_del(0, ("i", t.idx))), ""

    def del_event(self, a):
        if not a or not re.match(r"\d+\Z", a[0]) or int(a[0]) not in self.ev:
            return True, None
        s = self.ev.pop(int(a[0]))
        r = self.m.op_ed(0, s)
        return (False, "") if self.ok(r, "0 1") else (None, "")

    def list_tag(self, a):
        last = len(self.m.tags) - 1
        if self.next > last:
            self.next = 0
        if a and not a[0][0].isdigit():
            t = self.m.byname.get(a[0])
            return (True, None) if t is None else (False, self.line(t))
        if not a:
            self.next = 0
            return False, "".join(self.line(t, t.idx) for t in self.m.tags if t.alive)
        n = int(a[0], 0)
        if len(a) > 1:
            self.next, n = n, int(a[1], 0)
        out = ""
        while n > 0 and self.next <= last:
            t = self.m.get(self.next)
            if t is not None:
                out += self.line(t, self.next)
                n -= 1
            self.next += 1
        return False, out

    def list_type(self, a):
        if not a:
            return False, "".join(n + "\n" for n, _ in self.m.cdts)
        t = self.m.find_type(a[0])
        if not t:
            return True, None
        if not t & CUSTOM:
            return False, ""
        return False, "".join("%-32s  %s[%d]\n" % (n, self.m.typename(mt), c) for n, mt, c, _ in self.m.layout(t))

    def do_read(self, a):
        h = self.hnd(a[0], int(a[1], 0) if len(a) > 1 else 0) if a else None
        if h is None:
            return True, None
        r = self.m.srv_read(0, h.index, h.byte, h.size)
        if r is ERR:
            return True, None
        raw = h.extract(r)
        t = self.m.get(h.index)
        if t.sys and t.name not in ("_tagcount", "_lastindex", "_overrides_installed", "_overrides_set") or t.special is not None:
            return False, None
        try:
            if h.type & CUSTOM:
                n = self.m.tsize(h.type)
                return False, "".join(self.compound(h.type, raw[i * n:(i + 1) * n], 0) for i in range(h.count))
            if h.type == CHAR:
                return False, self.chars(raw) + "\n"
            return False, "".join(self.text(h.type, raw, i) + "\n" for i in range(h.count))
        except Skip:
            return False, None

    def do_write(self, a):
        if len(a) < 2:
            return True, None
        mask = None
        if '"' in a[1]:
            r = self.string(a[0], a[1])
            if r is None:
                return True, None
            h, d = r
        else:
            h = self.hnd(a[0], len(a) - 1)
            if h is None or h.type & CUSTOM:
                return True, None
            d, mask = self.values(h, a[1:])
            if h.type != BOOL and not any(x[0] == "~" for x in a[1:]):
                mask = None
        return self.m.handle_write(0, h, d, mask) is ERR, ""

    def do_op(self, a):
        if len(a) < 2 or a[1].lower() not in OPS:
            return True, None
        h = self.hnd(a[0], len(a) - 2)
        if h is None or h.type & CUSTOM:
            return True, None
        op = OPS[a[1].lower()]
        if len(a) > 2:
            d = self.values(h, a[2:])[0].hex()
        elif op == 3:
            d = "-"
        elif op > 3 or h.type == BOOL:
            return True, None
        else:
            d = struct.pack(FMTC[h.type], 1).hex()
        return not self.ok(self.m.op_at(0, self.put(h), op, d)), ""

    def do_poll(self, a):
        pend = self.m.clients[0]["pending"]
        self.m.clients[0]["pending"] = []
        return None if any(x[1] == "gone" for x in pend) else False, ("poll", pend, dict(self.ev))

    def do_wait(self, a):
        return None, ""

    def do_help(self, a):
        return False, None


def tokens(line):
    """quotes keep blanks together"""
    out, cur, q = [], "", False
    for i, c in enumerate(line):
        if c == '"' and not (q and line[i - 1] == "\\"):
            q = not q
        if c == " " and not q:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur] if cur else out


class Run:
    def __init__(self, b, cwd, case):
        self.b, self.cwd, self.case, self.st = b, cwd, case, {}
        self.p = None

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def launch(self, style, args, stdin=None):
        self.n = getattr(self, "n", 0) + 1
        self.out, self.err = (os.path.join(self.cwd, "%s%d" % (x, self.n)) for x in ("out", "err"))
        e = harness.env()
        e.update(HOME=self.cwd, TERM="dumb", INPUTRC="/dev/null")
        argv = [self.b.daxc, "-U", self.srv.sock, "-S", "LOCAL"] + (["-q"] if self.case["quiet"] else []) + args
        with open(self.out, "wb") as o, open(self.err, "wb") as er:
            self.p = subprocess.Popen(argv, cwd=self.cwd, stdin=stdin or subprocess.DEVNULL, stdout=o, stderr=er, env=e, start_new_session=True)

    def read(self, f):
        with open(f, "rb") as x:
            return x.read()

    def dead(self, what):
        return Fail("crash", "%s: daxc ended with %s: %s" % (what, self.p.returncode, tail(self.err, 1500)))

    def wait(self):
        try:
            self.p.wait(LATE)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            return Fail("hang", "daxc did not end after its commands; %s" % tail(self.err, 500))
        if self.p.returncode:
            return self.dead("at the end")
        return None

    # ---------- the database as the witness sees it
    def database(self, after):
        m = self.m
        for t in m.tags:
            if t.sys or t.special is not None:
                continue
            try:
                got = self.w.byindex(t.idx)
            except Refused:
                got = None
            if not t.alive:
                if got is not None:
                    return Fail("deleted", "after %r tag %d (%s) is still there" % (after, t.idx, t.name))
                continue
            if got is None:
                return Fail("missing", "after %r tag %d (%s) is not there" % (after, t.idx, t.name))
            idx, typ, cnt, attr, name = got
            if (typ, cnt, name, attr & A_RETAIN) != (t.type, t.count, t.name, t.attr & A_RETAIN):
                return Fail("tag", "after %r tag %d is %s type %x count %d attributes %x, should be %s %x %d %x" % (after, t.idx, name, typ, cnt, attr, t.name, t.type, t.count, t.attr))
            want = m.srv_read(1, t.idx, 0, t.size)
            raw = b""
            for o in range(0, t.size, 4000):
                raw += self.w.read(t.idx, o, min(4000, t.size - o))
            if raw != want:
                return Fail("data", "after %r tag %s is %s, should be %s" % (after, t.name, raw.hex(), want.hex()))
        for n in ("_tagcount", "_lastindex", "_overrides_installed", "_overrides_set"):
            t = m.byname[n]
            raw = self.w.read(t.idx, 0, 4)
            if raw != bytes(t.data):
                return Fail("data", "after %r %s is %d, should be %d" % (after, n, struct.unpack("<i", raw)[0], struct.unpack("<i", bytes(t.data))[0]))
        return None

    def witness(self, ref, data):
        h = self.m.resolve(ref, 0)
        if h is ERR or h.type & QUEUE or h.size > 2000:
            return
        d = bytes.fromhex(data)
        d = (d * (h.size // len(d) + 1))[:h.size]
        if self.m.handle_write(1, h, d) is ERR:
            return
        if h.type == BOOL:
            x, mk = h.place(d)
            self.w.mwrite(h.index, h.byte, x, mk)
        else:
            self.w.write(h.index, h.byte, d)
        self.count("writes of others")

    # ---------- one session of daxc
    def texts(self, done, cut):
        """what was printed against what should have been; done: [(line, error, text)]"""
        out = self.read(self.out).replace(b"\0", b"").replace(b"-nan", b"nan").replace(b" OVERRIDE\n", b"\n")
        out = re.sub(rb"\[daxc\] ERROR: Event received from the server is lost\. .*\n", b"", out)
        err = self.read(self.err)
        outs = out.split(MARK) if cut else [out]
        errs = re.split(rb"Unknown Command - zzz\d+\n", err) if cut else [err]
        if cut and (len(outs) != len(done) + 1 or len(errs) != len(done) + 1):
            return Fail("output", "%d commands gave %d and %d parts of output" % (len(done), len(outs) - 1, len(errs) - 1))
        for (l, e, t), o, x in zip(done, outs, errs):
            bad = bool(x.strip()) or o.startswith(b"OPPS")
            if e is True and not bad:
                return Fail("noerror", "%r was not refused, it printed %r" % (l, o[:300]))
            if e is False and bad:
                return Fail("error", "%r was refused: %r" % (l, (x or o)[:300]))
            self.count("refused" if e else "carried out")
            if isinstance(t, tuple) and t[0] == "poll":
                r = self.events(l, o, t)
                if r:
                    return r
                continue
            if isinstance(t, tuple):
                t = "" if self.case["quiet"] else t[0]
            if t is None or e is None:
                continue
            self.count("outputs compared")
            if o != t.encode("latin1"):
                return Fail("text", "%r printed %r, should be %r" % (l, o.decode("latin1")[:1500], t[:1500]))
        return None

    def events(self, l, o, t):
        _, pend, ev = t
        if any(x[1] == "gone" for x in pend):
            return None
        rx = rb"(\d+)\n" if self.case["quiet"] else rb"Event (\d+) Received\n"
        got = [int(x) for x in re.findall(rx, o)]
        if re.sub(rx, b"", o):
            return Fail("events", "%r printed %r" % (l, o))
        for n in set(got) | set(ev):
            s = ev.get(n)
            hi = sum(1 for x in pend if x[0] == s)
            lo = sum(1 for x in pend if x[0] == s and x[1] != "maybe")
            if len(pend) > Model.MAXQ:
                lo = 0
            if s is None or not lo <= got.count(n) <= hi:
                return Fail("events", "%r reported event %d %d times, should be %d (at most %d)" % (l, n, got.count(n), lo, hi))
        self.count("events", len(got))
        return None

    def session(self, ses):
        m, orc = self.m, self.orc
        style = ses["style"]
        lines, ops = [], []
        for o in ses["ops"]:
            if style != "x" and o[0] == "C" and o[1].strip().lower() == "poll":
                ops.append(["C", "read _tagcount"])     # what the server sent before its answer is there when it is
            ops.append(o)
        m.op_connect(0, "daxc")
        orc.session()
        done = []
        fail = None

        def judge(l):
            """-> False when nothing is promised for this command"""
            tok = tokens(l)
            try:
                e, t = (False, "") if l[:1] == "#" else orc.run(tok)
            except Skip:
                return False
            done.append((l, e, t))
            return True

        if style == "pipe":
            ff = os.path.join(self.cwd, "fifo%d" % getattr(self, "n", 0))
            os.mkfifo(ff)
            fd = os.open(ff, os.O_RDWR)
            self.launch(style, [ff])
            try:
                pos = 0
                for o in ops:
                    if o[0] == "W":
                        self.witness(o[1], o[2])
                        continue
                    if not judge(o[1]):
                        continue
                    k = len(done)
                    os.write(fd, (o[1] + "\nhelp exit\nzzz%d\n" % k).encode("latin1"))
                    end = time.time() + LATE
                    want = b"Unknown Command - zzz%d\n" % k
                    while want not in self.read(self.err)[pos:]:
                        if self.p.poll() is not None:
                            self.srv.check()
                            return self.dead("after %r" % o[1])
                        if time.time() > end:
                            return Fail("hang", "%r is not finished" % o[1])
                        time.sleep(0.0005)
                    pos = max(0, len(self.read(self.err)) - 200)
                    fail = self.database(o[1])
                    if fail:
                        break
            finally:
                os.close(fd)
            f2 = self.wait()
            return self.texts(done, True) or fail or f2
        for o in ops:
            if o[0] == "W":
                continue
            if style == "stdin" and not o[1].strip():
                continue
            if judge(o[1]):
                lines.append(o[1])
        if not lines:
            m.op_disc(0)
            return None
        cut = True
        if style == "x":
            lines, cut = lines[:1], False
            self.launch(style, ["-x", lines[0]])
        else:
            full = []
            for i, l in enumerate(lines):
                full += [l, "help exit", "zzz%d" % i]
            x = []
            if style == "xfile":
                x, full = ["-x", full[0]], full[1:]
            text = "\n".join(full) + ("\n" if ses.get("nl", True) else "")
            fn = os.path.join(self.cwd, "cmd%d" % getattr(self, "n", 0))
            with open(fn, "wb") as f:
                f.write(text.encode("latin1"))
            if style == "stdin":
                with open(fn, "rb") as f:
                    self.launch(style, x, stdin=f)
            else:
                self.launch(style, x + [fn])
        fail = self.wait()
        if fail:
            self.srv.check()
            return fail
        if style == "stdin":
            # readline mixes prompts and what it reads into the output
            done = [(l, e, None) for l, e, t in done]
            with open(self.out, "wb") as f:
                f.write(MARK * len(done))
        fail = self.texts(done, cut)
        self.ended()
        return fail or self.database("; ".join(lines)[-600:])

    def go(self):
        self.srv = Server(self.b, self.cwd)
        try:
            self.m = Model()
            self.w = Client(self.srv, "wit")
            self.m.op_connect(1, "wit")
            self.orc = Oracle(self.m)
            for ses in self.case["sessions"]:
                if ses["style"] == "x":
                    parts = [dict(style="x", ops=[o]) for o in ses["ops"] if o[0] != "W"]
                else:
                    parts = [ses]
                for s in parts:
                    f = self.session(s)
                    if f:
                        return f
                    self.ended()
                    self.count("sessions " + s["style"])
            return None
        finally:
            for p in (self.p,):
                if p is not None and p.poll() is None:
                    p.kill()
                    p.wait()
            self.srv.stop()

    def ended(self):
        """the server has noticed that the session ended"""
        if 0 in self.m.clients:
            self.m.op_disc(0)
        end = time.time() + LATE
        while time.time() < end:
            try:
                self.w.get("_mdaxc")
            except Refused:
                return
            time.sleep(0.001)
        raise Died("the server did not notice the end of daxc")


class C28(Check):
    prop = "C28"
    technique = "property-based testing: generated command scripts for the real daxc against a reference model of the database"
    rule = ("each case starts a tag server and runs daxc sessions of up to 40 generated commands (add and del of tags, types, "
            "events, maps and overrides, write, read, op, set, clear, list, poll, malformed and unknown commands, comments, blank lines, "
            "repeated blanks, strings, long lines) through a pipe line by line, a file with or without a final newline, "
            "-x, -x with a file, or the standard input; a second client reads all tags (types, attributes, data) and compares "
            "them with a model after each command (pipe) or session, what the commands print and which are refused is compared with "
            "the model as well. Non-trivial: at least 6 commands carried out and 3 outputs compared.")
    note = ("Level: search over generated command scripts for the real program against the real server; not exhaustive. Commands whose "
            "answers depend on time or on the terminal (readline, watch) are not generated.")
    quick = 5000
    thorough = 60000
    workers = 8

    def gen(self, rng, i, tier):
        g = Gen(rng)
        r = rng
        m = g.m
        case = dict(quiet=r.random() < 0.5, sessions=[])
        m.op_connect(1, "wit")
        orc = Oracle(m)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            style = r.choice(["pipe", "pipe", "pipe", "file", "file", "x", "xfile", "stdin"])
            ses = dict(style=style, ops=[], nl=r.random() < 0.7)
            m.op_connect(0, "daxc")
            orc.session()
            n = r.randrange(3, 9) if style == "x" else r.randrange(10, 41)
            self.many = style != "x" and r.random() < 0.012  # more events than there are places for
            if self.many:
                n = r.randrange(90, 130)
            tries = 0
            while len(ses["ops"]) < n and tries < 500:
                tries += 1
                if len(m.clients[0]["pending"]) > 5:
                    o = ["C", "poll"]
                elif style == "pipe" and r.random() < 0.12 and g.usertags():
                    t = g.pick(g.usertags())
                    s, _ = g.ref(t)
                    h = m.resolve(s, 0)
                    if h is ERR or h.size > 2000:
                        continue
                    o = ["W", s, g.data(h).hex()]
                    m.handle_write(1, h, bytes.fromhex(o[2]))
                    ses["ops"].append(o)
                    continue
                else:
                    t = self.command(g, r, m, orc, style)
                    if t is None:
                        continue
                    o = ["C", t]
                try:
                    if o[1][:1] != "#":
                        orc.run(tokens(o[1]))
                except Skip:
                    continue
                ses["ops"].append(o)
                if style == "x":
                    m.op_disc(0)
                    m.op_connect(0, "daxc")
                    orc.session()
            m.op_disc(0)
            case["sessions"].append(ses)
        return case

    def val(self, g, t):
        for _ in range(50):
            if t in (REAL, LREAL) and g.r.random() < 0.6:
                s = repr(round(g.r.uniform(-1e6, 1e6), g.r.randrange(6)))
            else:
                s = CONV.text(g, t)
            if s and fits(s) and CONV.parse(t, s)[0] is not None:
                if t == TIME and not 0 <= struct.unpack("<q", CONV.parse(t, s)[0])[0] < 253402300799999:
                    continue
                return s
        return "1"

    def command(self, g, r, m, orc, style):
        ts = g.usertags()
        name = None
        k = g.wpick({"tag": 14 if len(ts) < 6 else 4, "type": 4 if len(m.cdts) < 6 else 1, "write": 22, "read": 14, "op": 12, "list": 6,
                     "over": 5, "deltag": 3, "map": 3, "event": 6, "poll": 3, "delevent": 3, "bad": 8, "blank": 3, "string": 3})
        if self.many and ts and r.random() < 0.8:
            k = "event"
        t = self.make(k, g, r, m, orc, style, ts)
        if t is None:
            return None
        if k in ("blank", "bad"):
            return " ".join(t)
        t[0] = r.choice([t[0], t[0], t[0].upper(), t[0].capitalize()])
        s = t[0]
        for x in t[1:]:
            s += (" " if r.random() < 0.9 else " " * r.randrange(2, 5)) + x
        if r.random() < 0.06:
            s = " " * r.randrange(1, 4) + s
        if r.random() < 0.06:
            s += " " * r.randrange(1, 4)
        return s

    def ref(self, g, r, m, ts, types=None):
        """-> reference, model handle for count 0"""
        if not ts:
            return None, None
        for _ in range(8):
            s, n = g.ref(g.pick(ts))
            h = m.resolve(s, n)
            if h is ERR or h.size > 1500:
                continue
            if r.random() < 0.05:
                s, _ = g.badref(g.pick(ts))
                if not fits(s):
                    continue
            return s, h
        return None, None

    def make(self, k, g, r, m, orc, style, ts):
        if k == "tag":
            T = m.typename(m.tcode(g.T(0))[0])
            if len(m.cdts) > 2 and r.random() < 0.3:
                T = r.choice(m.cdts[2:])[0]
            n = g.count("BOOL" if T == "BOOL" else "INT")
            nm = g.name() if r.random() < 0.95 or not ts else g.pick(ts).name
            if r.random() < 0.05:
                nm = r.choice(["9x", "a.b", "_x", "a-b", "x" * 33, "a[1]", "_tagcount"])
            if r.random() < 0.03:
                T = r.choice(["integer", "BOO", "BOOLS", "x"])
            if T.upper() in BASE and r.random() < 0.3:
                T = T.lower()
            t = ["add", "tag", nm, T]
            if n > 1 or r.random() < 0.5:
                t.append(str(n) if r.random() < 0.97 or T.upper() == "BOOL" else "-%d" % n)
            if r.random() < 0.15:
                t.append(r.choice(["retain", "RETAIN"]))
            elif r.random() < 0.03 and len(t) == 4:
                t.append("retian")
            return t
        if k == "type":
            t = ["add", "type", r.choice(["Ty", "ty_", "Zz"]) + str(len(m.cdts)) if r.random() < 0.9 else r.choice(["INT", "9a", m.cdts[-1][0]])]
            size = 0
            for i in range(r.randrange(1, 6)):
                T = r.choice(["BOOL"] + INTS + ["REAL", "LREAL", "CHAR", "BOOL"])
                if len(m.cdts) > 2 and r.random() < 0.3:
                    T = r.choice(m.cdts[2:])[0]
                n = r.choice([1, 1, 2, 3, 9 if T == "BOOL" else 4])
                size += m.tsize(m.find_type(T)) * n
                if r.random() < 0.04:
                    T = r.choice(["nope", "BOO"])
                if r.random() < 0.03:
                    n = 0
                mn = "m%d" % i
                if r.random() < 0.03:
                    mn = r.choice(["m0", "1x", "M0"])
                t += [mn, T, str(n)]
            if size > 300:
                return None
            if r.random() < 0.05:
                t.pop()
            return t
        if k == "string":
            if r.random() < 0.3:
                s, h = self.ref(g, r, m, [x for x in ts if x.type & CUSTOM])
            else:
                s, h = self.ref(g, r, m, [x for x in ts if x.type in (CHAR, BASE["BYTE"], BASE["SINT"]) or r.random() < 0.1])
            if s is None:
                return None
            n = r.choice([0, 1, 2, 5, 8, 20, 40])
            x = "".join(r.choice("abc XYZ 019 #~.,") for _ in range(n))
            return [r.choice(["write", "write", "add override"]), s, '"' + x + ('"' if r.random() < 0.9 else "")]
        if k == "write":
            s, h = self.ref(g, r, m, ts)
            if s is None:
                return None
            if h.type & CUSTOM:
                return ["write", s, "1"]
            n = h.count if r.random() < 0.6 else r.randrange(1, h.count + 1)
            if r.random() < 0.05:
                n += r.randrange(1, 3)
            v = [self.val(g, h.type) if r.random() < 0.9 else "~" for _ in range(n)]
            return ["write", s] + v
        if k == "read":
            if r.random() < 0.1:
                return ["read", r.choice(["_tagcount", "_lastindex", "_overrides_installed", "_starttime", "_dbsize", "_nothing", "_lastmodule"])]
            s, h = self.ref(g, r, m, ts)
            if s is None:
                return None
            if r.random() < 0.4:
                return ["read", s, str(r.choice([0, 1, h.count, r.randrange(1, h.count + 1), h.count + 1]))]
            return ["read", s]
        if k == "op":
            s, h = self.ref(g, r, m, ts)
            if s is None or h.type & CUSTOM and r.random() < 0.8:
                return None
            op = r.choice(list(OPS))
            if h.type == BOOL and op in ("inc", "dec") and r.random() < 0.8:
                op = "xnor"
            if r.random() < 0.03:
                op = r.choice(["foo", "add"])
            t = ["op", s, r.choice([op, op.upper()])]
            if op in ("inc", "dec"):
                if r.random() < 0.5:
                    return t
                n = 1 if r.random() < 0.9 else 2
            elif op == "not" and r.random() < 0.6:
                return t
            else:
                n = h.count if r.random() < 0.6 else r.randrange(1, h.count + 1)
            if h.type & CUSTOM:
                return t + ["1"]
            if r.random() < 0.06:
                return t
            return t + [self.val(g, h.type) if r.random() < 0.93 else "~" for _ in range(n)]
        if k == "list":
            q = r.randrange(8)
            last = len(m.tags)
            if q < 2:
                return ["list", "tag", str(r.choice([1, 2, 3, 5, last - 1, last]))]
            if q == 2:
                return ["list", "tag", str(r.randrange(last)), str(r.choice([0, 1, 2, 5, last]))]
            if q == 3:
                return ["list"] if r.random() < 0.5 else ["list", "tag"]
            if q == 4:
                return ["list", "tag", g.pick(ts).name] if ts and r.random() < 0.8 else ["list", "tag", r.choice(["_tagcount", "_time", "nope"])]
            if q == 5:
                return ["list", "type"]
            return ["list", "type", r.choice([c[0] for c in m.cdts] + ["INT", "nope"])]
        if k == "over":
            s, h = self.ref(g, r, m, ts)
            if s is None:
                return None
            q = r.randrange(6)
            if q < 2:
                if h.type & CUSTOM:
                    return ["add", "override", s, "1"]
                n = h.count if r.random() < 0.6 else r.randrange(1, h.count + 1)
                return ["add", "override", s] + [self.val(g, h.type) for _ in range(n)]
            if r.random() < 0.15:
                return [["set", "nope"], ["clear", "nope"], ["del", "override", "nope"]][r.randrange(3)]
            o = [t for t in ts if t.odata is not None]
            if o and r.random() < 0.8:
                s = g.ref(g.pick(o))[0]
            return [["set", s], ["set", s], ["clear", s], ["del", "override", s]][q - 2]
        if k == "deltag":
            if not ts:
                return None
            t = g.pick(ts)
            x = t.name if r.random() < 0.5 else str(t.idx)
            if r.random() < 0.2:
                x = r.choice(["nope", "_tagcount", "0", "3", "9999", str(len(m.tags))])
            return ["del", "tag", x]
        if k == "map":
            a, ha = self.ref(g, r, m, ts)
            b, hb = self.ref(g, r, m, ts)
            if a is None or b is None:
                return None
            na, nb = max(1, ha.count if r.random() < 0.7 else 1), max(1, hb.count if r.random() < 0.7 else 1)
            s, d = m.resolve(a, na), m.resolve(b, nb)
            if r.random() < 0.08:
                return ["add", "map", a, r.choice(["0", "-1"]), b, str(nb)]
            if s is ERR or d is ERR:
                return ["add", "map", a, str(na), b, str(nb)]
            if s.index == d.index:
                return None
            for x, y in g.maps:
                if g._bitoverlap(d, y) or g._overlap(d, x) or g._overlap(s, y):
                    return None
            if any(e.h.index == d.index for e in m.e.values()):
                return None
            g.maps.append((s, d))
            return ["add", "map", a, str(na), b, str(nb)]
        if k == "event":
            if style == "x":
                return None
            s, h = self.ref(g, r, m, ts)
            if s is None or not self.many and len(orc.ev) > 12 and r.random() < 0.9:
                return None
            if h.type & CUSTOM:
                kd = r.choice(["write", "change"])
            elif h.type == BOOL:
                kd = r.choice(["write", "change", "set", "reset"])
            else:
                kd = r.choice(["write", "change", "equal", "greater", "less", "deadband"])
            n = r.choice([0, 1, h.count])
            if r.random() < 0.06:
                kd = r.choice(list(EVK) + ["nope"])
            t = ["add", "event", s, str(n), r.choice([kd, kd.upper()])]
            if kd in ("equal", "greater", "less", "deadband") and h.type != BOOL and not h.type & CUSTOM and r.random() < 0.95:
                v = self.val(g, h.type)
                if kd == "deadband" and h.type != CHAR:
                    v = r.choice(["0", "1", "5", "100"])
                if h.type == CHAR:
                    v = str(r.randrange(10, 127))
                if not re.match(r"-?\d+(\.\d+)?\Z", v) or CONV.parse(h.type, v)[1]:
                    return None
                t.append(v)
            return t
        if k == "poll":
            if r.random() < 0.15 and not m.clients[0]["pending"]:
                return ["wait", "5"]
            return ["poll"]
        if k == "delevent":
            if m.clients[0]["pending"]:
                return ["poll"]
            if orc.ev and r.random() < 0.8:
                return ["del", "event", str(r.choice(list(orc.ev)))]
            return ["del", "event", r.choice(["0", "65", "64", "66", "-1", "999", "x", "63"])]
        if k == "blank":
            return [r.choice(["", " ", "   ", "# comment", "#write " + (ts[0].name if ts else "x") + " 1", "#!/usr/bin/daxc", "#"])]
        s = g.pick(ts).name if ts else "nope"
        return r.choice([["write"], ["write", s], ["write", "nope", "1"], ["read"], ["read", "nope"], ["op"], ["op", s], ["op", "nope", "inc"], ["add"],
                         ["del"], ["del", "tag"], ["add", "tag"], ["add", "tag", "q1"], ["add", "type"], ["add", "type", "T", "a"], ["set"],
                         ["clear"], ["set", "nope"], ["clear", "nope"], ["add", "override"], ["add", "override", s], ["del", "override"],
                         ["del", "override", "nope"], ["del", "event"], ["add", "event"], ["add", "event", s, "1"], ["add", "map"],
                         ["add", "map", s, "1", "nope", "1"], ["frobnicate"], ["xyzzy", s, "1"], ["help"], ["help", "write"], ["help", "nope"],
                         ["list", "nope"], ["write", s + "[99999]", "1"], ["write", s, '"'], ["write", s, '""']])

    def run(self, b, cwd, case):
        x = Run(b, cwd, case)
        try:
            f = x.go()
        except Died as e:
            f = Fail("crash", str(e))
        return Outcome(f, x.st)

    def nontrivial(self, case, stat):
        return stat.get("carried out", 0) >= 6 and stat.get("outputs compared", 0) >= 3

    def shrinks(self, case, fail):
        ss = case["sessions"]
        for k in range(len(ss)):
            if len(ss) > 1:
                yield dict(case, sessions=ss[:k] + ss[k + 1:])
        for k in range(len(ss)):
            for o in list_shrinks(ss[k]["ops"]):
                yield dict(case, sessions=ss[:k] + [dict(ss[k], ops=o)] + ss[k + 1:])


if __name__ == "__main__":
    sys.exit(main(C28()))
