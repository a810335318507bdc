"""C15: no input from one client can crash the server or disturb the others."""
import os, random, select, socket, struct, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle
from harness import Server, tail, frame, ASAN
from wire import Client, Refused, Closed, Silent, BYTE, DINT, BOOL

WIT = range(11, 20)                       # indexes of the witness
TYPES = [0x10, 3, 0x13, 0x23, 4, 0x14, 0x24, 5, 0x15, 0x25, 0x35, 6, 0x16, 0x26, 0x36, 0x46, 0x80000000, 0x80000001, 0x80000002, 0x80000003,
         0x80000032, 0xffffffff, 0, 0x40000005, 0x40000010, 0xc0000001, 7, 0x47, 0x100, 0x80000015]
OFFS = [0, 0, 0, 0, 1, 3, 4, 7, 8, 77, 100, 4087, 4088, 4096, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0x7ffffff8, 0x10000]
COUNTS = [0, 1, 1, 1, 2, 3, 7, 8, 9, 33, 100, 1000, 4088, 5000, 65536, 1 << 20, 1 << 29, 0x7fffffff, 0x80000000, 0xffffffff, 0x3fffffff, 0x40000000]
SZ = [0, 1, 1, 2, 4, 4, 8, 12, 40, 100, 2044, 2045, 4084, 4088, 4089, 4096, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8]
NAMES = [b"", b"a", b"b", b"tag", b"_x", b"_my_tagname", b"w_ro", b"w_q", b"x" * 31, b"x" * 32, b"x" * 33, b"x" * 200, b"9a", b"a b", b"\xff\xfe", b"a[1]", b"%s%n%n",
         b"h1", b"h2", b"h3", b"h4", b"h5", b"'", b"a');DROP TABLE tags;--"]
MEM = [b"m", b"n", b"o", b"p9", b"", b"x" * 32, b"x" * 33, b"x" * 300, b"a b", b"\x80"]
TN = [b"BOOL", b"BYTE", b"INT", b"DINT", b"LREAL", b"TIME", b"Hostile", b"WT", b"T1", b"T2", b"", b"NOPE", b"x" * 100, b"_module", b"CHAR"]


def pk(*v):
    return b"".join(struct.pack("<I", x & 0xffffffff) for x in v)


def idx(r):
    return r.choice([r.randrange(0, 12), r.randrange(11, 20), r.randrange(18, 45), r.randrange(18, 45), r.randrange(18, 45), -1, r.choice([1023, 1024, 5000, 0x7fffffff, -0x80000000])])


def hnd(r):
    return struct.pack("<IIBIII", idx(r) & 0xffffffff, r.choice(OFFS), r.choice([0, 0, 0, 1, 7, 8, 255]), r.choice(COUNTS), r.choice(SZ), r.choice(TYPES))


def good_hnd(r):
    n = r.choice([1, 4, 8])
    return struct.pack("<IIBIII", r.randrange(18, 45), 0, 0, n, n, 3)


def cdt(r):
    s = r.choice([b"T1", b"T2", b"T3", b"Hostile", b"WT", b"INT", b"", b"x" * 32, b"x" * 40, b"_t"])
    for _ in range(r.choice([0, 1, 2, 3, 10, 100])):
        s += b":" + r.choice(MEM) + r.choice([b",", b",", b",", b";", b""]) + r.choice(TN) + b"," + r.choice([b"1", b"1", b"8", b"0", b"-1", b"99999999", b"4294967295", b"2147483647", b"x", b"", b"65536"])
    if r.random() < 0.3:
        s += b":"
    return s


def payload(r, cmd):
    if cmd == 1:
        return r.choice([struct.pack(">II", r.choice([0, 1000, 0xffffffff]), r.choice([1, 1, 1, 2, 0, 0xffffffff])) + r.choice(NAMES) + b"\0", b"", b"\0" * 7])
    if cmd == 2:
        # retained tags of megabytes only cost time
        c = r.choice(COUNTS)
        a = r.choice([0, 0, 1, 2, 4, 8, 16, 32, 33, 0x1000, 0x2000, 0x4000, 0xffffffff])
        if a & 4 and c > 5000 and c < 1 << 28:
            c = 9
        return pk(r.choice(TYPES), c, a) + r.choice(NAMES + [b"h%d" % r.randrange(60)] * 8) + b"\0" * r.choice([0, 1, 1, 1])
    if cmd == 3:
        return pk(idx(r))
    if cmd == 4:
        return r.choice([b"\1" + r.choice(NAMES) + b"\0", b"\2" + pk(idx(r)), bytes([r.randrange(256)]) + r.randbytes(r.randrange(9))])
    if cmd == 6:
        return pk(idx(r), r.choice(OFFS), r.choice(SZ))
    if cmd == 7:
        return pk(idx(r), r.choice(OFFS)) + r.randbytes(r.choice([0, 1, 1, 2, 4, 4, 8, 40, 2000, 4080]))
    if cmd == 8:
        return pk(idx(r), r.choice(OFFS)) + r.randbytes(r.choice([0, 1, 2, 2, 8, 8, 16, 81, 4080]))
    if cmd == 9:
        return pk(idx(r), r.choice(OFFS), r.choice(COUNTS), r.choice(TYPES), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0x7fffffff, -1]),
                  r.choice(SZ)) + bytes([r.choice([0, 0, 1, 7, 8, 255])]) + r.randbytes(r.choice([0, 1, 4, 8, 16, 3000]))
    if cmd in (10, 16, 17):
        return pk(idx(r), r.choice([0, 1, 2, 3, 100, -1, 0x7fffffff]))
    if cmd == 12:
        return pk(idx(r), r.choice([0, 1, 2, 3, 100, -1, 0x7fffffff]), r.choice([0, 1, 1, 2, 3, 0xffffffff]))
    if cmd == 13:
        return cdt(r) + b"\0" * r.choice([0, 1])
    if cmd == 14:
        return r.choice([b"\1" + r.choice(TN), b"\2" + pk(r.choice(TYPES)), bytes([r.randrange(256)])])
    if cmd == 15:
        return (hnd(r) if r.random() < 0.4 else good_hnd(r)) + (hnd(r) if r.random() < 0.4 else good_hnd(r))
    if cmd == 18:
        n = r.choice([0, 1, 2, 5, 194, 255])
        return bytes([r.choice([n, n, n, r.randrange(256)]), 0]) + b"".join(hnd(r) if r.random() < 0.3 else good_hnd(r) for _ in range(n))
    if cmd in (19, 20):
        return pk(r.choice([0, 0, 1, 2, 15, 16, 17, 4095, 4096, -1, 0x7fffffff]))
    if cmd == 21:
        return pk(r.choice([0, 0, 1, 2, 15, 16, 17, 4095, 4096, -1, 0x7fffffff])) + r.randbytes(r.choice([0, 1, 4, 8, 100, 4084]))
    if cmd == 23:
        return pk(idx(r), r.choice(OFFS), r.choice(COUNTS), r.choice(TYPES)) + bytes([r.choice([0, 0, 1, 7, 8, 255])]) + struct.pack("<HH", r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 65535]), 0) + r.randbytes(r.choice([0, 1, 4, 8, 100]))
    if cmd == 24:
        return pk(idx(r), r.choice(OFFS), r.choice(SZ)) + r.randbytes(r.choice([0, 1, 2, 2, 8, 80, 81, 4076]))
    if cmd == 25:
        return pk(idx(r), r.choice(OFFS)) + r.randbytes(r.choice([0, 1, 2, 8, 80, 4080]))
    if cmd == 26:
        return pk(idx(r), r.choice(OFFS), r.choice(SZ))
    if cmd == 27:
        return pk(idx(r), r.choice([0, 1, 2, 255, 256, -1]))
    return r.randbytes(r.choice([0, 1, 8, 100]))


def mutate(r, f):
    f = bytearray(f)
    k = r.randrange(7)
    if k == 0:
        f = f[:r.randrange(len(f) + 1)]
    elif k == 1:
        f += r.randbytes(r.choice([1, 4, 100]))
    elif k == 2:
        for _ in range(r.choice([1, 1, 3, 10])):
            f[r.randrange(len(f))] ^= 1 << r.randrange(8)
    elif k == 3:                          # cut the payload, keep the size right
        n = r.randrange(8, len(f) + 1)
        f = f[:n]
        f[0:4] = struct.pack(">I", n)
    elif k == 4:
        f[0:4] = struct.pack(">I", r.choice([0, 1, 7, 8, 9, 12, 4095, 4096, 4097, 65536, 0x7fffffff, 0xffffffff, len(f) - 1, len(f) + 1]))
    elif k == 5:
        f[4:8] = struct.pack(">I", r.choice([0, 5, 11, 22, 28, 29, 255, 0x7fffffff, 0x80000001, 0xffffffff, r.randrange(30)]))
    else:                                 # longer payload, right size
        f += r.randbytes(r.choice([1, 3, 50]))
        f = f[:4096]
        f[0:4] = struct.pack(">I", len(f))
    return bytes(f)


class Stream:
    """what the server makes of the bytes of one connection; keeps them off the tags of the witness"""
    def __init__(self):
        self.buf = b""
        self.dead = False

    def guard(self, x):
        """the bytes that may be sent"""
        if self.dead:
            return x
        old = len(self.buf)
        s = bytearray(self.buf + x)
        p = 0
        while len(s) - p >= 8:
            n, cmd = struct.unpack(">II", s[p:p + 8])
            if n < 8 or n > 4096:
                self.dead = True
                break
            if len(s) - p < n:
                break
            # deleting, overriding and unmapping is open to everybody
            if cmd in (3, 16, 24, 25, 27) and n >= 12 and struct.unpack("<I", s[p + 8:p + 12])[0] in WIT:
                if p + 11 < old:
                    return None
                s[p + 11] |= 0x40
            p += n
        x = bytes(s[old:])
        self.buf = b"" if self.dead else bytes(s[p:])
        return x


class C15(Check):
    prop = "C15"
    technique = "generative fuzzing of the message protocol (grammar with boundary values, mutation, connection faults) against an address-sanitized server with a witness client"
    rule = ("each case opens 1-4 hostile connections (local and TCP) that send 30-150 pieces: well-formed messages of all 27 commands with "
            "boundary values in every field, mutated messages (flipped bits, wrong sizes, cut and extended payloads), pure garbage, and "
            "connections that register, half-close, reset or disappear in the middle of a message. A witness client with its own read-only tags, "
            "type, event and group works in between: every answer it gets has to be right and within 10 s, and at the end the server must "
            "be up and must not have reported a memory error. Non-trivial: at least 20 hostile messages of 8 or more commands.")
    note = ("%d cases quick, %d thorough; the server is built with AddressSanitizer and pattern-filled stack variables. Allocations over 64 MB fail. "
            "A client that never reads its answers is excluded (it blocks the server: known finding).") % (1200, 20000)
    known = [("a client that sends requests and never reads the answers blocks the server, and with it every other client, "
              "for as long as it keeps the connection (_message_send() and send_event() write to blocking sockets)", [["flood"]])]
    quick = 1200
    thorough = 20000

    def gen(self, rng, i, tier):
        acts, streams, n = [], {}, 0
        focus = rng.sample(range(1, 28), rng.choice([3, 5, 27]))
        pm = rng.choice([0, 0.05, 0.2, 0.5])

        def send(slot, data):
            data = streams[slot].guard(data)
            if data:
                acts.append(["send", slot, data.hex()])

        def opn():
            nonlocal n
            n += 1
            acts.append(["open", n, rng.random() < 0.4])
            streams[n] = Stream()
            if rng.random() < 0.85:
                send(n, frame(1, struct.pack(">II", 1000, 1) + b"hostile\0"))
            return n
        slots = [opn() for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        for _ in range(rng.choice([2, 4, 8])):
            # something valid to work on
            send(rng.choice(slots), frame(2, pk(rng.choice(TYPES[:16] + [0x80000003, 0x40000005]), rng.choice([1, 4, 8, 33, 100, 1000]), rng.choice([0, 0, 4, 1, 33]))
                                          + b"h%d\0" % rng.randrange(60)))
        for _ in range(rng.choice([30, 60, 150])):
            if not slots:
                slots = [opn()]
            k = rng.choices(["msg", "garbage", "close", "open", "part", "check", "burst", "group"], [40, 1, 1.2, 0.8, 1, 3, 1, 0.6])[0]
            s = rng.choice(slots)
            if k == "msg" or k == "burst":
                d = b""
                for _ in range(1 if k == "msg" else rng.choice([2, 5, 10])):
                    cmd = rng.choice(focus) if rng.random() < 0.8 else rng.randrange(0, 30)
                    f = frame(cmd, payload(rng, cmd)[:4088])
                    if rng.random() < pm:
                        f = mutate(rng, f)
                    d += f
                send(s, d)
            elif k == "group":
                # groups of members that exist and are as large as they may be, or a little larger
                n = rng.choice([2, 5, 6, 6, 7, 12, 150, 194])
                big = rng.choice([700, 700, 700, 699, 27, 20])
                hs = [struct.pack("<IIBIII", rng.choice([14, 14, rng.randrange(18, 45)]), 0, 0, big, big, 3) for _ in range(n)]
                if rng.random() < 0.5:
                    hs[-1] = struct.pack("<IIBIII", 14, 0, 0, 1, rng.choice([1, 4, 584, 585]), 3)
                send(s, frame(18, bytes([n, 0]) + b"".join(hs)))
                for _ in range(3):
                    send(s, frame(19, pk(rng.randrange(4))))
                    send(s, frame(20, pk(rng.randrange(4)) + rng.randbytes(rng.choice([0, 1, 700, 4000, 4084]))))
            elif k == "garbage":
                send(s, rng.choice([rng.randbytes(rng.choice([1, 7, 8, 9, 100, 5000])), b"GET / HTTP/1.0\r\n\r\n", b"\0" * 100, b"\xff" * 100]))
            elif k == "part":
                cmd = rng.randrange(1, 28)
                f = frame(cmd, payload(rng, cmd)[:4088])
                send(s, f[:rng.randrange(1, len(f))])
                if rng.random() < 0.5:
                    acts.append(["close", s, rng.choice(["fin", "rst", "half"])])
                    slots.remove(s)
            elif k == "close":
                acts.append(["close", s, rng.choice(["fin", "rst", "half", "now"])])
                slots.remove(s)
            elif k == "open":
                slots.append(opn())
            elif k == "check":
                acts.append(["check", rng.randrange(1 << 30)])
        if rng.random() < 0.02:
            acts.append(["many", rng.choice([70, 200, 600])])
        acts.append(["check", rng.randrange(1 << 30)])
        return acts

    # ------------------------------------------------------------------
    def run(self, b, cwd, case):
        srv = Server(b, cwd, extra_env={"ASAN_OPTIONS": ASAN + ":max_allocation_size_mb=64"})
        socks = {}
        self.stat = dict(msgs=0, checks=0)
        cmds = set()
        try:
            f = self.play(srv, case, socks, cmds)
        except (Closed, ConnectionError, BrokenPipeError, OSError) as e:
            f = Fail("witness", "the witness lost its connection: %s" % e)
        except Silent as e:
            f = Fail("silent", "the witness got no answer for 30 s (%s)" % e)
        except Refused as e:
            f = Fail("witness", "a request of the witness was refused with %s" % e)
        finally:
            for s in socks.values():
                s.close()
        try:
            if not settle(srv):
                f = Fail("crash", tail(srv.log))
            elif "ERROR: AddressSanitizer" in tail(srv.log):
                f = Fail("crash", tail(srv.log))
        finally:
            srv.stop()
        self.stat["cmds"] = len(cmds)
        return Outcome(f, self.stat)

    def drain(self, socks):
        while True:
            r = select.select(list(socks.values()), [], [], 0)[0] if socks else []
            if not r:
                return
            for s in r:
                try:
                    d = s.recv(1 << 16)
                except OSError:
                    d = b""
                if not d:
                    for k in [k for k, v in socks.items() if v is s]:
                        del socks[k]
                    s.close()

    def play(self, srv, case, socks, cmds):
        w = Client(srv, "wit", timeout=30)
        wt = w.cdt("WT:a,DINT,1:b,BOOL,3:c,INT,2")
        ro = w.add("w_ro", DINT, 10, 0x21)
        cu = w.add("w_cu", wt, 2, 0x21)
        by = w.add("w_by", BYTE, 700, 0x21)
        if max(ro, cu, by) not in WIT:
            raise Exception("index of the witness %d" % by)
        w.req(14, b"\1WT\0")
        self.ref = w.req(14, b"\1WT\0")
        ev = w.event(ro, 0, 0, 10, DINT, 40, 3)
        w.event_opt(ro, ev, 1)
        g = w.group([w.handle(ro, 4, 0, 2, 8, DINT), w.handle(by, 0, 0, 700, 700, BYTE)])
        state = dict(ro=bytes(40), cu=bytes(22), by=bytes(700), fresh=0)
        self.ids = dict(ro=ro, cu=cu, by=by, ev=ev, g=g)
        for a in case:
            if a[0] == "open":
                if a[2]:
                    s = socket.create_connection(("127.0.0.1", srv.port), 30)
                else:
                    s = socket.socket(socket.AF_UNIX)
                    s.settimeout(30)
                    s.connect(srv.sock)
                s.setblocking(False)
                socks[a[1]] = s
            elif a[0] == "send":
                s = socks.get(a[1])
                if s is None:
                    continue
                d = bytes.fromhex(a[2])
                self.stat["msgs"] += 1
                if len(d) >= 8:
                    cmds.add(d[4:8])
                end = time.time() + 30
                while d:
                    try:
                        d = d[s.send(d):]
                    except BlockingIOError:
                        self.drain(socks)
                        if time.time() > end or a[1] not in socks:
                            break
                        time.sleep(0.001)
                    except OSError:
                        break
                self.drain(socks)
            elif a[0] == "close":
                s = socks.pop(a[1], None)
                if s is None:
                    continue
                try:
                    if a[2] == "half":
                        s.shutdown(socket.SHUT_WR)
                        socks["h%s" % a[1]] = s
                        continue
                    if a[2] == "rst":
                        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                except OSError:
                    pass
                s.close()
            elif a[0] == "many":
                l = []
                for k in range(a[1]):
                    try:
                        s = socket.socket(socket.AF_UNIX)
                        s.settimeout(5)
                        s.connect(srv.sock)
                        if k % 3 == 0:
                            s.sendall(frame(1, struct.pack(">II", 1000, 1) + b"m%d\0" % k))
                        l.append(s)
                    except OSError:
                        break
                f = self.work(w, state, 1, wt)
                for s in l:
                    s.close()
                if f:
                    return f
            elif a[0] == "flood":
                # a client that asks and never reads the answers
                s = socks["flood"] = socket.socket(socket.AF_UNIX)
                s.connect(srv.sock)
                s.sendall(frame(1, struct.pack(">II", 1000, 1) + b"flood\0"))
                s.setblocking(False)
                t0 = time.time()
                while time.time() < t0 + 1:
                    try:
                        s.send(frame(6, pk(by, 0, 700)))
                    except BlockingIOError:
                        time.sleep(0.01)
                w.tmo = 5
                w.s.settimeout(5)
                try:
                    w.read(ro, 0, 40)
                except Silent:
                    return Fail("blocked", "the witness got no answer for 5 s")
            elif a[0] == "check":
                self.drain(socks)
                f = self.work(w, state, a[1], wt)
                if f:
                    return f
        w.close()
        return None

    def work(self, w, st, seed, wt):
        """the witness goes about its business"""
        r = random.Random(seed)
        self.stat["checks"] += 1
        t0 = time.time()
        i = self.ids
        got = w.read(i["ro"], 0, 40), w.read(i["cu"], 0, 1) + w.read(i["cu"], 1, 17), w.read(i["by"], 0, 700)
        for n, x in zip(("ro", "cu", "by"), got):
            if x != st[n][:len(x)]:
                return Fail("data", "tag w_%s of the witness changed from %s to %s" % (n, st[n].hex()[:100], x.hex()[:100]))
        if w.events or w.pending(0):
            return Fail("event", "the witness received an event without a write")
        d = r.randbytes(40)
        w.write(i["ro"], 0, d)
        if len(w.events) != 1 or w.events[0][1] != struct.pack(">II", i["ro"], i["ev"]) + d:
            return Fail("event", "a write by the witness caused events %s, expected one with the data" % [(hex(t), p.hex()) for t, p in w.events])
        w.events = []
        st["ro"] = d
        d = r.randbytes(18)
        w.write(i["cu"], 0, d)
        st["cu"] = d
        d = r.randbytes(700)
        w.mwrite(i["by"], 0, d, b"\xff" * 700)
        st["by"] = d
        if w.group_read(i["g"]) != st["ro"][4:12] + d:
            return Fail("group", "group read of the witness is wrong")
        for n, typ, cnt in (("w_ro", DINT, 10), ("w_cu", wt, 2), ("w_by", BYTE, 700)):
            x = w.get(n)
            if x[0] != i[n[2:]] or x[1] != typ or x[2] != cnt or not x[3] & 0x21 == 0x21 or x[4] != n:
                return Fail("tag", "tag %s of the witness is now %s" % (n, x))
        if w.req(14, b"\1WT\0") != self.ref or w.cdt("WT:a,DINT,1:b,BOOL,3:c,INT,2") != wt:
            return Fail("type", "the type of the witness changed")
        for k in range(11):
            w.byindex(k)
        x = w.byindex(0)
        if x[4] != "_tagcount" or w.get("_my_tagname")[1] != 0x23 or not w.read(w.get("_my_tagname")[0], 0, 33).startswith(b"_mwit\0"):
            return Fail("system", "system tags changed: %s" % (x,))
        st["fresh"] += 1
        n = "w_f%d_%d" % (st["fresh"], r.randrange(10 ** 6))
        f = w.add(n, BYTE, 16, 0x21)
        if w.read(f, 0, 16) != bytes(16):
            return Fail("fresh", "a new tag is not zero")
        w.write(f, 3, b"abc")
        if w.read(f, 0, 16) != b"\0\0\0abc" + bytes(10):
            return Fail("fresh", "a new tag does not hold what was written")
        if w.get(n)[0] != f:
            return Fail("fresh", "a new tag is not found")
        w.delete(f)
        if time.time() - t0 > 10:
            return Fail("slow", "the witness needed %.1f s for 30 requests" % (time.time() - t0))
        return None

    def sample(self, case):
        return [[a[0], a[1], a[2][:60]] if a[0] == "send" else a for a in case]

    def nontrivial(self, case, stat):
        return stat.get("msgs", 0) >= 20 and stat.get("cmds", 0) >= 8


if __name__ == "__main__":
    sys.exit(main(C15()))
