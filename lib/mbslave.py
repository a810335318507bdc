"""Simulated Modbus devices (TCP, UDP and RTU on a pseudo terminal) with scripted misbehaviour."""
import os, select, socket, struct, threading, time

TABLE = {1: "c", 2: "d", 3: "h", 4: "i", 5: "c", 6: "h", 15: "c", 16: "h"}


def crc(b):
    c = 0xFFFF
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
    return struct.pack("<H", c)


class Memory:
    """registers of one device; those that nobody has set have a value that depends on unit, table and address"""
    def __init__(self):
        self.v = {}

    def get(self, unit, tab, a):
        x = self.v.get((unit, tab, a))
        if x is None:
            h = (unit * 7919 + ord(tab) * 104729 + a * 40503 + (a >> 3) * 977) & 0xFFFFFFFF
            x = (h >> 5) & 1 if tab in "cd" else (h ^ h >> 11) & 0xFFFF
        return x

    def set(self, unit, tab, a, x):
        self.v[(unit, tab, a)] = x

    def data(self, unit, fc, reg, n):
        """what a read of n registers or coils sends"""
        t = TABLE[fc]
        if t in "cd":
            out = bytearray((n + 7) // 8)
            for k in range(n):
                if self.get(unit, t, reg + k):
                    out[k // 8] |= 1 << k % 8
            return bytes(out)
        return b"".join(struct.pack(">H", self.get(unit, t, reg + k)) for k in range(n))

    def answer(self, unit, pdu):
        """the right answer; writes are carried out"""
        fc = pdu[0]
        reg, n = struct.unpack(">HH", pdu[1:5])
        if fc in (1, 2, 3, 4):
            d = self.data(unit, fc, reg, n)
            return bytes([fc, len(d)]) + d
        t = TABLE[fc]
        if fc == 5:
            self.set(unit, t, reg, 1 if n else 0)
        elif fc == 6:
            self.set(unit, t, reg, n)
        elif fc == 15:
            for k in range(n):
                self.set(unit, t, reg + k, pdu[6 + k // 8] >> k % 8 & 1)
        else:
            for k in range(n):
                self.set(unit, t, reg + k, struct.unpack_from(">H", pdu, 6 + 2 * k)[0])
        return pdu[:5]


def poison(ans):
    """an answer with every data bit inverted"""
    if ans[0] < 5:
        return ans[:2] + bytes(x ^ 0xFF for x in ans[2:])
    return ans


def plen(buf, off):
    """length of the request PDU that starts at buf[off]; None: not known yet"""
    if len(buf) <= off:
        return None
    fc = buf[off]
    if fc in (15, 16):
        return None if len(buf) < off + 6 else 6 + buf[off + 5]
    return 5


class Line:
    """All devices that one port of the module talks to.  match(dev, unit, pdu) returns the command that the request
    belongs to or raises ValueError; log has one entry per request"""
    def __init__(self, match):
        self.match = match
        self.log = []           # [time, command, pdu, behaviour]
        self.bad = {}           # command -> (kind, arg) for every request, or [kind, arg, how many]
        self.problems = []


class Devices(threading.Thread):
    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.lock = threading.RLock()
        self.devs, self.quit = [], False
        self.rp, self.wp = os.pipe()
        self.oops = None

    def wake(self):
        os.write(self.wp, b"x")

    def add(self, dev):
        self.devs.append(dev)

    def run(self):
        try:
            while not self.quit:
                fds = [self.rp]
                with self.lock:
                    for d in self.devs:
                        fds += d.fds()
                try:
                    r, _, _ = select.select(fds, [], [], 0.5)
                except (OSError, ValueError):
                    continue
                if self.rp in r:
                    os.read(self.rp, 100)
                with self.lock:
                    for d in self.devs:
                        d.serve(r)
        except Exception as e:
            import traceback
            self.oops = traceback.format_exc()

    def close(self):
        self.quit = True
        self.wake()
        self.join(10)
        for d in self.devs:
            d.down()
        os.close(self.rp)
        os.close(self.wp)


class Device:
    def __init__(self, line, num):
        self.line, self.num, self.mem = line, num, Memory()

    def decide(self, unit, pdu):
        """(kind, arg, answer) for a request"""
        t = time.time()
        try:
            c = self.line.match(self.num, unit, pdu)
        except ValueError as e:
            self.line.problems.append(str(e))
            self.line.log.append([t, None, pdu, "?"])
            return "drop", 0, b""
        b = self.line.bad.get(c)
        kind, arg = "ok", 0
        if b is not None:
            kind, arg = b[0], b[1]
            if len(b) > 2:
                b[2] -= 1
                if b[2] <= 0:
                    del self.line.bad[c]
        if kind in ODD or kind == "ok":
            ans = self.mem.answer(unit, pdu)
        elif pdu[0] < 5:
            ans = poison(self.mem.answer(unit, pdu))
        else:
            ans = pdu[:5]
        self.line.log.append([t, c, pdu, kind])
        return kind, arg, ans


# answers that are unusual but right
ODD = {"split", "dup", "stalefirst", "closeafter"}
# answers that must not have any effect
BAD_TCP = ["drop", "stale", "unit", "fc", "excfc", "exc", "exc0", "few", "many", "short", "partial", "partclose", "hdr", "proto", "close", "rst", "garbage", "big"]
BAD_UDP = ["drop", "stale", "unit", "fc", "excfc", "exc", "exc0", "few", "many", "short", "partial", "hdr", "proto", "garbage", "big"]
BAD_RTU = ["drop", "unit", "fc", "excfc", "exc", "exc0", "few", "many", "short", "crc", "tiny", "garbage", "big"]


def mutate(kind, arg, unit, ans):
    """(unit, pdu) of a wrong answer; common to all transports"""
    fc = ans[0]
    if kind == "unit":
        unit = (unit + 1 + arg % 200) & 0xFF
    elif kind == "fc":
        fcs = [x for x in (1, 2, 3, 4, 5, 6, 15, 16) if x != fc]
        ans = bytes([fcs[arg % len(fcs)]]) + ans[1:]
    elif kind == "excfc":
        ans = bytes([0x80 | (fc ^ 1), 1 + arg % 4])
    elif kind == "exc":
        ans = bytes([0x80 | fc, 1 + arg % 11])
    elif kind == "exc0":
        ans = bytes([0x80 | fc, 0])
    elif kind == "few":
        if fc < 5:
            n = max(0, len(ans) - 2 - 1 - arg % 4)
            ans = bytes([fc, n]) + ans[2:2 + n]
        else:
            ans = ans[:1 + arg % 4]
    elif kind == "many":
        if fc < 5:
            n = min(250, len(ans) - 2 + 1 + arg % 40)
            if n == len(ans) - 2:
                n -= 1
            ans = bytes([fc, n]) + (ans[2:] + b"\x5a" * 50)[:n]
        else:
            ans = bytes([0x80 | fc, 2])
    elif kind == "short":
        # the byte count promises more than there is
        ans = ans[:max(1, len(ans) - 1 - arg % 5)]
    return unit, ans


class Net(Device):
    """TCP or UDP device"""
    def __init__(self, line, num, addr, udp=False):
        Device.__init__(self, line, num)
        self.addr, self.port, self.udp = addr, 0, udp
        self.ls, self.conns, self.last = None, {}, {}

    def up(self):
        self.ls = socket.socket(socket.AF_INET, socket.SOCK_DGRAM if self.udp else socket.SOCK_STREAM)
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.ls.bind((self.addr, self.port))
        self.port = self.ls.getsockname()[1]
        if not self.udp:
            self.ls.listen(16)
            self.ls.setblocking(False)

    def down(self):
        for s in list(self.conns):
            s.close()
        self.conns = {}
        if self.ls:
            self.ls.close()
            self.ls = None

    def fds(self):
        return ([self.ls] if self.ls else []) + list(self.conns)

    def serve(self, r):
        if self.udp:
            if self.ls in r:
                d, peer = self.ls.recvfrom(4096)
                if len(d) < 12 or len(d) != 6 + struct.unpack(">H", d[4:6])[0]:
                    self.line.problems.append("malformed request %s" % d.hex())
                    return
                self.request(None, d, peer)
            return
        if self.ls in r:
            try:
                s, _ = self.ls.accept()
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                self.conns[s] = b""
            except OSError:
                pass
        for s in list(self.conns):
            if s in r:
                try:
                    d = s.recv(4096)
                except OSError:
                    d = b""
                if not d:
                    s.close()
                    self.conns.pop(s, None)
                    continue
                self.conns[s] += d
                while s in self.conns:
                    b = self.conns[s]
                    if len(b) < 6:
                        break
                    n = struct.unpack(">H", b[4:6])[0]
                    if b[2:4] != b"\0\0" or not 2 <= n <= 254:
                        self.line.problems.append("malformed request header %s" % b[:12].hex())
                        s.close()
                        del self.conns[s]
                        break
                    if len(b) < 6 + n:
                        break
                    self.conns[s] = b[6 + n:]
                    self.request(s, b[:6 + n], None)

    def out(self, s, peer, data):
        if s is None:
            self.ls.sendto(data, peer)
        elif s in self.conns:
            try:
                s.sendall(data)
            except OSError:
                pass

    def shut(self, s, rst=False):
        if s in self.conns:
            if rst:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
            del self.conns[s]

    def request(self, s, d, peer):
        tid, unit, pdu = d[:2], d[6], d[7:]
        if len(pdu) != plen(pdu, 0):
            self.line.problems.append("the length of the request %s is wrong" % d.hex())
            return
        kind, arg, ans = self.decide(unit, pdu)
        frame = lambda t, u, a, proto=b"\0\0": t + proto + struct.pack(">H", len(a) + 1) + bytes([u]) + a
        if kind == "ok":
            self.out(s, peer, frame(tid, unit, ans))
        elif kind == "split":
            f = frame(tid, unit, ans)
            if s is None:
                self.out(s, peer, f)
            else:
                cut = 1 + arg % (len(f) - 1)
                cut2 = cut + (arg >> 8) % (len(f) - cut)
                for p in (f[:cut], f[cut:cut2], f[cut2:]):
                    if p:
                        self.out(s, peer, p)
                        time.sleep(0.003)
        elif kind == "dup":
            f = frame(tid, unit, ans)
            self.out(s, peer, f)
            self.out(s, peer, f)
        elif kind == "stalefirst":
            old = struct.pack(">H", (struct.unpack(">H", tid)[0] - 1 - arg % 3) & 0xFFFF)
            fs = [frame(old, unit, poison(ans)), frame(tid, unit, ans)]
            if s is None:
                for f in fs:
                    self.out(s, peer, f)
            else:
                self.out(s, peer, b"".join(fs))
        elif kind == "closeafter":
            self.out(s, peer, frame(tid, unit, ans))
            self.shut(s)
        elif kind == "stale":
            old = struct.pack(">H", (struct.unpack(">H", tid)[0] - 1 - arg % 3) & 0xFFFF)
            self.out(s, peer, frame(old, unit, ans))
        elif kind in ("unit", "fc", "excfc", "exc", "exc0", "few", "many", "short"):
            u, a = mutate(kind, arg, unit, ans)
            self.out(s, peer, frame(tid, u, a))
        elif kind == "partial":
            f = frame(tid, unit, ans)
            self.out(s, peer, f[:1 + arg % (len(f) - 1)])
        elif kind == "partclose":
            f = frame(tid, unit, ans)
            self.out(s, peer, f[:1 + arg % (len(f) - 1)])
            self.shut(s)
        elif kind == "hdr":
            n = [0, 1, 255, 256, 300, 1000, 65535][arg % 7]
            self.out(s, peer, tid + b"\0\0" + struct.pack(">H", n) + bytes([unit]) + ans + b"\xa5" * (arg % 50))
        elif kind == "proto":
            self.out(s, peer, frame(tid, unit, ans, b"\0\x01" if arg % 2 else b"\x01\0"))
        elif kind == "close":
            self.shut(s)
        elif kind == "rst":
            self.shut(s, True)
        elif kind == "garbage":
            self.out(s, peer, bytes((arg * (k + 3) + k * k) & 0xFF for k in range(1 + arg % 300)))
        elif kind == "big":
            self.out(s, peer, tid + b"\0\0" + struct.pack(">H", 3 + 1000 + arg % 500) + bytes([unit, ans[0], 255]) + b"\xc3" * (1000 + arg % 500))


class Rtu(Device):
    def __init__(self, line, num, master):
        Device.__init__(self, line, num)
        self.fd, self.buf, self.t = master, b"", 0
        self.udp = False

    def fds(self):
        return [self.fd]

    def up(self):
        pass

    def down(self):
        pass

    def serve(self, r):
        if self.fd not in r:
            return
        try:
            d = os.read(self.fd, 4096)
        except OSError:
            return
        if time.time() - self.t > 0.03:
            self.buf = b""
        self.t = time.time()
        self.buf += d
        n = plen(self.buf, 1)
        if n is None or len(self.buf) < n + 3:
            if len(self.buf) > 300:
                self.line.problems.append("no request in %s" % self.buf.hex())
                self.buf = b""
            return
        f, self.buf = self.buf, b""
        if len(f) != n + 3 or crc(f[:-2]) != f[-2:]:
            self.line.problems.append("malformed request %s" % f.hex())
            return
        unit, pdu = f[0], f[1:-2]
        kind, arg, ans = self.decide(unit, pdu)
        full = lambda u, a: bytes([u]) + a + crc(bytes([u]) + a)
        if kind == "ok" or kind in ODD:
            self.out(full(unit, ans))
        elif kind == "drop":
            pass
        elif kind == "crc":
            g = full(unit, ans)
            self.out(g[:-1] + bytes([g[-1] ^ (1 + arg % 255)]))
        elif kind == "tiny":
            self.out([bytes([unit]), bytes([unit, ans[0]]), crc(b""), bytes([unit]) + crc(bytes([unit]))][arg % 4])
        elif kind == "garbage":
            self.out(bytes((arg * (k + 3) + k * k) & 0xFF for k in range(1 + arg % 300)))
        elif kind == "big":
            self.out(b"\xc3" * (1100 + arg % 1500))
        else:
            u, a = mutate(kind, arg, unit, ans)
            self.out(full(u, a))

    def out(self, data):
        try:
            os.write(self.fd, data)
        except OSError:
            pass
