"""C22: the Modbus server (TCP server ports and RTU slave ports) against a model of the Modbus application protocol."""
import os, pty, random, select, socket, struct, sys, termios, time, tty
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle
from harness import Proc, Server, Died, tail
from wire import Client, Refused, BOOL, UINT

KINDS = "hicd"     # holding, input, coil, discrete
FC = {1: "c", 2: "d", 3: "h", 4: "i", 5: "c", 6: "h", 15: "c", 16: "h"}
FRAME = 5          # ms between the frames of a serial line


def crc(b):
    c = 0xFFFF
    for x in b:
        c ^= x
        for _ in range(8):
            c = (c >> 1) ^ 0xA001 if c & 1 else c >> 1
    return struct.pack("<H", c)


def getbits(data, off, n):
    out = bytearray((n + 7) // 8)
    for k in range(n):
        if data[(off + k) // 8] >> ((off + k) % 8) & 1:
            out[k // 8] |= 1 << k % 8
    return bytes(out)


def setbits(data, off, n, src):
    for k in range(n):
        b = src[k // 8] >> (k % 8) & 1
        i = off + k
        data[i // 8] = data[i // 8] & ~(1 << i % 8) | b << i % 8


class Model:
    def __init__(self, cfg):
        self.cfg = cfg
        self.nodes = {int(k): v for k, v in cfg["nodes"].items()}
        self.tags, self.dead = {}, set()
        for n in self.nodes.values():
            for k, (name, size) in n.items():
                self.tags[name] = (k, size, bytearray((size + 7) // 8 if k in "cd" else size * 2))
        self.log = [0, 0, 0, 0]

    def node(self, unit):
        return unit if unit in self.nodes else 0 if 0 in self.nodes else None

    def answer(self, unit, pdu):
        """list of (answer, effect): every answer that the specification allows; None as the answer means silence.
        effect: None or a function that changes the registers"""
        n = self.node(unit)
        if n is None:
            return [(None, None)]
        if not pdu:
            return [(None, None)]
        tabs = self.nodes[n]
        fc = pdu[0]
        exc = set()
        cb = self.cfg.get("cb") and n in self.cfg["cb"]
        rtu = self.cfg["tr"] == "rtu"
        pre = None
        if cb and fc in (1, 2, 3, 4) and len(pdu) >= 5:
            reg, cnt = struct.unpack(">HH", pdu[1:5])
            if reg % 7 == 3:
                exc.add(reg % 5 + 1)
        E = lambda codes: [(bytes([fc | 0x80, c]), None) for c in sorted(codes)]
        if exc:
            sure = True
        else:
            sure = False
        if fc == 8 and rtu:
            if len(pdu) >= 5 and pdu[1:3] == b"\0\0":
                return [(pdu, None)]
            return E({1, 3})
        if FC.get(fc) is None or FC[fc] not in tabs:
            return E(exc | {1})
        k = FC[fc]
        name, size = tabs[k]
        data = self.tags[name][2]
        if len(pdu) < 5:
            return E(exc | {3})
        reg, cnt = struct.unpack(">HH", pdu[1:5])
        eff = None
        if fc in (1, 2, 3, 4):
            lim = 2000 if fc < 3 else 125
            if not 1 <= cnt <= lim:
                exc.add(3)
            if reg + cnt > size:
                exc.add(2)
            if exc:
                if sure and len(exc) == 1:
                    return E(exc)
                return E(exc)
            if name in self.dead:
                return E({4})
            if cb and fc == 3 and reg % 5 == 1:
                # the callback provides the value of the first register
                struct.pack_into("<H", data, reg * 2, (reg * 3 + cnt) & 0xFFFF)
            if fc < 3:
                d = getbits(data, reg, cnt)
            else:
                d = b"".join(struct.pack(">H", x) for x in struct.unpack_from("<%dH" % cnt, data, reg * 2))
            return [(bytes([fc, len(d)]) + d, None)]
        if fc == 5:
            if cnt not in (0, 0xFF00):
                exc.add(3)
            if reg >= size:
                exc.add(2)
            eff = lambda: setbits(data, reg, 1, b"\1" if cnt else b"\0")
            num = 1
        elif fc == 6:
            if reg >= size:
                exc.add(2)
            eff = lambda: struct.pack_into("<H", data, reg * 2, cnt)
            num = 1
        else:
            num = cnt
            nb = (cnt + 7) // 8 if fc == 15 else cnt * 2
            if not 1 <= cnt <= (1968 if fc == 15 else 123):
                exc.add(3)
            if reg + cnt > size:
                exc.add(2)
            if len(pdu) < 6 or pdu[5] != nb or len(pdu) < 6 + nb:
                exc.add(3)
            if fc == 15:
                eff = lambda: setbits(data, reg, cnt, pdu[6:])
            else:
                eff = lambda: struct.pack_into("<%dH" % cnt, data, reg * 2, *struct.unpack_from(">%dH" % cnt, pdu, 6))
        if exc:
            return E(exc)
        if name in self.dead:
            return E({4})
        ans = pdu[:5]
        if cb:
            e0 = eff

            def eff():
                e0()
                self.log = [n, fc, reg, num]
            if reg % 11 == 7:
                ans = bytes([fc | 0x80, 6])
        return [(ans, eff)]


CBLUA = """
function rcb(node, fc, reg, count)
  if fc == 3 and count >= 1 and count <= 125 and SIZE[node] ~= nil and reg + count <= SIZE[node] and reg %% 7 ~= 3 and reg %% 5 == 1 then
    tag_write(NAME[node] .. "[" .. reg .. "]", (reg * 3 + count) & 0xFFFF)
  end
  if reg %% 7 == 3 then return reg %% 5 + 1 end
  return 0
end
function wcb(node, fc, reg, count)
  tag_write("cblog", {node, fc, reg, count})
  if reg %% 11 == 7 then return 6 end
  return 0
end
"""


def config(cfg, addr, port, dev):
    t = ["p={}", 'p.name="P"', "p.enable=true", "p.baudrate=115200", "p.databits=8", "p.stopbits=1", 'p.parity="NONE"',
         "p.scanrate=100", "p.timeout=50", "p.frame=%d" % FRAME, "p.delay=0", "p.retries=2", "p.maxfailures=20", "p.inhibit=1"]
    if cfg["tr"] == "tcp":
        t += ['p.ipaddress="%s"' % addr, 'p.socket="TCP"', "p.bindport=%d" % port, 'p.type="SERVER"', 'p.protocol="TCP"']
    else:
        t += ['p.device="%s"' % dev, 'p.type="SLAVE"', 'p.protocol="RTU"']
    t.append("id=add_port(p)")
    T = dict(h="HOLDING", i="INPUT", c="COIL", d="DISCRETE")
    for n, tabs in cfg["nodes"].items():
        for k, (name, size) in tabs.items():
            t.append('add_register(id,%s,"%s",%d,%s)' % (n, name, size, T[k]))
    if cfg.get("cb"):
        t.append("SIZE={} NAME={}")
        for n in cfg["cb"]:
            h = cfg["nodes"][str(n)].get("h")
            if h:
                t.append('SIZE[%d]=%d NAME[%d]="%s"' % (n, h[1], n, h[0]))
        t.append(CBLUA.replace("%%", "%"))
        for n in cfg["cb"]:
            t.append("add_read_callback(id,%d,rcb) add_write_callback(id,%d,wcb)" % (n, n))
    return "\n".join(t) + "\n"


class Bad(Exception):
    pass


class Closed(Bad):
    pass


class Run:
    def __init__(self, b, cwd, case):
        self.cfg, self.ops = case
        self.m = Model(self.cfg)
        self.b, self.cwd = b, cwd
        self.conns, self.stream = {}, {}
        self.master = self.slave = None
        self.st = {}
        self.addr = "127.%d.%d.%d" % tuple(1 + x % 250 for x in os.urandom(3))
        self.port = 20000 + os.getpid() % 10000
        self.tmo = 15

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def start(self):
        self.srv = Server(self.b, self.cwd)
        self.w = Client(self.srv, "obs")
        if self.cfg.get("cb"):
            self.w.add("cblog", UINT, 4)
        dev = None
        if self.cfg["tr"] == "rtu":
            self.master, self.slave = pty.openpty()
            tty.setraw(self.master)
            tty.setraw(self.slave)
            dev = os.ttyname(self.slave)
        conf = os.path.join(self.cwd, "modbus.conf")
        with open(conf, "w") as f:
            f.write(config(self.cfg, self.addr, self.port, dev))
        self.mod = Proc([os.path.join(self.b.root, "b", "src", "modules", "modbus", "daxmodbus"), "-U", self.srv.sock, "-S", "LOCAL", "-C", conf],
                        self.cwd, "daxmodbus")
        end = time.time() + 60
        while True:
            self.mod.check()
            try:
                i = self.w.get("_mmodbus")[0]
                if self.w.read(i, 12, 1)[0] & 1:
                    break
            except Refused:
                pass
            if time.time() > end:
                raise Died("daxmodbus did not start", tail(self.mod.log))
            time.sleep(0.004)
        if self.cfg["tr"] == "tcp":
            while True:
                try:
                    self.connect().close()
                    break
                except ConnectionRefusedError:
                    if time.time() > end:
                        raise Died("daxmodbus does not listen", tail(self.mod.log))
                    time.sleep(0.004)
        self.idx = {name: self.w.get(name)[0] for name in self.m.tags}
        if self.cfg.get("cb"):
            self.cbidx = self.w.get("cblog")[0]

    def connect(self, rcvbuf=None):
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.connect((self.addr, self.port))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(self.tmo)
        return s

    def stop(self):
        for s in self.conns.values():
            s.close()
        for f in (self.master, self.slave):
            if f is not None:
                os.close(f)
        if hasattr(self, "w"):
            self.w.close()
        if hasattr(self, "mod"):
            self.mod.stop()
        if hasattr(self, "srv"):
            self.srv.stop()

    # ---- TCP
    def recvn(self, s, n):
        d = b""
        while len(d) < n:
            try:
                s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
                x = s.recv(n - len(d))
            except socket.timeout:
                raise Bad("no answer within %d s" % self.tmo + (" after %s" % d.hex() if d else ""))
            except OSError as e:
                raise Closed("connection failed: %s" % e)
            if not x:
                raise Closed("the connection was closed instead of an answer")
            d += x
        return d

    def settle_answer(self, got, alts, what):
        for a, eff in alts:
            if a == got:
                if eff:
                    eff()
                self.count("exceptions" if got[0] & 0x80 else "answers")
                return
        raise Bad("%s: answered %s, should be %s" % (what, got.hex(), " or ".join(a.hex() for a, _ in alts)))

    def frames(self, k):
        """complete requests at the start of connection k's stream; None: the stream is beyond repair"""
        buf = self.stream[k]
        out = []
        while len(buf) >= 6:
            tid, proto, n = struct.unpack(">HHH", buf[:6])
            if n < 2 or n > 254:
                self.stream[k] = buf
                return out, False
            if len(buf) < 6 + n:
                break
            out.append((tid, proto, buf[6:6 + n]))
            buf = buf[6 + n:]
        self.stream[k] = buf
        return out, True

    def send(self, k, data, pause=0):
        s = self.conns.get(k)
        if s is None:
            return
        self.count("chunks")
        try:
            s.sendall(data)
        except OSError as e:
            raise Bad("connection %s failed: %s" % (k, e))
        self.stream[k] += data
        fs, ok = self.frames(k)
        for tid, proto, body in fs:
            if proto:
                self.count("foreign")
                continue
            alts = self.m.answer(body[0], body[1:])
            if alts[0][0] is None:
                self.count("ignored")
                continue
            what = "request %s of connection %s" % (body.hex(), k)
            try:
                h = self.recvn(s, 7)
                t2, p2, n2, u2 = struct.unpack(">HHHB", h)
                if (t2, p2, u2) != (tid, 0, body[0]) or not 2 <= n2 <= 254:
                    raise Bad("%s: header of the answer is %s, should have transaction %d, unit %d" % (what, h.hex(), tid, body[0]))
                a = self.recvn(s, n2 - 1)
            except Closed:
                # when the server drops a connection with bytes that it has not read yet then TCP loses
                # the answers that have not reached us
                if ok:
                    raise
                for _, p2, b2 in fs[fs.index((tid, proto, body)):]:
                    for _, eff in self.m.answer(b2[0], b2[1:]) if not p2 else ():
                        if eff:
                            eff()
                break
            self.settle_answer(a, alts, what)
        if not ok:
            # the server may drop us; it may not say anything more
            self.count("broken streams")
            s.settimeout(1)
            try:
                x = s.recv(1)
                if x:
                    raise Bad("answer to an impossible header")
            except (socket.timeout, OSError):
                pass
            s.close()
            del self.conns[k]
        elif pause:
            time.sleep(pause / 1000.0)

    # ---- RTU
    def rtu(self, data, bad):
        unit, pdu = data[0], data[1:]
        alts = [(None, None)] if bad else self.m.answer(unit, pdu)
        adu = data + (crc(data) if not bad else bytes([crc(data)[0] ^ bad, crc(data)[1]]))
        if alts[0][0] is None:
            os.write(self.master, adu)
            self.count("ignored")
            time.sleep(FRAME * 8 / 1000.0)
            r, _, _ = select.select([self.master], [], [], 0)
            if r:
                raise Bad("answer to a frame that should be ignored (%s): %s" % (adu.hex(), os.read(self.master, 1000).hex()))
            return
        gap = FRAME
        for attempt in range(4):
            os.write(self.master, adu)
            got, end = b"", time.time() + (2 if attempt < 3 else self.tmo)
            while time.time() < end:
                r, _, _ = select.select([self.master], [], [], 0.05 if got else max(0.001, end - time.time()))
                if r:
                    got += os.read(self.master, 4096)
                    if len(got) >= 5 and got[0] == unit and got[-2:] == crc(got[:-2]):
                        self.settle_answer(got[1:-2], alts, "request %s" % adu.hex())
                        return
                elif got:
                    break
            # a frame can have been torn apart by the scheduler: masters repeat
            self.count("repeats")
            if got and attempt == 3:
                raise Bad("request %s: broken answer %s" % (adu.hex(), got.hex()))
            gap *= 8
            time.sleep(gap / 1000.0)
        raise Bad("no answer to request %s" % adu.hex())

    # ---- tag server side
    def readtag(self, i, n):
        d = b""
        while len(d) < n:
            d += self.w.read(i, len(d), min(4000, n - len(d)))
        return d

    def verify(self):
        self.count("verified")
        for name, (k, size, data) in self.m.tags.items():
            if name in self.m.dead:
                continue
            got = bytearray(self.readtag(self.idx[name], len(data)))
            if k in "cd" and size % 8:
                got[-1] &= (1 << size % 8) - 1
            if got != data:
                i = next(i for i in range(len(data)) if got[i] != data[i])
                raise Bad("tag %s differs from the registers at byte %d: %s, should be %s" % (name, i, got[i:i + 20].hex(), data[i:i + 20].hex()))
        if self.cfg.get("cb"):
            got = list(struct.unpack("<4H", self.w.read(self.cbidx, 0, 8)))
            if got != self.m.log:
                raise Bad("the write callback was last called with %s, should be %s" % (got, self.m.log))

    def op(self, op):
        k = op[0]
        self.count("op " + k)
        if k == "c":
            if op[1] in self.conns:
                self.conns[op[1]].close()
            self.conns[op[1]] = self.connect()
            self.stream[op[1]] = b""
        elif k == "x":
            s = self.conns.pop(op[1], None)
            if s is not None:
                if op[2]:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                s.close()
        elif k == "s":
            self.send(op[1], bytes.fromhex(op[2]), op[3])
        elif k == "r":
            self.rtu(bytes.fromhex(op[1]), op[2])
        elif k == "w":
            name = op[1]
            if name in self.m.tags and name not in self.m.dead:
                kk, size, data = self.m.tags[name]
                d = bytearray(bytes.fromhex(op[3]))[:max(0, len(data) - op[2])]
                if d:
                    if kk in "cd" and size % 8 and op[2] + len(d) == len(data):
                        d[-1] &= (1 << size % 8) - 1
                    self.w.write(self.idx[name], op[2], bytes(d))
                    data[op[2]:op[2] + len(d)] = d
        elif k == "del":
            if op[1] in self.m.tags and op[1] not in self.m.dead:
                self.w.delete(self.idx[op[1]])
                self.m.dead.add(op[1])
        elif k == "flood":
            # somebody who asks a lot and never listens
            s = self.connect(4096)
            s.setblocking(False)
            f = bytes.fromhex(op[1])
            try:
                for _ in range(op[2]):
                    s.sendall(f)
            except OSError:
                pass
            time.sleep(0.05)
            self.conns.pop("flood", None)
            self.conns["flood"] = s
        elif k == "many":
            # each one is served before the next one comes: the listen queue of the port is short
            ss = []
            for j in range(op[1]):
                ss.append(self.connect())
                self.conns["m"], self.stream["m"] = ss[-1], b""
                self.send("m", adu(j, next(iter(self.m.nodes)), bytes([1 + j % 4, 0, 0, 0, 1])))
                del self.conns["m"]
            for s in ss[::2] + ss[1::2]:
                s.close()
        elif k == "v":
            self.verify()

    def go(self):
        self.start()
        i, op = 0, None
        try:
            for i, op in enumerate(self.ops):
                self.op(op)
            i, op = len(self.ops), ["v"]
            self.verify()
            if self.cfg["tr"] == "tcp":
                i, op = i + 1, ["a new connection is served"]
                self.op(["c", 99])
                self.send(99, bytes.fromhex("00070000000601") + bytes([3, 0, 0, 0, 1]))
        except (Bad, Refused, OSError) as e:
            msg = str(e)
            for p in (self.mod, self.srv):
                if not settle(p):
                    return Outcome(Fail("crash", "%s died, near operation %d %s: %s" % (p.name, i, str(op)[:200], tail(p.log))), self.st)
            return Outcome(Fail("op:" + op[0][:5], "operation %d %s: %s" % (i, str(op)[:300], msg), i), self.st)
        for p in (self.mod, self.srv):
            if not settle(p):
                return Outcome(Fail("crash", "%s died: %s" % (p.name, tail(p.log))), self.st)
        return Outcome(None, self.st)


def adu(tid, unit, pdu, proto=0):
    return struct.pack(">HHHB", tid, proto, len(pdu) + 1, unit) + pdu


class C22(Check):
    prop = "C22"
    rule = "at least eight requests were answered, at least one of them with data and one with an exception, and the registers were compared with the tags afterwards"
    quick, thorough = 4000, 40000
    technique = "stateful property-based testing of the real Modbus module over TCP and a pseudo terminal against a model of the Modbus application protocol, with shrinking"
    assumptions = ("a request that several exceptions apply to may be answered with any of them",
                   "a partly received request is not interrupted for a second or more (the server drops it then on purpose)",
                   "RTU frames are sent in one piece",
                   "nothing follows a multiple write whose header counts too few bytes before it is answered (the server completes such requests)")

    def pdu(self, rng, nodes, unit):
        n = nodes.get(str(unit)) or nodes.get("0") or rng.choice(list(nodes.values()))
        x = rng.random()
        if x < 0.06:
            return bytes([rng.choice([0, 7, 8, 9, 11, 17, 20, 22, 23, 43, 64, 127, 128, 131, 255])]) + rng.randbytes(rng.choice([0, 4, 4, 10]))
        fc = rng.choice([1, 2, 3, 4, 5, 6, 15, 16])
        if FC[fc] not in n and rng.random() < 0.8:
            fc = rng.choice([f for f in FC if FC[f] in n])
        size = n.get(FC[fc], ("", 16))[1]
        lim = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}.get(fc, 1)
        reg = rng.choice([0, size - 1, rng.randrange(size), rng.randrange(size), rng.randrange(size)])
        most = min(lim, size - reg)
        cnt = rng.choice([1, most, rng.randint(1, most), rng.randint(1, most), rng.randint(1, min(most, 20))])
        y = rng.random()
        if y < 0.1:
            reg = rng.choice([size, size + 1, 65535, 65535 - cnt + 1, rng.randrange(65536)])
        elif y < 0.2:
            cnt = rng.choice([0, lim + 1, most + 1, 65535, 32768, 256, 2000, 126, rng.randrange(65536)])
        reg &= 0xFFFF
        if fc in (1, 2, 3, 4):
            p = struct.pack(">BHH", fc, reg, cnt)
        elif fc == 5:
            p = struct.pack(">BHH", fc, reg, rng.choice([0, 0xFF00, 0, 0xFF00, 0, 0xFF00, 1, 0xFF, 0xFFFF, 0x100]))
        elif fc == 6:
            p = struct.pack(">BHH", fc, reg, rng.choice([0, 1, 0xFFFF, rng.randrange(65536), rng.randrange(65536)]))
        else:
            nb = (cnt + 7) // 8 if fc == 15 else cnt * 2
            d = rng.randbytes(min(nb, 247)) if rng.random() < 0.7 else rng.choice([b"\0", b"\xff", b"\x55"]) * min(nb, 247)
            if rng.random() < 0.06:
                nb += rng.choice([-1, 1, 2, 100])
            p = struct.pack(">BHHB", fc, reg, cnt, nb & 255) + d
            if rng.random() < 0.04:
                p = p[:rng.randrange(1, len(p))]
        if rng.random() < 0.04:
            p = p[:rng.randrange(1, len(p) + 1)]
        return p[:253]

    def gen(self, rng, i, tier):
        tr = "rtu" if rng.random() < 0.2 else "tcp"
        units = rng.sample([1, 2, 3, 17, 100, 246, 247], rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.3 and tr == "tcp":
            units.append(0)
        nodes = {}
        sizes = [1, 2, 7, 8, 9, 16, 17, 32, 33, 64, 100, 123, 125, 126, 130, 250]
        for u in units:
            tabs = {}
            for k in KINDS:
                if rng.random() < 0.75:
                    s = rng.choice(sizes)
                    if rng.random() < 0.15:
                        s = rng.choice([1968, 2000, 2001, 3000, 10000, 65535])
                    tabs[k] = ["u%d%s" % (u, k), s]
            if not tabs:
                tabs["h"] = ["u%dh" % u, 20]
            nodes[str(u)] = tabs
        cfg = dict(tr=tr, nodes=nodes)
        if rng.random() < 0.25:
            cfg["cb"] = rng.sample(units, rng.randint(1, len(units)))
        ops = []
        names = [(t[0], t[1], k) for n in nodes.values() for k, t in n.items()]
        if rng.random() < 0.8:
            for name, size, k in names:
                n = (size + 7) // 8 if k in "cd" else size * 2
                ops.append(["w", name, 0, rng.randbytes(min(n, 600)).hex()])
        tid = rng.randrange(65536)
        if tr == "rtu":
            for _ in range(rng.randrange(8, 25)):
                x = rng.random()
                if x < 0.8:
                    u = rng.choice(units)
                    ops.append(["r", (bytes([u]) + (self.pdu(rng, nodes, u) if rng.random() < 0.95 else
                                                    b"\x08" + rng.choice([b"\0\0", b"\0\1"]) + rng.randbytes(rng.choice([2, 2, 20])))).hex(), 0])
                elif x < 0.84:
                    ops.append(["r", (bytes([rng.choice([4, 99, 248, 255])]) + self.pdu(rng, nodes, 1)).hex(), 0])
                elif x < 0.9:
                    u = rng.choice(units)
                    ops.append(["r", (bytes([u]) + self.pdu(rng, nodes, u)).hex(), rng.randrange(1, 256)])
                elif x < 0.96:
                    self.tagwrite(rng, names, ops)
                else:
                    ops.append(["v"])
            return [cfg, ops]
        nc = rng.choice([1, 1, 2, 3])
        for k in range(nc):
            ops.append(["c", k])
        pend = {}
        if rng.random() < 0.01:
            h = [(u, n["h"][1]) for u, n in nodes.items() if "h" in n]
            if h:
                u, s = rng.choice(h)
                ops.append(["flood", adu(1, int(u), struct.pack(">BHH", 3, 0, min(s, 125))).hex(), 1500])
        for _ in range(rng.randrange(10, 45)):
            x = rng.random()
            k = rng.randrange(nc)
            if x < 0.8:
                if k in pend and rng.random() < 0.7:
                    rest = pend.pop(k)
                    ops.append(["s", k, rest.hex(), rng.choice([0, 0, 2])])
                    continue
                d = pend.pop(k, b"")
                short = False
                for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
                    u = rng.choice(units) if rng.random() < 0.93 else rng.choice([4, 99, 248, 255])
                    tid = (tid + 1) & 0xFFFF
                    q = self.pdu(rng, nodes, u)
                    if q[0] in (15, 16) and (len(q) < 6 or len(q) < 6 + q[5]):
                        # the server takes bytes that follow for the rest of this request
                        d += adu(tid, rng.choice(units), q)
                        short = True
                        break
                    d += adu(tid, u, q, 0 if rng.random() < 0.97 else rng.choice([1, 256, 65535]))
                if rng.random() < 0.008 and not short:
                    d += struct.pack(">HHH", 1, 0, rng.choice([0, 1, 255, 256, 1000, 65535])) + rng.randbytes(rng.randrange(20))
                if rng.random() < 0.35:
                    cuts = sorted(rng.randrange(len(d)) for _ in range(rng.choice([1, 1, 2, 5])))
                    parts = [d[a:b] for a, b in zip([0] + cuts, cuts + [len(d)]) if b > a]
                    if rng.random() < 0.4 and len(parts) > 1 and not short:
                        pend[k] = parts.pop()
                    for q in parts:
                        ops.append(["s", k, q.hex(), rng.choice([0, 1, 3])])
                else:
                    ops.append(["s", k, d.hex(), 0])
            elif x < 0.88:
                self.tagwrite(rng, names, ops)
            elif x < 0.93:
                ops.append(["v"])
            elif x < 0.97:
                pend.pop(k, None)
                ops.append(["x", k, rng.randrange(2)])
                ops.append(["c", k])
            elif x < 0.975:
                ops.append(["many", rng.choice([5, 20])])
            elif x < 0.98:
                ops.append(["del", rng.choice(names)[0]])
        return [cfg, ops]

    def tagwrite(self, rng, names, ops):
        name, size, k = rng.choice(names)
        n = (size + 7) // 8 if k in "cd" else size * 2
        o = rng.randrange(n)
        ops.append(["w", name, o, rng.randbytes(min(n - o, rng.choice([1, 2, 10, 100]))).hex()])

    def run(self, b, cwd, case):
        r = Run(b, cwd, case)
        try:
            return r.go()
        finally:
            r.stop()

    def nontrivial(self, case, st):
        return st.get("answers", 0) + st.get("exceptions", 0) >= 8 and st.get("answers") and st.get("exceptions") and st.get("verified")

    def shrinks(self, case, fail):
        cfg, ops = case
        if fail.at is not None and fail.at + 1 < len(ops):
            yield [cfg, ops[:fail.at + 1]]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                yield [cfg, ops[:a] + ops[a + size:]]
            size //= 2
        if cfg.get("cb"):
            yield [{k: v for k, v in cfg.items() if k != "cb"}, ops]
        for u in cfg["nodes"]:
            if len(cfg["nodes"]) > 1 and int(u) not in cfg.get("cb", []):
                yield [dict(cfg, nodes={a: b for a, b in cfg["nodes"].items() if a != u}), ops]
            for k in cfg["nodes"][u]:
                if len(cfg["nodes"][u]) > 1:
                    yield [dict(cfg, nodes=dict(cfg["nodes"], **{u: {a: b for a, b in cfg["nodes"][u].items() if a != k}})), ops]


if __name__ == "__main__":
    sys.exit(main(C22()))
