"""C24: the Modbus client (TCP, UDP and RTU master ports) against simulated devices that behave and misbehave."""
import os, pty, random, struct, sys, time, tty
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle
from harness import Proc, Server, Died, tail
from wire import Client, Refused, BOOL, BYTE, INT, UINT, WORD, DINT, REAL, LREAL
import mbslave
from mbslave import Devices, Line, Net, Rtu, TABLE, ODD, BAD_TCP, BAD_UDP, BAD_RTU

SIZE = {BYTE: 1, INT: 2, UINT: 2, WORD: 2, DINT: 4, REAL: 4, LREAL: 8}
READ = (1, 2, 3, 4)
LATE = 20          # seconds that anything may take on a busy machine


class Bad(Exception):
    pass


def dsize(c):
    """bytes of data that the command carries"""
    fc, n = c["fc"], c["len"]
    return 1 if fc == 5 else 2 if fc == 6 else (n + 7) // 8 if fc in (1, 2, 15) else n * 2


def region(c):
    """(bits, offset, number) of the tag that belong to the command"""
    if c["type"] == BOOL:
        n = min(c["cnt"], c["len"] if c["fc"] in (1, 2, 15) else dsize(c) * 8)
        return True, c["off"], n
    s = SIZE[c["type"]]
    return False, c["off"] * s, min(c["cnt"] * s, dsize(c))


def swap(d):
    return b"".join(d[k + 1:k + 2] + d[k:k + 1] for k in range(0, len(d), 2))


class Cmd:
    def __init__(self, i, c, port):
        self.i, self.c, self.port = i, c, port
        self.read = c["fc"] in READ
        self.cont = "CONT" in c["mode"]
        self.trig = "TRIGGER" in c["mode"]
        self.ev = "WRITE" if "WRITE" in c["mode"] else "CHANGE" if "CHANGE" in c["mode"] else None
        self.en = c["en"]
        total = c["off"] + c["cnt"] + c["guard"]
        self.total = total
        self.mem = bytearray((total + 7) // 8 if c["type"] == BOOL else total * SIZE[c["type"]])
        self.exists = False
        self.idx = None
        self.allowed = []       # payloads that a write request may have
        self.dirty = False      # a read command has been answered since the tag was last compared

    def load(self, payload):
        """a good answer with this data arrived"""
        bits, off, n = region(self.c)
        d = payload if self.c["fc"] < 3 else swap(payload)
        if bits:
            for k in range(n):
                b = d[k // 8] >> k % 8 & 1
                p = off + k
                self.mem[p // 8] = self.mem[p // 8] & ~(1 << p % 8) | b << p % 8
        else:
            self.mem[off:off + n] = d[:n]

    def payload(self):
        """what a write request must carry"""
        bits, off, n = region(self.c)
        out = bytearray(dsize(self.c))
        if bits:
            for k in range(n):
                p = off + k
                if self.mem[p // 8] >> p % 8 & 1:
                    out[k // 8] |= 1 << k % 8
        else:
            out[:n] = self.mem[off:off + n]
        fc = self.c["fc"]
        if fc == 5:
            return b"\xff\0" if out[0] else b"\0\0"
        if fc == 15:
            if self.c["len"] % 8:
                out[-1] &= (1 << self.c["len"] % 8) - 1
            return bytes(out)
        return swap(bytes(out))


class Run:
    def __init__(self, b, cwd, case):
        self.cfg, self.ops = case
        self.b, self.cwd, self.st = b, cwd, {}
        self.dv = None
        self.fdsopen = []
        self.addr = "127.%d.%d.%d" % tuple(1 + x % 250 for x in os.urandom(3))

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    # ---- set up
    def start(self):
        self.srv = Server(self.b, self.cwd)
        self.w = Client(self.srv, "obs")
        self.cmds, self.lines, self.devs = [], [], {}
        self.asy = {}
        self.dv = Devices()
        lua = []
        for pi, p in enumerate(self.cfg["ports"]):
            line = Line(self.matcher(pi))
            self.lines.append(line)
            dev = None
            if p["tr"] == "rtu":
                m, s = pty.openpty()
                self.fdsopen += [m, s]
                tty.setraw(m)
                tty.setraw(s)
                dev = os.ttyname(s)
                self.devs[pi, 0] = Rtu(line, 0, m)
            else:
                for k in range(p["devs"]):
                    self.devs[pi, k] = Net(line, k, self.addr, p["tr"] == "udp")
            for k in range(p["devs"]):
                d = self.devs[pi, k]
                if d.__class__ is Net:
                    d.up()
                    if k in p.get("down", ()):
                        d.down()
                self.dv.add(d)
            t = ["p={}", 'p.name="P%d"' % pi, "p.enable=true", "p.baudrate=115200", "p.databits=8", "p.stopbits=1", 'p.parity="NONE"',
                 "p.scanrate=%d" % p["scan"], "p.timeout=%d" % p["tmo"], "p.frame=3", "p.delay=%d" % p.get("delay", 0), "p.retries=%d" % p["retries"],
                 "p.maxfailures=%d" % p.get("maxf", 0), "p.inhibit=1", "p.persist=%s" % ("true" if p["persist"] else "false")]
            if p["tr"] == "rtu":
                t += ['p.device="%s"' % dev, 'p.type="MASTER"', 'p.protocol="RTU"']
            else:
                t += ['p.ipaddress="%s"' % self.addr, 'p.socket="%s"' % p["tr"].upper(), 'p.type="CLIENT"', 'p.protocol="TCP"']
            t.append("id=add_port(p)")
            for c in p["cmds"]:
                x = Cmd(len(self.cmds), c, pi)
                x.slot = len([y for y in self.cmds if y.port == pi])
                self.cmds.append(x)
                d = self.devs[pi, c["dev"]]
                t += ["c={}", "c.node=%d c.fcode=%d c.register=%d c.length=%d" % (c["unit"], c["fc"], c["reg"], c["len"]),
                      'c.mode="%s"' % c["mode"], "c.enable=%s" % ("true" if c["en"] else "false"), "c.interval=%d" % c["itv"],
                      'c.tagname="%s" c.tagcount=%d' % ("t%d" % x.i + ("[%d]" % c["off"] if c["off"] or x.total > 1 else ""), c["cnt"])]
                if p["tr"] != "rtu":
                    t += ['c.ipaddress="%s"' % self.addr, "c.port=%d" % d.port]
                if x.trig:
                    t.append('c.trigger="g%d"' % x.i)
                t.append("add_command(id,c)")
            lua += t
        for x in self.cmds:
            if not x.c.get("late"):
                self.mktag(x)
            if x.trig:
                x.gidx = self.w.add("g%d" % x.i, BOOL, 1)
        conf = os.path.join(self.cwd, "modbus.conf")
        with open(conf, "w") as f:
            f.write("\n".join(lua) + "\n")
        self.dv.start()
        self.mod = Proc([self.b.modbus, "-U", self.srv.sock, "-S", "LOCAL", "-C", conf], self.cwd, "daxmodbus")
        end = time.time() + 60
        while True:
            self.mod.check()
            try:
                if self.w.read(self.w.get("_mmodbus")[0], 12, 1)[0] & 1:
                    break
            except Refused:
                pass
            if time.time() > end:
                raise Died("daxmodbus did not start", tail(self.mod.log))
            time.sleep(0.004)
        # the events of the commands are installed after that
        for x in self.cmds:
            for name, want in (("t%d" % x.i, x.ev), ("g%d" % x.i, x.trig)):
                if want:
                    self.wait(lambda: self.w.get(name)[3] & 0x2000, "the event of command %d on %s is installed" % (x.i, name))
        self.enidx = [self.w.get("P%d_cmd_en" % k)[0] if p["cmds"] else None for k, p in enumerate(self.cfg["ports"])]
        self.asyidx = [self.w.get("P%d_cmd" % k)[0] for k in range(len(self.cfg["ports"]))]

    def mktag(self, x):
        x.idx = self.w.add("t%d" % x.i, x.c["type"], x.total)
        x.exists = True
        d = bytes.fromhex(x.c["init"])
        n = len(x.mem)
        x.mem[:] = (d * (n // len(d) + 1))[:n]
        if x.c["type"] == BOOL and x.total % 8:
            x.mem[-1] &= (1 << x.total % 8) - 1
        x.allowed = [x.payload()] + ([x.payload0] if hasattr(x, "payload0") else [])
        old = bytes(len(x.mem))
        # a writer may see the tag before it has its first value
        cur, x.mem = x.mem, bytearray(old)
        x.allowed.append(x.payload())
        x.mem = cur
        self.w.write(x.idx, 0, bytes(x.mem))

    def stop(self):
        if hasattr(self, "w"):
            self.w.close()
        if hasattr(self, "mod"):
            self.mod.stop()
        if self.dv and self.dv.is_alive():
            self.dv.close()
        for f in self.fdsopen:
            os.close(f)
        if hasattr(self, "srv"):
            self.srv.stop()

    def matcher(self, pi):
        def match(dev, unit, pdu):
            """the command that a request belongs to; called by the device thread"""
            fc = pdu[0]
            reg, n = struct.unpack(">HH", pdu[1:5])
            for x in self.cmds:
                c = x.c
                if x.port != pi or (c["dev"], c["unit"], c["fc"], c["reg"]) != (dev, unit, fc, reg):
                    continue
                if fc in (5, 6):
                    data = pdu[3:5]
                elif c["len"] != n:
                    continue
                elif fc in READ:
                    if len(pdu) != 5:
                        continue
                    data = None
                else:
                    data = pdu[6:]
                    if pdu[5] != len(data) or len(data) != dsize(c):
                        raise ValueError("request %s of command %d has the wrong number of bytes" % (pdu.hex(), x.i))
                    if fc == 15 and n % 8:
                        data = data[:-1] + bytes([data[-1] & (1 << n % 8) - 1])
                if data is not None and not x.exists:
                    raise ValueError("command %d writes %s although its tag does not exist" % (x.i, data.hex()))
                if data is not None and data not in x.allowed:
                    raise ValueError("command %d (function %d) writes %s, its tag has %s" % (x.i, fc, data.hex()[:200], " or ".join(a.hex()[:200] for a in x.allowed)))
                return x.i
            a = self.asy.get(pi)
            if a and (a["dev"], a["unit"], pdu) == (dev, unit, a["pdu"]):
                return "async"
            raise ValueError("port %d sent a request that is not configured: device %d unit %d %s" % (pi, dev, unit, pdu.hex()))
        return match

    # ---- waiting
    def health(self):
        for p in (self.mod, self.srv):
            if not p.alive():
                raise Bad("%s is gone" % p.name)
        if self.dv.oops:
            raise Exception(self.dv.oops)
        for l in self.lines:
            if l.problems:
                raise Bad(l.problems[0])

    def wait(self, cond, what, tmo=LATE):
        end = time.time() + tmo
        while True:
            x = cond()
            if x:
                return x
            self.health()
            if time.time() > end:
                raise Bad("not within %d s: %s" % (tmo, what))
            time.sleep(0.002)

    def log(self, x):
        return self.lines[x.port].log

    def cycle(self, x, kinds, frm, what):
        """waits until a request of the command, after position frm of the log, has been answered in one of these ways
        and the port has gone on to its next request; returns the position behind it"""
        log = self.log(x)

        def done():
            for k in range(frm, len(log) - 1):
                if log[k][1] == x.i and (kinds is None or log[k][3] in kinds):
                    return k + 1
            return None
        return self.wait(done, what)

    def tag(self, x):
        d = b""
        while len(d) < len(x.mem):
            d += self.w.read(x.idx, len(d), min(4000, len(x.mem) - len(d)))
        if x.c["type"] == BOOL and x.total % 8:
            d = d[:-1] + bytes([d[-1] & (1 << x.total % 8) - 1])
        return d

    def differ(self, x, got):
        i = next(i for i in range(len(got)) if got[i] != x.mem[i])
        return "tag of command %d (function %d, register %d, length %d, type 0x%x, element %d, count %d) has at byte %d %s, should be %s" % (
            x.i, x.c["fc"], x.c["reg"], x.c["len"], x.c["type"], x.c["off"], x.c["cnt"], i, got[i:i + 24].hex(), bytes(x.mem[i:i + 24]).hex())

    def same(self, x, why):
        got = self.tag(x)
        if got != bytes(x.mem):
            raise Bad("%s: %s" % (why, self.differ(x, got)))
        self.count("compared")

    def devdata(self, x):
        c = x.c
        with self.dv.lock:
            return self.devs[x.port, c["dev"]].mem.data(c["unit"], c["fc"], c["reg"], c["len"])

    def active(self, x):
        return x.cont and x.en

    def catchup(self, x):
        """a continuous command with a well behaved device: tag and device agree"""
        if not self.active(x):
            return
        ok = ODD | {"ok"}
        at = len(self.log(x))
        if x.read:
            if not x.exists:
                self.cycle(x, ok, at, "command %d is polled" % x.i)
                return
            x.load(self.devdata(x))
            for attempt in range(8):
                at = self.cycle(x, ok, at, "command %d is polled" % x.i)
                got = self.tag(x)
                if got == bytes(x.mem):
                    self.count("compared")
                    return
            raise Bad("%d good answers later: %s" % (attempt + 1, self.differ(x, got)))
        if not x.exists:
            return
        at = self.cycle(x, None, at, "command %d is sent" % x.i)
        self.cycle(x, ok, at, "command %d is sent again" % x.i)
        with self.dv.lock:
            x.allowed = [x.payload()]
        self.count("compared")

    def requests(self, x, frm):
        """number of requests since frm; repeats after a timeout count once"""
        tmo = self.cfg["ports"][x.port]["tmo"] / 1000.0
        n, last, rtu = 0, None, self.cfg["ports"][x.port]["tr"] == "rtu"
        for e in self.log(x)[frm:]:
            if e[1] == x.i:
                if last is not None and e[2] == last[2] and (e[0] - last[0] > 0.7 * tmo or rtu):
                    pass
                else:
                    n += 1
                last = e
        return n

    def settag(self, x, data):
        """new contents of the part of the tag that belongs to the command"""
        bits, off, n = region(x.c)
        with self.dv.lock:
            old = x.payload()
            if bits:
                a, z = off // 8, (off + n - 1) // 8 + 1
                mask = bytearray(z - a)
                for k in range(n):
                    p = off + k - a * 8
                    mask[p // 8] |= 1 << p % 8
                    b = data[k // 8 % len(data)] >> k % 8 & 1
                    q = off + k
                    x.mem[q // 8] = x.mem[q // 8] & ~(1 << q % 8) | b << q % 8
            else:
                x.mem[off:off + n] = (data * (n // len(data) + 1))[:n]
            x.allowed = [x.payload(), old]
        if bits:
            self.w.mwrite(x.idx, a, bytes(x.mem[a:z]), bytes(mask))
        else:
            self.w.write(x.idx, off, bytes(x.mem[off:off + n]))
        return x.payload() != old

    def setdev(self, x, data):
        """new contents of the device"""
        c = x.c
        with self.dv.lock:
            m = self.devs[x.port, c["dev"]].mem
            t = TABLE[c["fc"]]
            for k in range(c["len"]):
                if t in "cd":
                    m.set(c["unit"], t, c["reg"] + k, data[k // 8 % len(data)] >> k % 8 & 1)
                else:
                    m.set(c["unit"], t, c["reg"] + k, data[2 * k % len(data)] | data[(2 * k + 1) % len(data)] << 8)

    def quiet(self, x):
        """the command has been carried out"""
        time.sleep(0.04)

    # ---- operations
    def op(self, op):
        k = op[0]
        if k in ("set", "bad", "odd", "trig", "chg", "tw", "del"):
            if op[1] >= len(self.cmds):
                return
            x = self.cmds[op[1]]
        self.count("op " + k)
        getattr(self, "op_" + k)(*([x] + op[2:] if k in ("set", "bad", "odd", "trig", "chg", "tw", "del") else op[1:]))
        self.health()

    def op_set(self, x, data):
        """the values in the device change"""
        if x.read:
            self.setdev(x, bytes.fromhex(data))
            if x.exists:
                self.catchup(x)

    def op_tw(self, x, data):
        """somebody writes the tag of a write command"""
        if not x.read and x.exists and x.cont:
            n = len(self.log(x))
            diff = self.settag(x, bytes.fromhex(data))
            if x.ev:
                return
            self.catchup(x)

    def kind(self, x, k):
        tr = self.cfg["ports"][x.port]["tr"]
        ks = dict(tcp=BAD_TCP, udp=BAD_UDP, rtu=BAD_RTU)[tr]
        return ks[k % len(ks)]

    def op_bad(self, x, kind, arg, n, data):
        """the device misbehaves for n answers"""
        if not self.active(x) or not x.exists:
            return
        self.catchup(x)
        kind = self.kind(x, kind)
        self.count("bad " + kind)
        line = self.lines[x.port]
        at = len(line.log)
        with self.dv.lock:
            line.bad[x.i] = (kind, arg)
        at = self.cycle(x, (kind,), at, "command %d is sent (%s)" % (x.i, kind))
        if x.read:
            self.setdev(x, bytes.fromhex(data))
        for _ in range(n):
            at = self.cycle(x, (kind,), at, "command %d is sent again after a wrong answer (%s)" % (x.i, kind))
        if x.read:
            self.same(x, "after wrong answers (%s %d)" % (kind, arg))
        with self.dv.lock:
            line.bad.pop(x.i, None)
        self.catchup(x)

    def op_odd(self, x, kind, arg, n, data):
        if not self.active(x) or not x.exists:
            return
        kind = sorted(ODD)[kind % len(ODD)]
        line = self.lines[x.port]
        if x.read:
            self.setdev(x, bytes.fromhex(data))
        with self.dv.lock:
            line.bad[x.i] = [kind, arg, n]
        self.count("odd " + kind)
        self.wait(lambda: x.i not in line.bad, "command %d is sent (%s)" % (x.i, kind))
        self.catchup(x)

    def op_down(self, port, dev, ms):
        """a device goes away and comes back"""
        d = self.devs.get((port, dev))
        if d is None or d.__class__ is Rtu:
            return
        with self.dv.lock:
            if d.ls:
                d.down()
        self.dv.wake()
        time.sleep(ms / 1000.0)
        end = time.time() + LATE
        while True:
            with self.dv.lock:
                try:
                    d.up()
                    break
                except OSError:
                    # the address is taken for a moment by an outgoing connection
                    d.ls.close()
                    d.ls = None
                    if time.time() > end:
                        raise
            time.sleep(0.05)
        self.dv.wake()
        for x in self.cmds:
            if x.port == port and x.c["dev"] == dev:
                self.catchup(x)

    def op_trig(self, x, kind, arg, data):
        """the trigger of a command is set"""
        if not x.trig or not x.exists:
            return
        line = self.lines[x.port]
        if x.read:
            self.setdev(x, bytes.fromhex(data))
        if kind is not None:
            kind = self.kind(x, kind)
            with self.dv.lock:
                line.bad[x.i] = (kind, arg)
        at = len(line.log)
        self.w.write(x.gidx, 0, b"\1")
        self.wait(lambda: self.w.read(x.gidx, 0, 1)[0] & 1 == 0, "the trigger of command %d is reset" % x.i)
        n = self.requests(x, at)
        raw = len([e for e in line.log[at:] if e[1] == x.i])
        with self.dv.lock:
            line.bad.pop(x.i, None)
        self.count("triggered")
        if not x.en:
            if raw and not x.cont:
                raise Bad("the trigger of the disabled command %d caused %d requests" % (x.i, raw))
            return
        if x.cont:
            self.catchup(x)
            return
        if kind is None:
            if n != 1:
                raise Bad("the trigger of command %d caused %d requests" % (x.i, n))
            if x.read:
                x.load(self.devdata(x))
        else:
            # a lost connection or an unusable answer may be tried again
            if not 1 <= raw <= self.cfg["ports"][x.port]["retries"] + 1:
                raise Bad("the trigger of command %d caused %d requests (%s)" % (x.i, raw, kind))
        if x.read:
            self.same(x, "after the trigger")

    def op_chg(self, x, data):
        """somebody writes the tag of a command that is sent on change or on write"""
        if not x.ev or not x.exists:
            return
        line = self.lines[x.port]
        at = len(line.log)
        before = bytes(x.mem)
        if data is None:
            bits, off, n = region(x.c)
            # write what is there
            if bits:
                data = bytes(x.payload() if x.c["fc"] == 15 else swap(x.payload()) if x.c["fc"] != 5 else bytes([1 if x.payload()[0] else 0]))
            else:
                data = bytes(x.mem[off:off + n])
        else:
            data = bytes.fromhex(data)
        self.settag(x, data)
        diff = bytes(x.mem) != before
        want = x.en and (diff or x.ev == "WRITE")
        self.count("changes" if diff else "unchanged")
        if want:
            self.wait(lambda: any(e[1] == x.i for e in line.log[at:]), "command %d is sent because its tag was %s" % (x.i, "changed" if x.ev == "CHANGE" else "written"))
        if not x.cont:
            self.quiet(x)
            n = self.requests(x, at)
            if n != (1 if want else 0):
                raise Bad("%d requests of command %d (%s) after its tag was %s" % (n, x.i, x.ev, "changed" if diff else "written with the same data"))
        if want:
            last = [e for e in line.log[at:] if e[1] == x.i][-1]
            if not x.cont:
                got = last[2][3:5] if x.c["fc"] in (5, 6) else last[2][6:]
                if x.c["fc"] == 15 and x.c["len"] % 8:
                    got = got[:-1] + bytes([got[-1] & (1 << x.c["len"] % 8) - 1])
                if got != x.payload():
                    raise Bad("command %d wrote %s after the change, the tag has %s" % (x.i, got.hex(), x.payload().hex()))
                with self.dv.lock:
                    x.allowed = [x.payload()]
        if x.cont:
            self.catchup(x)

    def op_en(self, port, bits):
        """commands are enabled and disabled"""
        if port >= len(self.enidx) or self.enidx[port] is None:
            return
        xs = [x for x in self.cmds if x.port == port]
        d = bytearray((len(xs) + 7) // 8)
        for x in xs:
            if bits >> x.slot & 1:
                d[x.slot // 8] |= 1 << x.slot % 8
        self.w.write(self.enidx[port], 0, bytes(d))
        log = self.lines[port].log
        was = {x.i: x.en for x in xs}
        for x in xs:
            x.en = bool(bits >> x.slot & 1)
        for x in xs:
            if not x.en and x.cont:
                # its last request is followed by silence
                end, t0 = time.time() + LATE, time.time()
                quiet = max(0.06, 4 * self.cfg["ports"][port]["scan"] / 1000.0)
                while True:
                    last = max([e[0] for e in log if e[1] == x.i] + [t0])
                    if time.time() - last > quiet:
                        break
                    self.health()
                    if time.time() > end:
                        raise Bad("command %d is sent although it was disabled %d s ago" % (x.i, LATE))
                    time.sleep(0.005)
                if x.read and x.exists and was[x.i]:
                    # what the last answer had
                    x.load(self.devdata(x))
                    self.wait(lambda: self.tag(x) == bytes(x.mem), "the tag of command %d has the last values" % x.i)
        marks = {x.i: len(log) for x in xs}
        for x in xs:
            self.catchup(x)
        for x in xs:
            if not x.en and any(e[1] == x.i for e in log[marks[x.i]:]):
                raise Bad("command %d is sent although it is disabled" % x.i)
        self.count("enables")

    def op_itv(self, port):
        """commands with an interval are sent in every interval-th scan"""
        if port >= len(self.lines):
            return
        xs = [x for x in self.cmds if x.port == port and self.active(x) and (x.read or x.exists)]
        log = self.lines[port].log
        tmo = self.cfg["ports"][port]["tmo"] / 1000.0
        at = len(log)
        for x in xs:
            p = at
            for _ in range(4):
                p = self.cycle(x, None, p, "command %d is sent" % x.i)
        seq = log[at:]
        one = [x for x in xs if x.c["itv"] <= 1]
        if not one or self.cfg["ports"][port]["tr"] == "rtu" or any(e[3] != "ok" for e in seq):
            return
        if any(b[0] - a[0] > 0.7 * tmo for a, b in zip(seq, seq[1:])):
            return         # somebody may have been too late
        ref = one[0]
        for x in xs:
            if x is ref:
                continue
            pos = [k for k, e in enumerate(seq) if e[1] == x.i]
            for a, b in zip(pos, pos[1:]):
                n = len([1 for e in seq[a:b] if e[1] == ref.i])
                if n != max(1, x.c["itv"]):
                    raise Bad("command %d with interval %d was sent again after %d scans" % (x.i, x.c["itv"], n))
                self.count("intervals")

    def op_async(self, port, dev, unit, fc, reg, n, data, kind, arg):
        """a command through the command tag of the port"""
        if port >= len(self.lines):
            return
        d = self.devs.get((port, dev))
        if d is None:
            return
        line, idx = self.lines[port], self.asyidx[port]
        data = bytes.fromhex(data)
        data = (data * (240 // len(data) + 1))[:240]
        ip = bytes(int(v) for v in self.addr.split("."))
        p = 0 if d.__class__ is Rtu else d.port
        valid = 1 <= unit <= 247 and fc in TABLE and (fc in (5, 6) or 1 <= n <= {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}[fc])
        c = dict(fc=fc, len=n)
        size = 0
        if valid:
            size = min(240, dsize(c))
            if fc in READ:
                pdu = struct.pack(">BHH", fc, reg, n)
            elif fc == 5:
                pdu = struct.pack(">BHH", fc, reg, 0xFF00 if data[0] else 0)
            elif fc == 6:
                pdu = struct.pack(">BH", fc, reg) + swap(data[:2])
            else:
                full = (data[:size] + bytes(dsize(c)))[:dsize(c)]
                pdu = struct.pack(">BHHB", fc, reg, n, dsize(c)) + (full if fc == 15 else swap(full))
            with self.dv.lock:
                self.asy[port] = dict(dev=dev, unit=unit, pdu=pdu)
                for x in self.cmds:
                    # the same request as a command's is that command
                    if x.port == port and (x.c["dev"], x.c["unit"], x.c["fc"]) == (dev, unit, fc) and fc in READ and abs(x.c["reg"] - reg) < 2100:
                        return
                if kind is not None:
                    kind = dict(tcp=BAD_TCP, udp=BAD_UDP, rtu=BAD_RTU)[self.cfg["ports"][port]["tr"]][kind]
                    line.bad["async"] = (kind, arg)
        at = len(line.log)
        self.w.write(idx, 15, data)
        self.w.write(idx, 0, b"\1\x55\x55" + ip + struct.pack("<HBBHH", p, unit, fc, reg, n))
        self.wait(lambda: self.w.read(idx, 0, 1)[0] & 1 == 0, "the command of port %d is finished" % port)
        got = self.w.read(idx, 0, 255)
        with self.dv.lock:
            line.bad.pop("async", None)
        n_req = len([e for e in line.log[at:] if e[1] == "async"])
        resp = struct.unpack("<h", got[1:3])[0]
        self.count("async")
        exp = data
        what = "command of port %d (unit %d function %d register %d length %d, %s)" % (port, unit, fc, reg, n, kind or "ok")
        if not valid:
            if n_req:
                raise Bad("impossible %s was sent" % what)
            if resp == 0:
                raise Bad("impossible %s reports success" % what)
        elif kind is None:
            if resp != 0 and n_req <= self.cfg["ports"][port]["retries"]:
                raise Bad("%s was answered, its response is %d" % (what, resp))
            if not n_req:
                raise Bad("%s was not sent" % what)
            if resp == 0 and fc in READ:
                with self.dv.lock:
                    v = d.mem.data(unit, fc, reg, n)
                v = v if fc < 3 else swap(v)
                exp = v[:size] + data[size:]
        else:
            if resp == 0:
                raise Bad("%s failed, its response is 0" % what)
        if got[15:] != exp:
            i = next(i for i in range(240) if got[15 + i] != exp[i])
            raise Bad("%s: data at byte %d is %s, should be %s" % (what, i, got[15 + i:39 + i].hex(), exp[i:i + 24].hex()))
        if got[3:15] != ip + struct.pack("<HBBHH", p, unit, fc, reg, n):
            raise Bad("%s: the fields were changed: %s" % (what, got[:15].hex()))

    def op_del(self, x, ms):
        """the tag of a command is deleted and added again"""
        if not x.exists or x.ev:
            if not x.exists:
                self.mktag(x)
                self.catchup(x)
            return
        if not x.read:
            # a request may be under way
            self.catchup(x)
        self.w.delete(x.idx)
        if not x.read and self.active(x):
            self.fence(x)
        with self.dv.lock:
            x.exists = False
        time.sleep(ms / 1000.0)
        self.health()
        if x.read and self.active(x):
            at = self.cycle(x, None, len(self.log(x)), "command %d is still polled" % x.i)
        x.payload0 = x.payload()
        with self.dv.lock:
            self.mktag(x)
            x.exists = True
        self.count("deleted")
        self.catchup(x)

    def fence(self, x):
        """the port has finished the command that it was working on"""
        time.sleep(0.05 + self.cfg["ports"][x.port]["scan"] / 1000.0)

    def op_v(self):
        for x in self.cmds:
            if x.exists:
                self.catchup(x)
        for x in self.cmds:
            if x.exists:
                self.same(x, "finally")

    def go(self):
        i, op = 0, ["start"]
        try:
            self.start()
            for x in self.cmds:
                if x.c["dev"] not in self.cfg["ports"][x.port].get("down", ()):
                    self.catchup(x)
            for pi, p in enumerate(self.cfg["ports"]):
                for k in p.get("down", ()):
                    self.op_down(pi, k, 20)
            for i, op in enumerate(self.ops):
                self.op(op)
            i, op = len(self.ops), ["v"]
            self.op_v()
            self.health()
        except (Bad, Refused, OSError) as e:
            msg = str(e) or repr(e)
            for p in (getattr(self, "mod", None), self.srv):
                if p is not None and not settle(p):
                    return Outcome(Fail("crash", "%s died, near operation %d %s: %s" % (p.name, i, str(op)[:200], tail(p.log))), self.st)
            return Outcome(Fail("op:" + op[0][:5], "operation %d %s: %s" % (i, str(op)[:300], msg), i), self.st)
        for p in (self.mod, self.srv):
            if not settle(p):
                return Outcome(Fail("crash", "%s died: %s" % (p.name, tail(p.log))), self.st)
        return Outcome(None, self.st)


class C24(Check):
    prop = "C24"
    rule = "at least three times was a tag compared with the device, and at least one wrong or unusual answer, trigger, change, outage, enable change or command of the command tag was among the steps"
    quick, thorough = 700, 9000
    confirm = (4, 2)
    technique = "stateful property-based testing of the real Modbus module against simulated TCP, UDP and RTU devices with scripted faults; every request and the tags are compared with a model; shrinking"
    assumptions = ("a device answers a request within the port's time limit or not at all, unless the step is about late answers",
                   "answers that are longer than their byte count says are not judged",
                   "the padding bits of coils are zero in right answers")

    def gen_cmd(self, rng, p, taken, i):
        for _ in range(50):
            fc = rng.choice([1, 2, 3, 4, 3, 5, 6, 15, 16, 16])
            lim = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}.get(fc, 1)
            n = rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, rng.randint(1, lim), rng.randint(1, min(lim, 40)), lim])
            n = min(n, lim)
            reg = rng.choice([0, 1, 2, 100, 255, 256, rng.randrange(60000), 65536 - n])
            unit = rng.choice([1, 1, 2, 17, 100, 247])
            dev = rng.randrange(p["devs"])
            t = TABLE[fc]
            if any(d == dev and u == unit and tt == t and reg < r + l and r < reg + n and (w or fc not in READ) for d, u, tt, r, l, w in taken):
                continue
            if any((d, u, tt, r) == (dev, unit, t, reg) for d, u, tt, r, l, w in taken):
                continue
            break
        else:
            return None
        taken.append((dev, unit, t, reg, n, fc not in READ))
        if fc == 5:
            typ, cnt = rng.choice([(BOOL, 1), (BOOL, 1), (BYTE, 1)])
        elif fc == 6:
            typ, cnt = rng.choice([(INT, 1), (UINT, 1), (WORD, 1), (BYTE, 2), (BOOL, 16), (BYTE, 1), (INT, 2)])
        elif fc in (1, 2, 15):
            typ = rng.choice([BOOL, BOOL, BOOL, BYTE, UINT])
            cnt = n if typ == BOOL else max(1, (n + 7) // 8 // SIZE[typ])
        else:
            typ = rng.choice([UINT, INT, WORD, UINT, INT, DINT, REAL, LREAL, BYTE, BOOL])
            cnt = n * 16 if typ == BOOL else max(1, n * 2 // SIZE[typ])
        fit = rng.random()
        if fit < 0.12 and fc not in (5,):
            cnt = max(1, cnt - rng.randint(1, 9))
        elif fit < 0.24 and fc not in (5,):
            cnt += rng.randint(1, 17)
        mode = "CONTINUOUS"
        x = rng.random()
        if x < 0.15:
            mode = "TRIGGER"
        elif x < 0.4 and fc not in READ:
            mode = rng.choice(["CHANGE", "WRITE", "CHANGE", "WRITE", "TRIGGER|CHANGE", "CONTINUOUS|CHANGE", "WRITE|CHANGE"])
        elif x < 0.45:
            mode = "CONTINUOUS|TRIGGER"
        if "CHANGE" in mode or "WRITE" in mode:
            # events look at the whole of the tag
            if typ == BOOL:
                cnt = min(cnt, n if fc == 15 else cnt if fc == 5 else (2 if fc == 6 else n * 2) * 8)
            else:
                cnt = max(1, min(cnt, ((n + 7) // 8 if fc == 15 else 1 if fc == 5 else 2 if fc == 6 else n * 2) // SIZE[typ]))
                if cnt * SIZE[typ] > (dsize(dict(fc=fc, len=n))):
                    typ, cnt = BYTE, 1
        c = dict(fc=fc, reg=reg, len=n if fc not in (5, 6) else rng.choice([0, 1, 1, 1, 9]), unit=unit, dev=dev, type=typ, cnt=cnt,
                 off=rng.choice([0, 0, 1, 3, 5, 8, 11]), guard=rng.choice([0, 1, 3, 9]), mode=mode, en=rng.random() < 0.93,
                 itv=rng.choice([0, 0, 1, 1, 2, 3, 5]) if "CONT" in mode else 0, init=rng.randbytes(rng.choice([1, 7, 64])).hex())
        if mode == "CONTINUOUS" and rng.random() < 0.06:
            c["late"] = 1
        return c

    def gen(self, rng, i, tier):
        ports = []
        for pi in range(rng.choice([1, 1, 1, 2, 3])):
            tr = rng.choice(["tcp", "tcp", "tcp", "rtu", "rtu", "udp"])
            p = dict(tr=tr, devs=1 if tr == "rtu" else rng.choice([1, 1, 2, 3]), persist=rng.randrange(2), scan=rng.choice([5, 10, 20]),
                     tmo=rng.choice([60, 100, 150]), retries=rng.choice([1, 1, 2]), cmds=[])
            if tr != "rtu" and rng.random() < 0.12:
                p["down"] = [rng.randrange(p["devs"])]
            if rng.random() < 0.1:
                p["delay"] = 2
            if tr == "rtu" and rng.random() < 0.08:
                p["maxf"] = 4
            taken = []
            for k in range(rng.choice([1, 1, 2, 3, 4, 9])):
                c = self.gen_cmd(rng, p, taken, k)
                if c:
                    p["cmds"].append(c)
            if not any("CONT" in c["mode"] and c["en"] for c in p["cmds"]) and p["cmds"]:
                # something has to keep the port going
                p["cmds"][0].update(mode="CONTINUOUS", en=True, itv=1)
            ports.append(p)
        cmds = [c for p in ports for c in p["cmds"]]
        ops = []
        rb = lambda: rng.randbytes(rng.choice([1, 2, 3, 16, 251])).hex()
        for _ in range(rng.randrange(5, 16)):
            k = rng.randrange(len(cmds))
            c = cmds[k]
            pi = next(j for j in range(len(ports)) if k < sum(len(q["cmds"]) for q in ports[:j + 1]))
            x = rng.random()
            if "TRIGGER" in c["mode"] and x < 0.5:
                ops.append(["trig", k, None if rng.random() < 0.7 else rng.randrange(18), rng.randrange(1 << 16), rb()])
            elif ("CHANGE" in c["mode"] or "WRITE" in c["mode"]) and x < 0.6:
                ops.append(["chg", k, rb() if rng.random() < 0.75 else None])
            elif x < 0.2:
                ops.append(["set", k, rb()])
                if c["fc"] not in READ:
                    ops[-1] = ["tw", k, rb()]
            elif x < 0.5:
                ops.append(["bad", k, rng.randrange(18 * 13 * 15), rng.randrange(1 << 16), rng.choice([1, 1, 2, 4]), rb()])
            elif x < 0.62:
                ops.append(["odd", k, rng.randrange(4), rng.randrange(1 << 16), rng.choice([1, 2, 3]), rb()])
            elif x < 0.68:
                ops.append(["down", pi, rng.randrange(ports[pi]["devs"]), rng.choice([0, 20, 60])])
            elif x < 0.76:
                ops.append(["en", pi, rng.choice([rng.getrandbits(9), (1 << 9) - 1, (1 << 9) - 1 ^ 1 << rng.randrange(9)])])
            elif x < 0.81:
                ops.append(["itv", pi])
            elif x < 0.93:
                fc = rng.choice([1, 2, 3, 4, 5, 6, 15, 16])
                lim = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}.get(fc, 1)
                n = rng.choice([1, 8, 9, rng.randint(1, lim), lim])
                unit = rng.choice([3, 4, 200])
                y = rng.random()
                if y < 0.1:
                    n = rng.choice([0, lim + 1, 65535]) if fc not in (5, 6) else n
                elif y < 0.14:
                    fc = rng.choice([0, 7, 17, 255])
                elif y < 0.18:
                    unit = rng.choice([0, 248, 255])
                n = min(n, 65535)
                ops.append(["async", pi, rng.randrange(ports[pi]["devs"]), unit, fc, rng.choice([0, 1, rng.randrange(60000)]), n, rng.randbytes(60).hex(),
                            None if rng.random() < 0.7 else rng.randrange(13), rng.randrange(1 << 16)])
            elif x < 0.97:
                ops.append(["del", k, rng.choice([0, 30])])
            else:
                ops.append(["v"])
        return [dict(ports=ports), ops]

    def run(self, b, cwd, case):
        r = Run(b, cwd, case)
        try:
            return r.go()
        finally:
            r.stop()

    def nontrivial(self, case, st):
        return st.get("compared", 0) >= 3 and any(k.startswith(("bad ", "odd ")) or k in ("triggered", "changes", "op down", "enables", "async") for k in st)

    def shrinks(self, case, fail):
        cfg, ops = case
        if fail.at is not None and fail.at + 1 < len(ops):
            yield [cfg, ops[:fail.at + 1]]
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                yield [cfg, ops[:a] + ops[a + size:]]
            size //= 2
        base = 0
        for pi, p in enumerate(cfg["ports"]):
            for k in range(len(p["cmds"])):
                # drop a command, renumber the others
                g = base + k
                new = []
                for o in ops:
                    if o[0] in ("set", "bad", "odd", "trig", "chg", "tw", "del"):
                        if o[1] == g:
                            continue
                        o = [o[0], o[1] - (o[1] > g)] + o[2:]
                    new.append(o)
                q = dict(p, cmds=p["cmds"][:k] + p["cmds"][k + 1:])
                if q["cmds"]:
                    yield [dict(ports=cfg["ports"][:pi] + [q] + cfg["ports"][pi + 1:]), new]
            base += len(p["cmds"])
        if len(cfg["ports"]) > 1:
            # drop the last port
            last = sum(len(p["cmds"]) for p in cfg["ports"][:-1])
            new = [o for o in ops if not (o[0] in ("set", "bad", "odd", "trig", "chg", "tw", "del") and o[1] >= last)
                   and not (o[0] in ("down", "en", "itv", "async") and o[1] >= len(cfg["ports"]) - 1)]
            yield [dict(ports=cfg["ports"][:-1]), new]


if __name__ == "__main__":
    sys.exit(main(C24()))
