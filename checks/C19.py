"""C19: values survive conversion to text and back."""
import datetime, math, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle
from harness import Server, Driver, Died, hx
from model import BASE, NAMES, FMTC, BOOL, REAL, LREAL, TIME, base_size, isneg
from gen import Gen

CHAR = BASE["CHAR"]
EVN = {2: "WRITE", 3: "CHANGE", 4: "SET", 5: "RESET", 6: "EQUAL", 7: "GREATER", 8: "LESS", 9: "DEADBAND", 10: "DELETED"}
EPOCH = datetime.datetime(1970, 1, 1)


def rng_of(t):
    f = FMTC[t]
    n = base_size(t) * 8
    return (-(1 << n - 1), (1 << n - 1) - 1) if f[1].islower() else (0, (1 << n) - 1)


def strtol(s):
    m = re.match(r"[ \t]*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)", s)
    if not m:
        return 0
    d = m.group(2)
    v = int(d, 16) if d[:2].lower() == "0x" else int(d, 8) if d[0] == "0" else int(d)
    return -v if m.group(1) == "-" else v


class C19(Check):
    prop = "C19"
    technique = "property-based testing: round trips of generated values and differential parsing of generated text"
    rule = ("each case is 150 conversions through the library's public functions: values of all 16 types (boundaries, powers of two, "
            "random bit patterns, NaN, infinities, denormals, all eras of TIME) at random indexes of arrays are converted to text "
            "and back into a patterned buffer (value, neighbours and mask compared), text is checked against an independent "
            "rendering, too small text buffers are tried, and generated numerals in every notation and junk are parsed and "
            "compared with an independent parser including clipping; names of types and events are converted both ways in any "
            "case. Non-trivial: every case (they all perform round trips of at least 20 different values).")
    note = ("All generated values and texts agreed: 150 conversions per case, %d cases quick, %d thorough. Trusted: the Python "
            "renderings and parsers used as oracle, and ASan.") % (1500, 30000)
    quick = 1500
    thorough = 30000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        ops = []
        for _ in range(150):
            t = rng.choice(list(BASE.values()))
            k = g.wpick(dict(rt=10, small=1.5, parse=6, name=1))
            if k in ("rt", "small"):
                n = rng.choice([1, 1, 2, 5])
                if t == BOOL:
                    idx = rng.randrange(n * 8)
                    b = rng.randbytes(n)
                else:
                    idx = rng.randrange(n)
                    b = b"".join(self.val(g, t) for _ in range(n))
                ops.append(["rt", t, b.hex(), idx] if k == "rt" else ["v2s", t, b.hex(), idx, rng.choice([1, 2, 3, 4, 5, 8, 12, 19, 20, 22, 23, 24, 30])])
            elif k == "parse":
                n = rng.choice([1, 2, 3])
                sz = 1 if t == BOOL else base_size(t)
                idx = rng.randrange(n * 8 if t == BOOL else n)
                ops.append(["s2v", t, self.text(g, t), idx, rng.randbytes(n * sz).hex()])
            else:
                r = rng.randrange(4)
                if r == 0:
                    n = rng.choice(list(BASE))
                    ops.append(["s2t", rng.choice([n, n.lower(), n.title(), n + "X", n[:-1]])])
                elif r == 1:
                    ops.append(["t2s", rng.choice(list(NAMES) + [0, 1, 0x11, 0x17, 0x33, 0x45])])
                elif r == 2:
                    n = rng.choice(list(EVN.values()))
                    ops.append(["e2t", rng.choice([n, n.lower(), n.title(), n + "X", n[:-1], ""])])
                else:
                    ops.append(["t2e", rng.choice(list(EVN) + [0, 1, 11, -1, 1000])])
        return ops

    def val(self, g, t):
        r = g.r
        n = base_size(t)
        if t in (REAL, LREAL) and r.random() < 0.3:
            x = r.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 0.1, 1 / 3, 1e-40, 3.4028234663852886e38, 16777217.0, 123456789.0, 5e-324, 1.7976931348623157e308])
            try:
                return struct.pack(FMTC[t], x)
            except OverflowError:
                pass
        if t == TIME and r.random() < 0.7:
            return struct.pack("<q", r.choice([0, 1, -1, 999, 1000, -999, -1000, -1001, 86399999, r.randrange(-10 ** 13, 10 ** 14), r.randrange(-62135596800000, 253402300799999)]))
        if r.random() < 0.4:
            return r.randbytes(n)
        return g._rand(t)

    def text(self, g, t):
        r = g.r
        if t in (REAL, LREAL):
            return r.choice(["0", "-0", "1.5", "-2.25", "1e10", "1E-5", "+3", "%d" % r.randrange(-10 ** 6, 10 ** 6), "%.3f" % r.uniform(-1000, 1000),
                             "1e300", "-1e300", "1e-300", ".5", "5.", "abc", "", "inf", "-inf", "0x10", "7up"])
        if t == CHAR and r.random() < 0.3:
            return chr(r.randrange(1, 256))
        if t == TIME and r.random() < 0.6:
            y, mo, d = r.randrange(1, 9999), r.randrange(1, 13), r.randrange(1, 29)
            s = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, r.randrange(24), r.randrange(60), r.randrange(60))
            return s + (".%03d" % r.randrange(1000) if r.random() < 0.7 else "")
        lo, hi = (0, 1) if t == BOOL else rng_of(t)
        v = r.choice([lo, hi, lo - 1, hi + 1, hi * 2, lo - 1000, 0, 1, -1, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1), 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64, -2 ** 63 - 1, 10 ** 25])
        f = r.randrange(5)
        s = str(v) if f < 3 else ("-" if v < 0 else "") + (hex(abs(v)) if f == 3 else "0%o" % abs(v))
        if r.random() < 0.1:
            s = r.choice(["", "x", "+", "-", "0x", s + "junk", s + " 7", s + ".9", "--3"])
        return s

    def run(self, b, cwd, case):
        srv = Server(b, cwd)
        drv = Driver(b, cwd)
        try:
            lines = ["connect 0 %s 8 local %s 0 15000" % (hx("m"), srv.sock)]
            for o in case:
                if o[0] == "rt":
                    lines.append("rt 0 %x %s %d" % (o[1], o[2], o[3]))
                elif o[0] == "v2s":
                    lines.append("v2s 0 %x %s %d %d" % (o[1], o[2], o[3], o[4]))
                elif o[0] == "s2v":
                    lines.append("s2v 0 %x %s %d %s" % (o[1], hx(o[2]), o[3], o[4]))
                elif o[0] == "s2t":
                    lines.append("s2t 0 %s" % hx(o[1]))
                elif o[0] == "t2s":
                    lines.append("t2s 0 %x" % o[1])
                elif o[0] == "e2t":
                    lines.append("e2t 0 %s" % hx(o[1]))
                else:
                    lines.append("t2e 0 %d" % o[1])
            try:
                ans = drv.ask(lines, 60)
            except Died as e:
                return Outcome(Fail("client", "%s\n%s" % (e.what, e.detail)))
            stat = {}
            for o, a in zip(case, ans[1:]):
                stat[o[0]] = stat.get(o[0], 0) + 1
                m = self.judge(o, a)
                if m:
                    return Outcome(Fail("conv:" + o[0], "%s (type %s): %s" % (o, NAMES.get(o[1], "") if o[0] in ("rt", "v2s", "s2v") else "", m)), stat)
            return Outcome(None, stat)
        finally:
            drv.close()
            srv.stop()

    @staticmethod
    def unh(s):
        return b"" if s == "-" else bytes.fromhex(s)

    def elem(self, t, b, idx):
        if t == BOOL:
            return b[idx // 8] >> idx % 8 & 1
        n = base_size(t)
        return struct.unpack(FMTC[t], b[idx * n:(idx + 1) * n])[0]

    def put(self, t, b, idx, v):
        b = bytearray(b)
        if t == BOOL:
            b[idx // 8] = b[idx // 8] & ~(1 << idx % 8) | (v << idx % 8)
        else:
            n = base_size(t)
            b[idx * n:(idx + 1) * n] = v
        return bytes(b)

    def mask(self, t, n, idx):
        return self.put(t, bytes(n), idx, 1 if t == BOOL else b"\xff" * base_size(t))

    def judge(self, o, a):
        p = a.split(" ")
        k = o[0]
        if k == "rt":
            t, b, idx = o[1], bytes.fromhex(o[2]), o[3]
            v = self.elem(t, b, idx)
            if p[0] != "0" or len(p) != 5:
                return "no text for %r: %s" % (v, a)
            txt = self.unh(p[1])
            if t not in (REAL, LREAL, TIME):
                want = bytes([v & 255]).rstrip(b"\0") if t == CHAR else str(v).encode()
                if txt != want:
                    return "text %r, should be %r" % (txt, want)
            elif t == TIME and -62135596800000 + 86400000 * 366 * 1000 <= v <= 253402300799999:
                d = EPOCH + datetime.timedelta(milliseconds=v)
                want = d.strftime("%Y-%m-%dT%H:%M:%S") + ".%03d" % (d.microsecond // 1000)
                if txt.decode() != want:
                    return "text %r, should be %r" % (txt, want)
            elif t in (REAL, LREAL) and math.isfinite(v):
                try:
                    w = float(txt)
                except ValueError:
                    return "text %r is no number" % txt
                if w != v and struct.pack(FMTC[t], w) != struct.pack(FMTC[t], v):
                    return "text %r for %r" % (txt, v)
            got = self.unh(p[3])
            if p[2] != "0":
                return "text %r of %r was not accepted: %s" % (txt, v, p[2])
            n = len(b)
            exp = self.put(t, b"\x5a" * n, idx, v if t == BOOL else struct.pack(FMTC[t], v))
            if t in (REAL, LREAL) and v != v:
                w = self.elem(t, got, idx)
                if w == w:
                    return "NaN came back as %r" % w
                exp = self.put(t, exp, idx, struct.pack(FMTC[t], w))
                sz = base_size(t)
                exp = exp[:idx * sz] + got[idx * sz:(idx + 1) * sz] + exp[(idx + 1) * sz:]
            if got != exp:
                return "came back as %s, should be %s (text %r)" % (got.hex(), exp.hex(), txt)
            if self.unh(p[4]) != self.mask(t, n, idx):
                return "mask %s, should be %s" % (p[4], self.mask(t, n, idx).hex())
            return None
        if k == "v2s":
            t, b, idx, size = o[1], bytes.fromhex(o[2]), o[3], o[4]
            txt = self.unh(p[1])
            if len(txt) >= size:
                return "text %r is not terminated within %d bytes" % (txt, size)
            if isneg(p[0]):
                return None
            v = self.elem(t, b, idx)
            if t not in (REAL, LREAL, TIME):
                want = (bytes([v & 255]).rstrip(b"\0") if t == CHAR else str(v).encode())[:size - 1]
                if txt != want:
                    return "text %r, should be %r" % (txt, want)
            return None
        if k == "s2v":
            t, s, idx, b = o[1], o[2], o[3], bytes.fromhex(o[4])
            got = self.unh(p[1])
            err = isneg(p[0])
            want, werr = self.parse(t, s)
            if want is None:
                sz = 1
                # unspecified value; only the element may differ
                probe = self.elem(t, got, idx)
                want = probe if t == BOOL else got[idx * base_size(t):(idx + 1) * base_size(t)]
                werr = err
            exp = self.put(t, b, idx, want)
            if got != exp:
                return "parsed into %s, should be %s" % (got.hex(), exp.hex())
            if err != werr:
                return "result %s, should %sbe an error" % (p[0], "" if werr else "not ")
            if self.unh(p[2]) != self.mask(t, len(b), idx):
                return "mask %s, should be %s" % (p[2], self.mask(t, len(b), idx).hex())
            return None
        if k == "s2t":
            w = "%x" % BASE.get(o[1].upper(), 0)
            return None if a == w else "gave %s, should be %s" % (a, w)
        if k == "t2s":
            w = hx(NAMES[o[1]]) if o[1] in NAMES else "NULL"
            return None if a == w else "gave %s, should be %s" % (a, w)
        if k == "e2t":
            w = {v: q for q, v in EVN.items()}.get(o[1].upper(), 0)
            return None if a == str(w) or (w == 0 and isneg(a)) else "gave %s, should be %s" % (a, w)
        if k == "t2e":
            w = hx(EVN[o[1]]) if o[1] in EVN else "NULL"
            return None if a == w else "gave %s, should be %s" % (a, w)

    def parse(self, t, s):
        """-> (bytes or bit, error) or (None, None) if nothing is promised"""
        if t == BOOL:
            return (1 if strtol(s) else 0), False
        if t in (REAL, LREAL):
            m = re.match(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z", s)
            if not m:
                return None, None
            x = float(s)
            try:
                return struct.pack(FMTC[t], x), False
            except OverflowError:
                return struct.pack(FMTC[t], math.copysign(math.inf, x)), False
        if t == CHAR and len(s) <= 1:
            return s.encode("latin1").ljust(1, b"\0"), False
        m = re.match(r"([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(?:\.([0-9]{3}))?\Z", s)
        if t == TIME and m:
            q = [int(x or 0) for x in m.groups()]
            d = datetime.datetime(*q[:6]) - EPOCH
            return struct.pack("<q", (d.days * 86400 + d.seconds) * 1000 + q[6]), False
        v = strtol(s)
        lo, hi = rng_of(t)
        if t in (BASE["ULINT"], BASE["LWORD"]) and s[:1] == "-" and v == 0:
            return None, None
        w = min(max(v, lo), hi)
        return (w & ((1 << 8 * base_size(t)) - 1)).to_bytes(base_size(t), "little"), w != v


if __name__ == "__main__":
    sys.exit(main(C19()))
