"""C13: retained tags survive restarts with their last acknowledged value."""
import copy, json, os, random, signal, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle
from harness import Server, Driver, Died, tail, ASAN
from gen import Gen, INTS, ALL
from model import Model, BOOL, CUSTOM, QUEUE, A_RETAIN, ERR, isneg, hx, Handle


class RModel(Model):
    """indexes and type codes may differ between runs, so they are not compared"""
    def _same(self, got, want):
        g, w = got.split(" "), want.split(" ")
        if len(g) != len(w) or g[0] != "0":
            return False
        return g[2:6] == w[2:6] and (g[6] == w[6] or (int(g[6], 16) & CUSTOM and int(w[6], 16) & CUSTOM))

    def _lax(self, r, what):
        if r is None:
            return None
        lines, chk = r

        def c2(a):
            m = chk(a)
            if m is None or not a[0].startswith("0 "):
                return m
            return m if not self._same(a[0], what) else None
        return lines, c2

    def op_add(self, c, slot, name, T, count, attr):
        r = Model.op_add(self, c, slot, name, T, count, attr)
        if r is None or slot not in self.h:
            return r
        return self._lax(r, "0 " + self.h[slot].text())

    def op_hnd(self, c, slot, s, count):
        self.h.pop(slot, None)
        r = Model.op_hnd(self, c, slot, s, count)
        if r is None or slot not in self.h:
            return r
        return self._lax(r, "0 " + self.h[slot].text())

    def op_ct(self, c, slot, name, members):
        r = Model.op_ct(self, c, slot, name, members)
        if r is None or slot not in self.t:
            return r
        return r[0], lambda a: None if a[0].startswith("0 ") else "type definition %s gave %s" % (name, a[0])

    def op_ma(self, c, slot, hs, hd):
        r = Model.op_ma(self, c, slot, hs, hd)
        if r is None or slot not in self.m:
            return r
        return r[0], self._rc(0, "mapping ")

    def boot(self):
        """forget everything that does not survive; returns the retained tags"""
        kept = [t for t in self.tags if t.alive and t.attr & A_RETAIN and t.queue is None and not t.sys]
        gone = [t.name for t in self.tags if t.alive and not t.sys and t.special is None and not t.attr & A_RETAIN]
        gone += [t.name for t in self.tags if not t.alive and t.name not in [x.name for x in kept]]
        new = RModel(self.sock, self.port)
        new.cdts = self.cdts
        new.stat = self.stat
        return new, kept, gone

    def adopt(self, name, typ, count, data):
        t = self._newtag(name, typ, count)
        t.attr = A_RETAIN
        t.data = bytearray(data)
        return t


class RGen(Gen):
    def __init__(self, rng):
        Gen.__init__(self, rng)
        self.m = RModel()
        self.defs = []


class C13(Check):
    prop = "C13"
    level = "fault_enumeration"
    technique = "stateful property-based testing across server restarts with injected kills at file operations"
    rule = ("each case is 2-4 server runs on one retention file: compound types, retained and plain tags of all types and counts, "
            "growth, deletion and re-creation, retention switched on later, and writes of every kind (whole, element, bit, "
            "masked, raw, group, atomic, mapped); a run ends by SIGTERM, by SIGKILL after an answer, or by a kill at (or half-way "
            "through) the k-th file operation of the server, k drawn over start-up and all writes. After each restart every tag "
            "ever used is looked up and read: an acknowledged state must be there, the one request that was under way may have happened "
            "or not, and anything not retained must be gone. Non-trivial: at least 2 restarts with 2 or more retained tags "
            "holding non-zero data.")
    note = ("Holds for every generated history and kill point: %d cases quick, %d thorough. Process death only (no power loss); "
            "trusted: the model, SQLite, the shim that counts file operations.") % (1000, 15000)
    quick = 1000
    thorough = 15000

    # ---------------------------------------------------------------- generation
    def gen(self, rng, i, tier):
        g = RGen(rng)
        nruns = rng.choice([2, 2, 3, 4])
        runs = []
        types = []
        for r in range(nruns):
            g.ops = []
            g.emit("connect", 0, "m0", 8, "local")
            if rng.random() < 0.3:
                g.emit("connect", 1, "m1", 2, "local")
            if r == 0:
                for _ in range(rng.choice([0, 1, 2, 2, 3])):
                    g.cdt(0, nest=0.5)
                types = [list(o) for o in g.ops if o[0] == "ct"]
            else:
                for o in types:
                    if rng.random() < 0.8:
                        g.emit(*o)
            known = [t.name for t in g.m.tags if t.alive and not t.sys and t.special is None]
            for n in known:
                g.nh += 1
                g.emit("hnd", 0, g.nh - 1, n, 0)
            last = r == nruns - 1
            for _ in range(rng.randrange(4, 22) if not last else 2):
                self.one(g, rng)
            end = rng.choices(["kill", "term", "at"], [5, 0.5, 5])[0]
            if end == "at":
                # a few operations per write, about 20 at start-up
                end = ["at", rng.choice([rng.randrange(1, 40), rng.randrange(1, 120), rng.randrange(20, 400)]), rng.random() < 0.3]
            runs.append(dict(ops=g.ops, end=end))
            # the generator's own continuation assumes that everything happened
            new, kept, gone = g.m.boot()
            for t in kept:
                new.adopt(t.name, t.type, t.count, t.data)
            g.m = new
        return runs

    def one(self, g, rng):
        m = g.m
        c = g.client()
        ts = g.usertags()
        k = g.wpick(dict(add=3, readd=1.5, grow=1, retain=1, write=8, raw=3, atomic=2, group=0.6, gw=1, map=0.5, delete=0.7, read=1))
        if k == "add" or not ts:
            g.tag(c, attr=rng.choice([4, 4, 4, 0]))
        elif k == "readd":
            t = g.pick(ts)
            T = g.tname(t.type)
            if T:
                g.tag(c, T=T, count=t.count, name=t.name, attr=rng.choice([0, 4]))
        elif k == "grow":
            t = g.pick(ts)
            T = g.tname(t.type)
            if T and t.size < 300:
                g.tag(c, T=T, count=t.count + rng.choice([1, 2, 7, 8]), name=t.name, attr=rng.choice([0, 4]))
        elif k == "retain":
            t = g.pick(ts)
            T = g.tname(t.type)
            if T:
                g.tag(c, T=T, count=t.count, name=t.name, attr=4)
        elif k == "write":
            s = g.some_handle(c)
            if s is not None:
                g.write(c, s)
        elif k == "raw":
            hs = g.live_handles()
            if hs:
                s = g.pick(hs)
                t = m.get(m.h[s].index)
                a, n = g.rawrange(t)
                if rng.random() < 0.5:
                    g.emit("rw", c, ["h", s], a, g.bytes(n).hex())
                else:
                    g.emit("rm", c, ["h", s], a, g.bytes(n).hex(), g.bytes(n).hex())
        elif k == "atomic":
            g.atomic(c)
        elif k == "group":
            hs, seen = [], set()
            for _ in range(rng.choice([1, 2, 3])):
                s = g.some_handle(c)
                if s is not None and m.h[s].index not in seen:
                    seen.add(m.h[s].index)
                    hs.append(s)
            if hs:
                g.ng += 1
                g.emit("ga", c, g.ng - 1, hs)
        elif k == "gw" and g.my_groups(c):
            x = g.pick(g.my_groups(c))
            g.emit("gw", c, x, b"".join(g.data(h) for h in m.g[x]["hs"]).hex() or "-")
        elif k == "map":
            s, d = g.some_handle(c), g.some_handle(c)
            if s is not None and d is not None and m.h[s].index != m.h[d].index:
                g.map(c, s, d)
        elif k == "delete":
            hs = g.live_handles()
            if hs:
                g.emit("del", c, ["h", g.pick(hs)])
        elif k == "read":
            s = g.some_handle(c)
            if s is not None:
                g.read(c, s)

    # ---------------------------------------------------------------- execution
    def run(self, b, cwd, case):
        m = RModel()
        options = None       # name -> list of (type, count, data) or None
        stat = dict(runs=0, restored=0, crashes=0, ambiguous=0)
        for rn, run in enumerate(case):
            end = run["end"]
            ee = {"LD_PRELOAD": b.shim, "ASAN_OPTIONS": ASAN + ":verify_asan_link_order=0"}
            if isinstance(end, list):
                ee["KILLAT"] = "%d%s" % (end[1], "h" if end[2] else "")
            srv = drv = None
            try:
                try:
                    srv = Server(b, cwd, extra_env=ee)
                except Died as e:
                    srv = None
                    if isinstance(end, list) and "status -9" in e.what:
                        stat["crashes"] += 1
                        continue            # killed while starting: everything must still be there next time
                    return Outcome(Fail("start", "run %d: %s %s" % (rn, e.what, e.detail)), stat)
                drv = Driver(b, cwd)
                os.write(drv.w, b"unbuf\n")
                m.sock, m.port = srv.sock, srv.port
                pre = []
                if options is not None:
                    f, m2 = self.probe(b, srv, drv, m, options, isinstance(end, list), stat)
                    if f:
                        f.msg = "after restart %d: %s" % (rn, f.msg)
                        return Outcome(f, stat)
                    if m2 is None:
                        continue            # killed during the probe, nothing was changed
                    m = m2
                stat["runs"] += 1
                f, pre, m = self.ops(srv, drv, m, run["ops"], isinstance(end, list), rn, stat, options is not None)
                if f:
                    return Outcome(f, stat)
                if end == "term":
                    srv.p.send_signal(signal.SIGTERM)
                    try:
                        srv.p.wait(30)
                    except Exception:
                        return Outcome(Fail("term", "run %d: the server did not stop" % rn), stat)
                    if srv.p.returncode != 0 and "AddressSanitizer" in tail(srv.log):
                        return Outcome(Fail("crash", "at shutdown: " + tail(srv.log)), stat)
                options = self.options(pre, m)
                m = m.boot()[0]
            finally:
                if drv:
                    drv.close()
                if srv:
                    srv.stop()
        # final run: everything is checked once more
        srv = Server(b, cwd, extra_env={"LD_PRELOAD": b.shim, "ASAN_OPTIONS": ASAN + ":verify_asan_link_order=0"})
        drv = Driver(b, cwd)
        try:
            m.sock, m.port = srv.sock, srv.port
            if options is not None:
                f, _ = self.probe(b, srv, drv, m, options, False, stat)
                if f:
                    f.msg = "after the last restart: " + f.msg
                    return Outcome(f, stat)
        finally:
            drv.close()
            srv.stop()
        return Outcome(None, stat)

    def options(self, pre, post):
        out = {}
        for x in pre + [post]:
            new, kept, gone = x.boot()
            for t in kept:
                o = (t.type, t.count, bytes(t.data))
                out.setdefault(t.name, [])
                if o not in out[t.name]:
                    out[t.name].append(o)
            for n in gone:
                out.setdefault(n, [])
                if None not in out[n]:
                    out[n].append(None)
            for n in out:
                if n not in [t.name for t in kept] and None not in out[n]:
                    out[n].append(None)
        names = set(out)
        for x in pre + [post]:
            have = [t.name for t in x.boot()[1]]
            for n in names:
                if n not in have and None not in out[n]:
                    out[n].append(None)
        return out

    def probe(self, b, srv, drv, m, options, maydie, stat):
        """look at every name; adopt what is there. -> (Fail or None, model or None if the server was killed)"""
        names = sorted(options)
        lines = ["connect 9 %s 8 local %s 0 15000" % (hx("probe"), srv.sock)]
        for n in names:
            lines += ["hnd 9 4000 %s 0" % hx(n), "byname 9 %s" % hx(n), "tr 9 4000"]
        lines.append("disc 9")
        try:
            ans = drv.ask(lines, 60, gone=lambda: srv.p.poll() is not None)
        except Died as e:
            if maydie and srv.p.poll() == -9:
                return None, None
            if not settle(srv):
                return Fail("crash", tail(srv.log)), None
            return Fail("client", e.what + e.detail), None
        if maydie and (not ans[0].startswith("0") or not srv.alive()):
            time.sleep(0.05)
            if srv.p.poll() == -9:
                return None, None
        if not settle(srv):
            return Fail("crash", tail(srv.log)), None
        new = m.boot()[0]
        for k, n in enumerate(names):
            h, q, d = ans[1 + 3 * k:4 + 3 * k]
            opts = options[n]
            if isneg(h.split(" ")[0]):
                if None not in opts:
                    return Fail("lost", "retained tag %s is gone (%s), it held %s" % (n, h, opts[0][2].hex()[:120])), None
                continue
            if opts == [None]:
                return Fail("ghost", "tag %s exists after the restart (%s %s) and should not" % (n, q, d[:100])), None
            p = q.split(" ")
            ok = None
            for o in opts:
                if o is None:
                    continue
                typ, cnt, data = o
                t2 = int(p[2], 16)
                if int(p[3]) != cnt or (t2 != typ if not typ & CUSTOM else not t2 & CUSTOM):
                    continue
                hd = Handle(0, 0, 0, cnt, (cnt + 7) // 8 if typ == BOOL else len(data), typ)
                if d == "0 " + hx(hd.extract(data[:hd.size])):
                    ok = o
            if ok is None:
                return Fail("value", "retained tag %s came back as type %s count %s data %s, should be one of %s" % (
                    n, p[2], p[3], d[:200], [(o and ("%x" % o[0], o[1], o[2].hex()[:200])) for o in opts])), None
            stat["restored"] += any(ok[2])
            new.adopt(n, *ok)
        return None, new

    def ops(self, srv, drv, m, prog, maydie, rn, stat, restarted):
        """-> (Fail, [possible earlier models], model)"""
        lines, checks, snaps = [], [], []
        for i, op in enumerate(prog):
            before = copy.deepcopy(m) if maydie else None
            r = m.step(op)
            if r is None:
                continue
            checks.append((i, op, len(lines), len(r[0]), r[1]))
            snaps.append(before)
            lines += r[0]
        died = None
        try:
            ans = drv.ask(lines, 60, gone=lambda: srv.p.poll() is not None) if lines else []
        except Died as e:
            died, ans = e, e.got
        for (i, op, s, n, chk), before in zip(checks, snaps):
            if s + n > len(ans):
                if not (maydie and srv.p.poll() == -9):
                    break
                msg = "not answered"
            else:
                msg = chk(ans[s:s + n])
            if msg is None:
                continue
            if maydie:
                for _ in range(20):
                    if srv.p.poll() is not None:
                        break
                    time.sleep(0.05)
                if srv.p.poll() == -9:
                    # the request under way (this one) may have happened or not; later ones failed
                    stat["crashes"] += 1
                    stat["ambiguous"] += 1
                    j = [x[0] for x in checks].index(i)
                    after = snaps[j + 1] if j + 1 < len(snaps) else m
                    return None, [before], after
            if not settle(srv):
                return Fail("crash", "run %d operation %d %s: %s" % (rn, i, json.dumps(op)[:200], tail(srv.log))), [], m
            return Fail("op:" + op[0], "run %d operation %d %s: %s" % (rn, i, json.dumps(op)[:300], msg)), [], m
        if died is not None:
            if not settle(srv):
                return Fail("crash", "run %d: %s" % (rn, tail(srv.log))), [], m
            return Fail("client", died.what + died.detail), [], m
        return None, [], m

    def shrinks(self, case, fail):
        for k in range(len(case)):
            if len(case) > 1:
                yield case[:k] + case[k + 1:]
        for k, run in enumerate(case):
            if isinstance(run["end"], list) or run["end"] == "term":
                yield case[:k] + [dict(ops=run["ops"], end="kill")] + case[k + 1:]
            n = len(run["ops"])
            size = n // 2
            while size >= 1:
                for a in range(0, n, size):
                    yield case[:k] + [dict(ops=run["ops"][:a] + run["ops"][a + size:], end=run["end"])] + case[k + 1:]
                size //= 2

    def nontrivial(self, case, stat):
        return stat.get("restored", 0) >= 2 and len(case) >= 2


if __name__ == "__main__":
    sys.exit(main(C13()))
