"""C17: concurrent clients see one consistent order of operations."""
import os, random, struct, subprocess, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle
from harness import Server, Proc, Died, tail, env
import wire
from wire import Client, Refused, BOOL, BYTE, DINT, UDINT, INT, LINT, UINT, ULINT, SINT, QUEUE

COUNTERS = {"INT": (INT, "h"), "UINT": (UINT, "H"), "DINT": (DINT, "i"), "UDINT": (UDINT, "I"), "LINT": (LINT, "q"), "ULINT": (ULINT, "Q")}
EMPTY = -20


def linear(ops, initial):
    """ops: ("w"|"r", value, t0, t1, label).  Register with unique written values: Gibbons and Korach's zones."""
    cl = {initial: [("w", -2, -1, "initial value")]}
    for k, v, t0, t1, lab in ops:
        if k == "w":
            cl[v] = [("w", t0, t1, lab)]
    for k, v, t0, t1, lab in ops:
        if k == "r":
            if v not in cl:
                return "%s returned %s, which nobody wrote as a whole" % (lab, v[:64])
            w = cl[v][0]
            if w[1] > t1:
                return "%s returned %s before it was written by %s" % (lab, v[:16], w[3])
            cl[v].append(("r", t0, t1, lab))
    zones = []
    for v, os_ in cl.items():
        f = min(os_, key=lambda o: o[2])
        s = max(os_, key=lambda o: o[1])
        zones.append((min(f[2], s[1]), max(f[2], s[1]), f[2] < s[1], v, f, s))
    fw = sorted(z for z in zones if z[2])
    for a, b in zip(fw, fw[1:]):
        if b[0] < a[1]:
            return "no order explains: value %s was there from the end of %s to the start of %s, value %s from the end of %s to the start of %s" % (
                a[3][:16], a[4][3], a[5][3], b[3][:16], b[4][3], b[5][3])
    for z in zones:
        if not z[2]:
            for a in fw:
                if a[0] < z[0] and z[1] < a[1]:
                    return "no order explains: value %s was there from the end of %s to the start of %s, but %s happened in between" % (
                        a[3][:16], a[4][3], a[5][3], z[4][3])
    return None


def layout(k):
    """compound type k: its description, where its member z is, its size"""
    z = k % 5 + 1 + 2
    d = "ty%d:a,BYTE,%d:b,INT,1" % (k, k % 5 + 1)
    if k % 3:
        d += ":n,ty%d,1" % (k - 1)
        z += layout(k - 1)[2]
    return d + ":z,DINT,2", z, z + 8


class C17(Check):
    prop = "C17"
    technique = "property-based testing of concurrent histories (random schedules, linearizability oracle)"
    rule = ("each case runs 2-9 threads in 1-3 client processes (threads sharing a connection, own connections, local and TCP) that "
            "at the same time do 30-150 operations each on shared counters (atomic increments), shared bytes (own bits), whole tags and "
            "tag groups (unique values), mapped pairs, queues, tag names and members of compound types; every call is recorded with its start and end time. The "
            "recorded history must be explained by a sequential order: exact sums and bounds, no torn value, registers linearizable, every queue "
            "item once and in order, one index per name. Non-trivial: at least 2 threads and 40 overlapping pairs of calls.")
    note = "Random schedules (%d cases quick, %d thorough), no control over the scheduler; trusted: the clock, the history checker." % (1200, 40000)
    quick = 1200
    thorough = 40000
    workers = 4
    conclusive = True

    def gen(self, rng, i, tier):
        objs = []
        for kind in ("counter", "bits", "reg", "group", "queue", "map", "names", "misc", "types"):
            if rng.random() < 0.45:
                objs.append(kind)
        if not objs:
            objs = [rng.choice(["counter", "reg", "group", "queue"])]
        o = {}
        if "counter" in objs:
            o["counter"] = dict(t=rng.choice(sorted(COUNTERS)), n=rng.choice([1, 1, 3, 8]))
        if "reg" in objs:
            o["reg"] = dict(n=rng.choice([8, 64, 700, 2000]))
        if "group" in objs:
            o["group"] = dict(n=[rng.choice([4, 16, 200, 800]) for _ in range(rng.choice([2, 3, 5]))])
        if "queue" in objs:
            o["queue"] = dict(n=rng.choice([1, 2, 40]))
        if "map" in objs:
            o["map"] = dict(n=rng.choice([4, 64, 500]))
        if "bits" in objs:
            o["bits"] = 1
        if "misc" in objs:
            o["misc"] = rng.choice([1, 7, 16])
        if "names" in objs:
            o["names"] = rng.choice([3, 8])
        if "types" in objs:
            o["types"] = rng.choice([3, 12, 30])
        procs = []
        th = 0
        for p in range(rng.choice([1, 1, 2, 3])):
            clients = []
            for c in range(rng.choice([1, 1, 2])):
                clients.append(dict(net=rng.random() < 0.2, cache=rng.choice([0, 1, 8]), threads=rng.choice([1, 2, 3])))
            procs.append(clients)
        if sum(c["threads"] for p in procs for c in p) < 2:
            procs[0][0]["threads"] = 2
        total = sum(c["threads"] for p in procs for c in p)
        bits = list(range(32))
        rng.shuffle(bits)
        nops = rng.choice([30, 60, 150])
        uid = 1
        for p in procs:
            for c in p:
                progs, first = [], rng.random()
                for _ in range(c["threads"]):
                    mine = [bits.pop() for _ in range(min(2, len(bits)))]
                    prog = []
                    pn = rng.choice([0, 0, 0.1, 0.4])
                    favour = rng.choice([None, None] + objs)
                    for _ in range(nops):
                        if rng.random() < pn:
                            prog.append(["nap", rng.choice([0, 0, 20, 200])])
                        k = favour if favour and rng.random() < 0.6 else rng.choice(objs)
                        uid += 1
                        if k == "counter":
                            prog.append(rng.choice([["inc", rng.randrange(o["counter"]["n"]), rng.choice([1, 1, 2, 5])], ["inc", 0, 1], ["cread"]]))
                        elif k == "bits" and mine:
                            prog.append(rng.choice([["bit", rng.choice(mine), rng.randrange(2)], ["xor", rng.choice(mine)], ["bread"]]))
                        elif k == "reg":
                            prog.append(rng.choice([["regw", uid], ["regr"]]))
                        elif k == "group":
                            prog.append(rng.choice([["gw", uid], ["gr"], ["gr"], ["mr", rng.randrange(len(o["group"]["n"]))]]))
                        elif k == "queue":
                            prog.append(rng.choice([["qw", uid], ["qr"]]))
                        elif k == "map":
                            prog.append(rng.choice([["mapw", uid], ["mapr"]]))
                        elif k == "misc":
                            prog.append(rng.choice([["byindex", rng.randrange(9)], ["handle", rng.randrange(o["misc"])], ["evlife"], ["maplife"], ["ovlife", uid], ["grplife"]]))
                        elif k == "types":
                            prog.append(["type", rng.randrange(o["types"])])
                        elif k == "names":
                            prog.append([rng.choice(["add", "add", "get"]), rng.randrange(o["names"])])
                    if "types" in objs and first < 0.6:
                        # every thread of the connection meets the types for the first time at the same time
                        prog[:0] = [["type", x] for x in (range(o["types"]) if first < 0.3 else rng.sample(range(o["types"]), o["types"]))]
                    progs.append(prog)
                c["progs"] = progs
        return dict(objs=o, procs=procs)

    def shrinks(self, case, fail):
        return iter(())

    def run(self, b, cwd, case):
        o = case["objs"]
        srv = Server(b, cwd)
        procs = []
        stat = dict(threads=0, calls=0)
        try:
            s = Client(srv, "setup", timeout=60)
            ix = {}
            if "counter" in o:
                ix["cnt"] = s.add("cnt", COUNTERS[o["counter"]["t"]][0], o["counter"]["n"])
            if "bits" in o:
                ix["bits"] = s.add("bits", BOOL, 32)
            if "reg" in o:
                ix["reg"] = s.add("reg", BYTE, o["reg"]["n"])
            if "group" in o:
                for k, n in enumerate(o["group"]["n"]):
                    ix["g%d" % k] = s.add("g%d" % k, BYTE, n)
            if "queue" in o:
                ix["que"] = s.add("que", DINT | QUEUE, o["queue"]["n"])
            if "misc" in o:
                for pi, clients in enumerate(case["procs"]):
                    for ci, c in enumerate(clients):
                        for ti in range(len(c["progs"])):
                            for x in "xy":
                                n = "%s%d_%d_%d" % (x, pi, ci, ti)
                                ix[n] = s.add(n, BYTE, o["misc"])
                                s.write(ix[n], 0, pat2(n, o["misc"]))
            for k in range(o.get("types", 0)):
                ix["tt%d" % k] = s.add("tt%d" % k, s.cdt(layout(k)[0]), 2)
            if "map" in o:
                n = o["map"]["n"]
                ix["src"], ix["dst"] = s.add("src", BYTE, n), s.add("dst", BYTE, n)
                s.map(s.handle(ix["src"], 0, 0, n, n, BYTE), s.handle(ix["dst"], 0, 0, n, n, BYTE))
            labels = []
            for pi, clients in enumerate(case["procs"]):
                spec, lab = self.spec(o, clients, pi, srv)
                fn = os.path.join(cwd, "spec%d" % pi)
                with open(fn, "w") as f:
                    f.write(spec)
                e = env()
                with open(os.path.join(cwd, "conc%d.log" % pi), "wb") as lf:
                    p = subprocess.Popen([b.conc, fn], cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=lf, env=e)
                procs.append(p)
                labels.append(lab)
            for pi, p in enumerate(procs):
                l = p.stdout.readline()
                if l != b"ready\n":
                    return Outcome(Fail("setup", "client %d: %s %s" % (pi, l, tail(os.path.join(cwd, "conc%d.log" % pi)))), stat)
            for p in procs:
                p.stdin.write(b"go\n")
                p.stdin.flush()
            hist = []
            for pi, p in enumerate(procs):
                try:
                    out, _ = p.communicate(timeout=180)
                except subprocess.TimeoutExpired:
                    return Outcome(Fail("hang", "client process %d did not finish" % pi), stat)
                lines = out.decode().split("\n")
                if "end" not in lines:
                    if not settle(srv):
                        return Outcome(Fail("crash", tail(srv.log)), stat)
                    return Outcome(Fail("client", "client process %d died: %s" % (pi, tail(os.path.join(cwd, "conc%d.log" % pi)))), stat)
                for l in lines[:lines.index("end")]:
                    t, k, t0, t1, rc, hx = l.split(" ")
                    op = labels[pi][int(t)][int(k)]
                    hist.append((pi, int(t), op, int(t0), int(t1), int(rc), "" if hx == "-" else hx))
            stat["calls"] = len(hist)
            stat["threads"] = sum(len(l) for l in labels)
            ts = sorted((h[3], h[4]) for h in hist)
            stat["overlaps"] = sum(1 for a, c in zip(ts, ts[1:]) if c[0] < a[1])
            if not settle(srv):
                return Outcome(Fail("crash", tail(srv.log)), stat)
            msg = self.judge(o, hist, s, ix)
            return Outcome(Fail("history", msg) if msg else None, stat)
        except Refused as e:
            return Outcome(Fail("refused", "setup or final request refused: %s" % e), stat)
        finally:
            for p in procs:
                if p.poll() is None:
                    p.kill()
                p.wait()
                p.stdin.close()
                p.stdout.close()
            srv.stop()

    def spec(self, o, clients, pi, srv):
        out, threads, labels = [], [], []
        for ci, c in enumerate(clients):
            out.append("client %d c%d_%d %s %d %s %d" % (ci, pi, ci, srv.sock, c["cache"], "net" if c["net"] else "local", srv.port))
            slots = {}

            def hnd(ref, count=0):
                k = (ref, count)
                if k not in slots:
                    slots[k] = len(slots)
                    out.append("hnd %d %d %s %d" % (ci, slots[k], ref, count))
                return slots[k]
            if "group" in o:
                hs = [hnd("g%d" % k) for k in range(len(o["group"]["n"]))]
                out.append("grp %d 0 %s" % (ci, " ".join(map(str, hs))))
            if "map" in o:
                hs = [hnd("src"), hnd("dst")]
                out.append("grp %d 1 %s" % (ci, " ".join(map(str, hs))))
            for ti, prog in enumerate(c["progs"]):
                mine = ["%s%d_%d_%d" % (x, pi, ci, ti) for x in "xy"]
                threads.append("thread %d" % ci)
                lab = []
                for op in prog:
                    k = op[0]
                    if k == "nap":
                        l = "nap %d" % op[1]
                    elif k in ("inc", "incall"):
                        f = "<" + COUNTERS[o["counter"]["t"]][1]
                        n = o["counter"]["n"]
                        if k == "inc":
                            l = "at %d 1 %s" % (hnd("cnt[%d]" % op[1] if n > 1 else "cnt", 1 if n > 1 else 0), struct.pack(f, op[2]).hex())
                        else:
                            l = "at %d 1 %s" % (hnd("cnt"), (struct.pack(f, op[1]) * n).hex())
                    elif k == "cread":
                        l = "tr %d" % hnd("cnt")
                    elif k == "bit":
                        l = "tw %d %02x" % (hnd("bits[%d]" % op[1], 1), op[2])
                    elif k == "xor":
                        l = "at %d 8 01" % hnd("bits[%d]" % op[1], 1)
                    elif k == "bread":
                        l = "tr %d" % hnd("bits")
                    elif k == "regw":
                        l = "tw %d %s" % (hnd("reg"), pat(op[1], o["reg"]["n"]))
                    elif k == "regr":
                        l = "tr %d" % hnd("reg")
                    elif k == "gw":
                        l = "gw 0 %s" % "".join(pat(op[1], n) for n in o["group"]["n"])
                    elif k == "gr":
                        l = "gr 0"
                    elif k == "mr":
                        l = "tr %d" % hnd("g%d" % op[1])
                    elif k == "qw":
                        l = "tw %d %s" % (hnd("que"), pat(op[1], 4 * o["queue"]["n"]))
                    elif k == "qr":
                        l = "tr %d" % hnd("que")
                    elif k == "mapw":
                        l = "tw %d %s" % (hnd("src"), pat(op[1], o["map"]["n"]))
                    elif k == "mapr":
                        l = "gr 1"
                    elif k == "byindex":
                        l = "bi %d" % op[1]
                    elif k == "handle":
                        op = op + mine
                        l = "hn %s[%d] 1" % (mine[0], op[1])
                    elif k == "type":
                        l = "hn tt%d[1].z 0" % op[1]
                    elif k == "evlife":
                        l = "ev %d" % hnd(mine[0])
                    elif k == "maplife":
                        op = op + mine
                        l = "mp %d %d" % (hnd(mine[0]), hnd(mine[1]))
                    elif k == "ovlife":
                        op = op + mine
                        l = "ov %d %s" % (hnd(mine[0]), pat(op[1], o["misc"]))
                    elif k == "grplife":
                        op = op + mine
                        l = "ga %d %d" % (hnd(mine[0]), hnd(mine[1]))
                    elif k == "add":
                        l = "add name%d %x %d" % (op[1], DINT, 1)
                    elif k == "get":
                        l = "get name%d" % op[1]
                    threads.append(l)
                    lab.append(op)
                labels.append(lab)
        return "\n".join(out + threads) + "\n", labels

    def judge(self, o, hist, s, ix):
        def lab(h):
            return "%s by process %d thread %d [%d..%d]" % (h[2], h[0], h[1], h[3], h[4])
        for h in hist:
            ok = (0,)
            if h[2][0] == "qr":
                ok = (0, EMPTY)
            elif h[2][0] == "get":
                ok = (0, -5)
            if h[5] not in ok:
                return "%s failed with %d" % (lab(h), h[5])
        n = o.get("misc")
        for h in hist:
            k, want = h[2], None
            if k[0] == "byindex":
                want = SYSTEM[k[1]].encode().hex()
            elif k[0] == "handle":
                want = struct.pack("<3i", ix[k[2]], k[1], 1).hex()
            elif k[0] == "type":
                d, z, size = layout(k[1])
                want = struct.pack("<3i", ix["tt%d" % k[1]], size + z, 8).hex()
            elif k[0] == "maplife":
                want = struct.pack("<4i", ix[k[1]], ix[k[2]], n, n).hex()
            elif k[0] == "ovlife":
                want = pat2(k[2], n).hex() + "ff" * n   # the value below the override
            elif k[0] == "grplife":
                want = (pat2(k[1], n) + pat2(k[2], n)).hex()
            if want is not None and h[6] != want:
                return "%s gave %s, should give %s" % (lab(h), h[6], want)
        if "counter" in o:
            f = COUNTERS[o["counter"]["t"]][1]
            n = o["counter"]["n"]
            w = struct.calcsize(f)
            incs = [[] for _ in range(n)]
            for h in hist:
                if h[2][0] == "inc":
                    incs[h[2][1]].append((h[3], h[4], h[2][2]))
                elif h[2][0] == "incall":
                    for e in incs:
                        e.append((h[3], h[4], h[2][1]))
            fin = struct.unpack("<%d%s" % (n, f), s.read(ix["cnt"], 0, n * w))
            for e in range(n):
                if fin[e] != sum(x[2] for x in incs[e]):
                    return "counter element %d is %d after all increments, their sum is %d" % (e, fin[e], sum(x[2] for x in incs[e]))
            last = {}
            reads = sorted((h for h in hist if h[2][0] == "cread"), key=lambda h: h[4])
            for h in reads:
                v = struct.unpack("<%d%s" % (n, f), bytes.fromhex(h[6]))
                for e in range(n):
                    lo = sum(x[2] for x in incs[e] if x[1] < h[3])
                    hi = sum(x[2] for x in incs[e] if x[0] < h[4])
                    if not lo <= v[e] <= hi:
                        return "%s returned %d for element %d, must be within %d..%d" % (lab(h), v[e], e, lo, hi)
            for a in reads:
                for c in reads:
                    if a[4] < c[3]:
                        x = struct.unpack("<%d%s" % (n, f), bytes.fromhex(a[6]))
                        y = struct.unpack("<%d%s" % (n, f), bytes.fromhex(c[6]))
                        if any(p > q for p, q in zip(x, y)):
                            return "counter went back: %s returned %s, later %s returned %s" % (lab(a), x, lab(c), y)
        if "bits" in o:
            state = {}
            for key in sorted(set((h[0], h[1]) for h in hist)):
                mine = {}
                for h in hist:
                    if (h[0], h[1]) != key:
                        continue
                    if h[2][0] == "bit":
                        mine[h[2][1]] = h[2][2]
                    elif h[2][0] == "xor":
                        mine[h[2][1]] = mine.get(h[2][1], 0) ^ 1
                    elif h[2][0] == "bread":
                        d = bytes.fromhex(h[6])
                        for bit, v in mine.items():
                            if d[bit // 8] >> bit % 8 & 1 != v:
                                return "%s returned bit %d as %d, this thread itself last made it %d" % (lab(h), bit, 1 - v, v)
                state.update(mine)
            d = s.read(ix["bits"], 0, 4)
            for bit in range(32):
                if d[bit // 8] >> bit % 8 & 1 != state.get(bit, 0):
                    return "bit %d is %d in the end, its only writer left it %d" % (bit, 1 - state.get(bit, 0), state.get(bit, 0))
        if "reg" in o:
            n = o["reg"]["n"]
            m = linear([("w", pat(h[2][1], n), h[3], h[4], lab(h)) if h[2][0] == "regw" else ("r", h[6], h[3], h[4], lab(h))
                        for h in hist if h[2][0] in ("regw", "regr")] + [("r", s.read(ix["reg"], 0, n).hex(), 1 << 62, 1 << 62, "final read")], "00" * n)
            if m:
                return "tag: " + m
        if "group" in o:
            ns = o["group"]["n"]
            ops = []
            per = [[] for _ in ns]
            for h in hist:
                if h[2][0] == "gw":
                    ops.append(("w", "".join(pat(h[2][1], n) for n in ns), h[3], h[4], lab(h)))
                    for k, n in enumerate(ns):
                        per[k].append(("w", pat(h[2][1], n), h[3], h[4], lab(h)))
                elif h[2][0] == "gr":
                    ops.append(("r", h[6], h[3], h[4], lab(h)))
                    p = 0
                    for k, n in enumerate(ns):
                        per[k].append(("r", h[6][p:p + 2 * n], h[3], h[4], lab(h)))
                        p += 2 * n
                elif h[2][0] == "mr":
                    per[h[2][1]].append(("r", h[6], h[3], h[4], lab(h)))
            m = linear(ops, "00" * sum(ns))
            if m:
                return "group: " + m
            for k, n in enumerate(ns):
                m = linear(per[k], "00" * n)
                if m:
                    return "group member %d: %s" % (k, m)
        if "map" in o:
            n = o["map"]["n"]
            ops = []
            for h in hist:
                if h[2][0] == "mapr":
                    if h[6][:2 * n] != h[6][2 * n:]:
                        return "%s: source %s and destination %s of a mapping differ" % (lab(h), h[6][:32], h[6][2 * n:2 * n + 32])
                    ops.append(("r", h[6][:2 * n], h[3], h[4], lab(h)))
                elif h[2][0] == "mapw":
                    ops.append(("w", pat(h[2][1], n), h[3], h[4], lab(h)))
            m = linear(ops, "00" * n)
            if m:
                return "mapped tag: " + m
        if "queue" in o:
            n = 4 * o["queue"]["n"]
            wr = {pat(h[2][1], n): h for h in hist if h[2][0] == "qw"}
            rd = {}
            for h in hist:
                if h[2][0] == "qr" and h[5] == 0:
                    if h[6] not in wr:
                        return "%s returned %s, which nobody put into the queue" % (lab(h), h[6][:64])
                    if h[6] in rd:
                        return "%s and %s returned the same item" % (lab(rd[h[6]]), lab(h))
                    if wr[h[6]][3] > h[4]:
                        return "%s returned an item before it was written" % lab(h)
                    rd[h[6]] = h
            t = 1 << 62
            while True:
                try:
                    v = s.read(ix["que"], 0, n).hex()
                except Refused:
                    break
                if v not in wr or v in rd:
                    return "the queue holds %s in the end, which %s" % (v[:64], "was read already" if v in rd else "nobody wrote")
                rd[v] = (9, 9, ["final read"], t, t + 1, 0, v)
                t += 2
            if len(rd) != len(wr):
                return "%d items were written into the queue, %d came out" % (len(wr), len(rd))
            items = sorted(wr)
            for x in items:
                for y in items:
                    if wr[x][4] < wr[y][3] and rd[y][4] < rd[x][3]:
                        return "queue order: %s before %s, but %s before %s" % (lab(wr[x]), lab(wr[y]), lab(rd[y]), lab(rd[x]))
            for h in hist:
                if h[2][0] == "qr" and h[5] == EMPTY:
                    for x in items:
                        if wr[x][4] < h[3] and rd[x][3] > h[4]:
                            return "%s found the queue empty, but %s was in it" % (lab(h), x[:16])
        if "names" in o:
            idx = {}
            for h in hist:
                if h[2][0] in ("add", "get") and h[5] == 0:
                    i = struct.unpack("i", bytes.fromhex(h[6]))[0]
                    if idx.setdefault(h[2][1], i) != i:
                        return "%s gave index %d, the tag has index %d" % (lab(h), i, idx[h[2][1]])
            for h in hist:
                if h[2][0] == "get" and h[5] != 0:
                    for a in hist:
                        if a[2][0] == "add" and a[2][1] == h[2][1] and a[4] < h[3]:
                            return "%s did not find the tag added by %s" % (lab(h), lab(a))
            if len(set(idx.values())) != len(idx):
                return "several names share an index: %s" % idx
            for k, i in idx.items():
                if s.get("name%d" % k)[0] != i:
                    return "name%d is at index %d in the end, the client got %d" % (k, s.get("name%d" % k)[0], i)
        return None

    def nontrivial(self, case, stat):
        return stat.get("threads", 0) >= 2 and stat.get("overlaps", 0) >= 40


SYSTEM = ["_tagcount", "_lastindex", "_tag_added", "_tag_deleted", "_dbsize", "_starttime", "_lastmodule", "_overrides_installed", "_overrides_set"]


def pat2(name, n):
    return (name.encode() * (n // len(name) + 1))[:n]


def pat(uid, n):
    return (struct.pack(">I", uid) * (n // 4 + 1))[:n].hex()


if __name__ == "__main__":
    sys.exit(main(C17()))
