"""C16: one answer per request, in order, however the bytes arrive."""
import os, random, select, socket, struct, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle, run_program, list_shrinks
from harness import Server, tail, frame
from gen import Gen
from proxy import Proxy
from wire import Client, Refused, Closed, Silent, BOOL, BYTE, DINT, INT, REAL, QUEUE

SIZES = [(BYTE, 1, 1), (BYTE, 40, 1), (BYTE, 4080, 1), (BYTE, 5000, 1), (DINT, 1, 4), (DINT, 20, 4), (INT, 300, 2), (BOOL, 33, 0), (DINT | QUEUE, 4, 4)]


def tagsize(t):
    typ, count, w = SIZES[t]
    return w * count if w else count // 8 + 1


def rb(rng, n):
    return rng.randbytes(n) if rng.random() < 0.7 else bytes([rng.choice([0, 1, 255])]) * n


def request(rng, tags, base, state):
    """one request as (command, payload); tags: indexes into SIZES, base: index of the first tag of this client"""
    k = rng.choices(["read", "write", "mwrite", "get", "index", "bad", "short", "atomic", "ovr", "group", "event", "cdt", "reg"],
                    [8, 8, 3, 4, 3, 1, 1.5, 2, 2, 2, 2, 1, 0.5])[0]
    n = rng.randrange(len(tags))
    idx, size, typ = base + n, tagsize(tags[n]), SIZES[tags[n]][0]
    queue = typ & QUEUE
    off = 0 if queue else rng.choice([0, rng.randrange(size), rng.randrange(size)])
    length = size if queue else rng.choice([1, size - off, rng.randrange(1, size - off + 1)])
    if k == "read":
        return 6, struct.pack("iII", idx, off, min(length, 4088))
    if k == "write":
        return 7, struct.pack("iI", idx, off) + rb(rng, min(length, 4080))
    if k == "mwrite":
        m = min(length, 2040)
        return 8, struct.pack("iI", idx, off) + rb(rng, 2 * m)
    if k == "get":
        return 4, b"\x01" + rng.choice([b"t%d\0" % idx, b"nix\0", b"t%d" % idx, b"_tagcount\0"])
    if k == "index":
        return 4, b"\x02" + struct.pack("i", rng.choice([idx, -1, 5, 100000]))
    if k == "bad":
        return rng.choice([0, 5, 11, 22, 28, 29, 200, 0x7fffffff, 0x100, 0x10006]), rng.randbytes(rng.choice([0, 1, 30, 4088]))
    if k == "short":
        return rng.randrange(1, 28), rng.randbytes(rng.choice([0, 0, 1, 3])) if rng.random() < 0.5 else b""
    if k == "atomic":
        if typ != DINT:
            return 6, struct.pack("iII", idx, size, 1)
        return 23, struct.pack("<iIIIBHH", idx, 0, 1, typ, 0, rng.choice([1, 2, 8, 99]), 0) + struct.pack("i", rng.randrange(1000))
    if k == "ovr":
        m = min(length, 2000)
        return rng.choice([(24, struct.pack("iII", idx, off, 0) + rb(rng, 2 * m)), (25, struct.pack("iI", idx, off) + rb(rng, m)),
                           (26, struct.pack("iII", idx, off, m)), (27, struct.pack("iI", idx, rng.randrange(2)))])
    if k == "group":
        if not state["groups"] or rng.random() < 0.3:
            hs = b""
            cnt = rng.choice([1, 2, 5])
            for _ in range(cnt):
                j = rng.randrange(len(tags))
                s = min(tagsize(tags[j]), 700)
                hs += struct.pack("<iIBIII", base + j, 0, 0, max(1, s // 4 if SIZES[tags[j]][0] == DINT else s), s, SIZES[tags[j]][0] & ~QUEUE)
            state["groups"] += 1
            return 18, bytes([cnt, 0]) + hs
        g = rng.randrange(state["groups"] + 1)
        return rng.choice([(20, struct.pack("I", g)), (21, struct.pack("I", g) + rb(rng, rng.choice([4000, 3500, 4084]))), (19, struct.pack("I", g))])
    if k == "event":
        if typ & QUEUE or typ == BOOL:
            return 10, struct.pack("ii", idx, rng.randrange(4))
        return rng.choice([(9, struct.pack("iIIIIIB", idx, 0, size // SIZES[tags[n]][2], typ, rng.choice([2, 3]), size, 0)),
                           (12, struct.pack("iiI", idx, rng.randrange(3), 1)), (10, struct.pack("ii", idx, rng.randrange(4)))])
    if k == "cdt":
        return 14, b"\x01" + rng.choice([b"Pt\0", b"Pt", b"nope\0", b"_module\0"])
    return 1, b""


class C16(Check):
    prop = "C16"
    technique = "property-based testing, differential: segmented and merged delivery against one request at a time"
    rule = ("two kinds of cases. Raw: 1-4 connections (local or TCP, registered or not), each with 5-60 requests of every command (valid, "
            "refused, unknown, too short, up to the maximum size of 4096 bytes) on its own tags, groups and events; all streams are cut into "
            "random pieces (single bytes to many messages at once), interleaved and sometimes delayed; the messages received by each "
            "connection must be the same, in the same order, as on a fresh server that gets one whole request at a time. Library: "
            "a random program through the client library with a relay in between that cuts both directions into random pieces, compared with the model. "
            "Non-trivial: at least 10 requests cut or merged.")
    note = "Holds for every generated stream and segmentation: %d cases quick, %d thorough. Trusted: the kernel's sockets." % (1500, 9000)
    quick = 1500
    thorough = 9000

    def gen(self, rng, i, tier):
        if i % 3 == 2:
            g = Gen(rng)
            g.clients(rng.choice([1, 2, 3]), how="net" if rng.random() < 0.4 else "local")
            for _ in range(rng.choice([0, 1])):
                g.cdt(g.client())
            for _ in range(rng.randrange(2, 5)):
                g.tag(big=0.3)
            for _ in range(rng.randrange(8, 25)):
                c = g.client()
                k = g.wpick(dict(write=6, read=6, group=1, gr=2, tag=0.5, event=1, poll=1, raw=2))
                if k == "write" or k == "read":
                    s = g.some_handle(c)
                    if s is not None:
                        (g.write if k == "write" else g.read)(c, s)
                elif k == "group":
                    g.group(c)
                elif k == "gr" and g.my_groups(c):
                    g.emit("gr", c, g.pick(g.my_groups(c)))
                elif k == "tag":
                    g.tag()
                elif k == "raw" and g.usertags():
                    g.rawwrite(c)
                elif k == "event":
                    g.event(c)
                elif k == "poll":
                    g.pollall()
            g.pollall()
            g.readall(g.client())
            return dict(kind="lib", ops=g.ops, pieces=rng.choice([1, 3, 8, 17, 300, 2000]), seed=rng.randrange(1 << 30),
                        delay=rng.choice([0, 0, 0.001]))
        cl = []
        base = None
        for c in range(rng.choice([1, 2, 2, 3, 4])):
            tags = [rng.randrange(len(SIZES)) for _ in range(rng.choice([1, 2, 4]))]
            cl.append(dict(tcp=rng.random() < 0.4, reg=rng.random() < 0.9, tags=tags))
        idx = 11 + 1 + sum(1 for c in cl if c["reg"])
        for c in cl:
            c["base"] = idx
            idx += len(c["tags"])
            st = dict(groups=0)
            c["reqs"] = []
            for _ in range(rng.choice([5, 15, 30, 60])):
                cmd, p = request(rng, c["tags"], c["base"], st)
                c["reqs"].append([cmd, p[:4088].hex()])
        return dict(kind="raw", clients=cl, seed=rng.randrange(1 << 30), style=rng.choice(["tiny", "mixed", "mixed", "large", "frames", "around"]),
                    nap=rng.choice([0, 0.1, 0.5]))

    # ------------------------------------------------------------------
    def setup(self, srv, case):
        s = Client(srv, "setup")
        cs = [Client(srv, "c%d" % i, register=c["reg"], tcp=c["tcp"]) for i, c in enumerate(case["clients"])]
        s.cdt("Pt:x,DINT,1:y,REAL,3:")
        for c in case["clients"]:
            for k, t in enumerate(c["tags"]):
                typ, count, w = SIZES[t]
                got = s.add("t%d" % (c["base"] + k), typ, count)
                if got != c["base"] + k:
                    raise Exception("tag index %d, expected %d" % (got, c["base"] + k))
        return s, cs

    def run(self, b, cwd, case):
        if case["kind"] == "lib":
            n = []

            def mk(srv):
                n.append(Proxy(srv, cwd, case["seed"], case["pieces"], case["delay"]))
                return n[0]
            o = run_program(b, cwd, case["ops"], proxy=mk, timeout=100)
            o.stat["cut"] = n[0].moved if n else 0
            return o
        # reference: one request at a time
        want = []
        srv = Server(b, cwd)
        try:
            s, cs = self.setup(srv, case)
            for c, spec in zip(cs, case["clients"]):
                got = []
                for cmd, p in spec["reqs"]:
                    c.send(cmd, bytes.fromhex(p))
                    while True:
                        m = c.recv()
                        got.append(m)
                        if not m[0] & 0x80000000:
                            break
                want.append(got)
            for c in cs + [s]:
                c.close()
        except (Closed, Silent, socket.timeout, OSError) as e:
            if not settle(srv):
                return Outcome(Fail("crash", "requests sent one at a time: " + tail(srv.log)))
            return Outcome(Fail("single", "no answer to request %d of connection %d sent alone (%r)" % (len([m for m in got if not m[0] & 0x80000000]), len(want), e)))
        finally:
            srv.stop()
        os.rename(os.path.join(cwd, "tagserver.log"), os.path.join(cwd, "ref.log"))
        try:
            os.unlink(os.path.join(cwd, "retentive.db"))
        except OSError:
            pass
        srv = Server(b, cwd)
        try:
            s, cs = self.setup(srv, case)
            return self.stream(srv, cs, case, want)
        finally:
            srv.stop()

    def stream(self, srv, cs, case, want):
        rng = random.Random(case["seed"])
        data = [b"".join(frame(cmd, bytes.fromhex(p)) for cmd, p in c["reqs"]) for c in case["clients"]]
        bounds = []
        for c in case["clients"]:
            p, bs = 0, []
            for cmd, x in c["reqs"]:
                p += len(x) // 2 + 8
                bs.append(p)
            bounds.append(bs)
        pos = [0] * len(cs)
        got = [[] for _ in cs]
        cut = 0
        for c in cs:
            c.s.setblocking(False)

        def pump(wait=0.0):
            r, _, _ = select.select([c.s for c in cs], [], [], wait)
            for i, c in enumerate(cs):
                if c.s in r:
                    try:
                        d = c.s.recv(65536)
                    except BlockingIOError:
                        continue
                    except OSError:
                        d = b""
                    if not d:
                        raise Closed("connection %d was closed by the server" % i)
                    c.buf += d
                    while len(c.buf) >= 8:
                        n, t = struct.unpack(">II", c.buf[:8])
                        if n > 1 << 20:
                            raise Closed("connection %d received an impossible message size %d" % (i, n))
                        if len(c.buf) < 8 + n:
                            break
                        got[i].append((t, c.buf[8:8 + n]))
                        c.buf = c.buf[8 + n:]
        try:
            last = time.time()
            while any(p < len(d) for p, d in zip(pos, data)):
                i = rng.choice([k for k in range(len(cs)) if pos[k] < len(data[k])])
                style = case["style"] if case["style"] != "mixed" else rng.choice(["tiny", "large", "frames", "around", "medium"])
                rest = len(data[i]) - pos[i]
                if style == "tiny":
                    n = rng.choice([1, 2, 3, 5, 7, 8, 9, 12])
                elif style == "medium":
                    n = rng.randrange(1, 3000)
                elif style == "large":
                    n = rng.randrange(1, 30000)
                else:
                    ends = [x for x in bounds[i] if x > pos[i]]
                    n = rng.choice(ends[:4]) - pos[i]
                    if style == "around":
                        n += rng.choice([-9, -8, -1, 1, 3, 4, 7, 8, 9])
                n = max(1, min(n, rest))
                if style == "tiny" and rest > 3000 and len(case["clients"][i]["reqs"]) > 10:
                    n *= 25
                try:
                    k = cs[i].s.send(data[i][pos[i]:pos[i] + n])
                    pos[i] += k
                    if pos[i] not in bounds[i] or k > 4096:
                        cut += 1
                    last = time.time()
                except BlockingIOError:
                    pump(0.05)
                    if time.time() - last > 30:
                        raise Silent("the server stopped reading from connection %d" % i)
                pump()
                if rng.random() < case["nap"] * 0.2:
                    time.sleep(0.001)
            end = time.time() + 30
            while time.time() < end and any(len(g) < len(w) for g, w in zip(got, want)):
                before = sum(map(len, got))
                pump(0.1)
                if sum(map(len, got)) > before:
                    end = time.time() + 30
            for i, c in enumerate(cs):
                for k, (g, w) in enumerate(zip(got[i], want[i])):
                    if g != w:
                        return self.bad(srv, "diff", "connection %d message %d is type %08x with %d bytes %s, sent alone the request was answered with type %08x and %d bytes %s" % (
                            i, k, g[0], len(g[1]), g[1][:40].hex(), w[0], len(w[1]), w[1][:40].hex()))
                if len(got[i]) < len(want[i]):
                    return self.bad(srv, "missing", "connection %d received %d of %d messages" % (i, len(got[i]), len(want[i])))
            # nothing more may come but the answer to this
            for c in cs:
                c.s.sendall(frame(4, b"\x01_lastindex\0"))
            end = time.time() + 30
            while time.time() < end and any(len(g) <= len(w) for g, w in zip(got, want)):
                pump(0.1)
            for i, c in enumerate(cs):
                x = got[i][len(want[i]):]
                if len(x) != 1 or x[0][0] != 0x01000004 or not x[0][1].endswith(b"_lastindex\0"):
                    return self.bad(srv, "extra", "connection %d: after all answers came %s" % (i, [(hex(t), p[:30]) for t, p in x]))
        except (Closed, Silent, ConnectionError, BrokenPipeError) as e:
            return self.bad(srv, "closed", "%s" % e)
        if not settle(srv):
            return Outcome(Fail("crash", tail(srv.log)))
        return Outcome(None, dict(cut=cut, requests=sum(len(c["reqs"]) for c in case["clients"]), bytes=sum(map(len, data))))

    def bad(self, srv, kind, msg):
        if not settle(srv):
            return Outcome(Fail("crash", tail(srv.log)))
        return Outcome(Fail(kind, msg))

    def shrinks(self, case, fail):
        if case["kind"] == "lib":
            for x in list_shrinks(case["ops"]):
                yield dict(case, ops=x)
            return
        cl = case["clients"]
        for i, c in enumerate(cl):
            if c["reqs"]:
                yield dict(case, clients=cl[:i] + [dict(c, reqs=[])] + cl[i + 1:])
        for i, c in enumerate(cl):
            for x in list_shrinks(c["reqs"]):
                yield dict(case, clients=cl[:i] + [dict(c, reqs=x)] + cl[i + 1:])

    def sample(self, case):
        if case["kind"] == "lib":
            return case
        return dict(case, clients=[dict(c, reqs=[[r[0], r[1][:60]] for r in c["reqs"]]) for c in case["clients"]])

    def nontrivial(self, case, stat):
        return stat.get("cut", 0) >= 10


if __name__ == "__main__":
    sys.exit(main(C16()))
