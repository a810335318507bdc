"""C14: protected tags stay as they are, and a module that leaves takes only its own things with it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL

SYS = ["_tagcount", "_lastindex", "_tag_added", "_tag_deleted", "_dbsize", "_starttime", "_lastmodule", "_overrides_installed",
       "_overrides_set", "_time", "_my_tagname"]


class C14(ModelCheck):
    prop = "C14"
    rule = ("2-4 modules (some with equal, long or excluded names) own read-only, owned and plain tags; every kind of request "
            "(whole, masked, raw and group writes, atomic operations, mappings made before and after protection, growing, "
            "re-adding, deleting) is aimed by random modules at protected tags, system tags and module status tags at random "
            "ranges, and modules disconnect, die and come back in random order; all protected tags, counters and lookups are "
            "compared with the model. Non-trivial: at least 5 requests aimed at protected tags and one module left.")
    quick = 4000
    thorough = 60000
    exclude = ("hidden",)
    server_args = ("-X", "hidden")

    def gen(self, rng, i, tier):
        g = Gen(rng, exclude=self.exclude)
        m = g.m
        n = rng.choice([2, 3, 3, 4])
        names = [rng.choice(["m%d" % k, "same", "x" * 30, "x" * 32, "hidden" if k else "m0"]) for k in range(n)]
        g.clients(n, names=names)
        for _ in range(rng.choice([0, 1])):
            g.cdt()
        for _ in range(rng.randrange(3, 8)):
            g.tag(attr=rng.choice([0, 33, 33, 33, 32, 4, 1]))
        for c in list(m.clients):
            for _ in range(rng.choice([0, 1, 2])):
                e = g.event(c, g.handle(c), kinds=[2, 3, 10])
            if rng.random() < 0.4:
                g.group(c)
        if rng.random() < 0.5:
            g.map(g.client())
        for _ in range(rng.randrange(25, 65)):
            c = g.client()
            k = g.wpick(dict(attack=10, sysattack=4, modattack=5, leave=1.5, own=1.5, add=1.5, delete=0.6, map=1, read=3, sysread=4,
                             event=0.6, group=0.6, status=2, ovr=0.4, plain=2))
            if k == "attack" and g.usertags():
                ts = g.usertags(lambda t: t.attr & 1) or g.usertags()
                self.attack(g, rng, c, rng.choice(ts))
            elif k == "sysattack":
                self.attack(g, rng, c, m.byname[rng.choice(SYS)])
            elif k == "modattack":
                ts = [t for t in m.tags if t.alive and t.special is not None]
                if ts:
                    self.attack(g, rng, c, rng.choice(ts))
            elif k == "leave" and len(m.clients) > 1:
                for x in list(m.clients):
                    g.emit("ep", x)
                g.emit(rng.choice(["disc", "disc", "drop"]), c)
                if rng.random() < 0.6:
                    g.emit("connect", c, rng.choice(names), rng.choice([1, 8]), "local")
            elif k == "own" and g.usertags():
                t = g.pick(g.usertags())
                T = g.tname(t.type)
                if T:
                    g.nh += 1
                    g.emit("add", c, g.nh - 1, t.name, T, t.count, rng.choice([33, 32, 0, 1]))
            elif k == "add":
                g.tag(c, attr=rng.choice([0, 33, 33, 32, 4]))
            elif k == "delete" and g.usertags():
                g.emit("del", c, ["i", rng.choice([g.pick(g.usertags()).idx, rng.randrange(0, 12)])])
            elif k == "map":
                g.map(c)
            elif k == "read":
                s = g.some_handle(c)
                if s is not None:
                    g.read(c, s)
            elif k == "sysread":
                self.sysread(g, rng, c)
            elif k == "event":
                g.event(c, None, kinds=[2, 3, 10])
            elif k == "group":
                g.group(c)
            elif k == "status":
                g.emit(*rng.choice([["status", c, "run", rng.randrange(2)], ["status", c, "flt", rng.randrange(2)],
                                    ["status", c, "st", "s" * rng.choice([0, 1, 10, 63, 64, 70])]]))
            elif k == "ovr":
                g.override(c)
            elif k == "plain":
                s = g.some_handle(c, lambda h, t: not t.attr & 1)
                if s is not None:
                    g.write(c, s)
            g.poll(3)
        g.pollall()
        c = g.client()
        g.readall(c)
        for t in m.tags:
            if t.special is not None and t.alive:
                g.emit("rr", c, ["i", t.idx], 12, t.size - 12)
            g.emit("byidx", c, ["i", t.idx])
        for n in SYS[:4] + SYS[6:9]:
            t = m.byname[n]
            g.emit("rr", c, ["i", t.idx], 0, t.size)
        m.stat["left"] = sum(1 for o in g.ops if o[0] in ("disc", "drop"))
        return g.ops

    def sysread(self, g, rng, c):
        m = g.m
        t = m.byname[rng.choice([n for n in SYS if n not in ("_time", "_starttime", "_dbsize")])]
        g.emit("rr", c, ["i", t.idx], 0, t.size)

    def attack(self, g, rng, c, t):
        m = g.m
        size = t.size
        if t.type == BOOL:
            size = (t.count + 7) // 8
        k = rng.randrange(9)
        a = rng.randrange(size)
        n = min(size - a, rng.choice([1, 1, 2, 4, 8, size]), 1500)
        if t.special is not None and rng.random() < 0.6:
            a, n = rng.choice([(77, 1), (76, 2), (77, 1), (0, 8), (8, 4), (12, 1), (13, 64), (11, 2), (12, 66)])
        if t.queue is not None:
            return
        if k in (0, 1):
            g.emit("rw", c, ["i", t.idx], a, g.bytes(n).hex())
        elif k in (2, 3):
            g.emit("rm", c, ["i", t.idx], a, g.bytes(n).hex(), g.bytes(n).hex())
        elif k == 4 or k == 5:
            s = g.handle(c, t) if t.special is None or c not in m.clients else self.mhandle(g, rng, c, t)
            if s is None:
                return
            g.write(c, s) if rng.random() < 0.6 else g.atomic(c, s)
        elif k == 6:
            s = g.handle(c, t)
            if s is not None:
                g.ng += 1
                g.emit("ga", c, g.ng - 1, [s])
                if g.ng - 1 in m.g:
                    g.emit("gw", c, g.ng - 1, g.bytes(m.h[s].size).hex())
        elif k == 7:
            src = g.some_handle(c)
            d = g.handle(c, t)
            if src is not None and d is not None and m.h[src].size <= 64 and t.special is None:
                x = g.map(c, src, d)
                g.write(c, src)
        else:
            T = g.tname(t.type)
            if rng.random() < 0.5 and T and not t.sys:
                g.nh += 1
                g.emit("add", c, g.nh - 1, t.name, T, t.count + rng.choice([0, 1, 3]), rng.choice([0, 33, 32, 4]))
            elif t.sys or t.special is not None:
                g.emit("del", c, ["i", t.idx])
        if not t.alive or t.name in ("_time", "_starttime", "_dbsize", "_my_tagname"):
            return
        o = 12 if t.special is not None else 0
        if size <= 4000:
            g.emit("rr", g.client(), ["i", t.idx], o, size - o)

    def mhandle(self, g, rng, c, t):
        if t.name in g.m.clients[c]["stale"]:
            return None
        g.nh += 1
        g.emit("hnd", c, g.nh - 1, t.name + "." + rng.choice(["stop", "run", "reload", "kill", "running", "faulted", "status", "id", "starttime"]), 0)
        return g.nh - 1 if g.nh - 1 in g.m.h else None

    def nontrivial(self, case, stat):
        return any(o[0] in ("disc", "drop") for o in case) and stat.get("writes", 0) + stat.get("masked", 0) + stat.get("atomic", 0) >= 5


if __name__ == "__main__":
    sys.exit(main(C14()))
