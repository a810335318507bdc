"""C09: group access equals individual access of the members."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size, A_RO



class C09(ModelCheck):
    prop = "C09"
    rule = ("random groups of 1-150 handles (all types, bits, elements, members, queues, duplicates, up to and beyond the size "
            "limits, sometimes dozens of groups so that the server's table grows) created by 1-3 modules, read, written and "
            "deleted in any order between ordinary writes, deletions of members, overrides, ownership changes, mappings and "
            "events; every group read is compared with the concatenation of member reads in the model and every group write "
            "with member writes. Non-trivial: at least 2 group writes and 3 group reads.")
    quick = 4000
    thorough = 60000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        g.bad = 0.04
        m = g.m
        g.clients(rng.choice([1, 2, 3]))
        for _ in range(rng.choice([0, 1, 1, 2])):
            g.cdt()
        for _ in range(rng.randrange(2, 8)):
            g.tag(big=0.05, attr=rng.choice([0, 0, 0, 0, 0, 33, 32]))
        if rng.random() < 0.1:
            g.tag(T="q" + rng.choice(ALL), count=rng.choice([1, 3]))
        many = rng.random() < 0.08
        for _ in range(rng.choice([1, 2, 3]) if not many else rng.randrange(15, 50)):
            self.newgroup(g, rng)
        if rng.random() < 0.3:
            g.map(g.client())
        if rng.random() < 0.3:
            c = g.client()
            g.event(c, g.handle(c), kinds=[2, 3])
        for _ in range(rng.randrange(15, 45)):
            c = g.client()
            k = g.wpick(dict(gr=8, gw=8, gd=1, ga=2, write=6, delete=0.3, ovr=1, own=0.3, atomic=0.5, foreign=0.3, raw=2))
            mine = g.my_groups(c)
            if k == "gr" and mine:
                g.emit("gr", c, g.pick(mine))
            elif k == "gw" and mine:
                x = g.pick(mine)
                g.emit("gw", c, x, b"".join(g.data(h) for h in m.g[x]["hs"]).hex() or "-")
                if rng.random() < 0.4:
                    for h in m.g[x]["hs"][:6]:
                        t = m.get(h.index)
                        if t is not None and t.queue is None and t.size <= 4000 and not t.sys:
                            g.emit("rr", c, ["i", t.idx], 0, (t.count + 7) // 8 if t.type == BOOL else t.size)
            elif k == "gd" and mine:
                g.emit("gd", c, g.pick(mine))
            elif k == "ga":
                self.newgroup(g, rng)
            elif k == "write":
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
            elif k == "delete" and len(g.usertags()) > 2:
                g.emit("del", c, ["i", g.pick(g.usertags()).idx])
            elif k == "ovr":
                g.override(c)
            elif k == "own" and g.usertags():
                t = g.pick(g.usertags())
                T = g.tname(t.type)
                if T:
                    g.nh += 1
                    g.emit("add", c, g.nh - 1, t.name, T, t.count, 33)
            elif k == "atomic":
                g.atomic(c)
            elif k == "raw" and g.usertags():
                g.rawwrite(c)
            g.poll(4)
        g.pollall()
        g.readall(g.client())
        return g.ops

    def newgroup(self, g, rng):
        c = g.client()
        r = rng.random()
        if r < 0.06:
            g.group(c, n=rng.choice([100, 149, 150, 151, 160]), maxsize=10 ** 6)
        elif r < 0.12:
            g.group(c, n=rng.choice([5, 20, 40]), maxsize=10 ** 6)
        elif r < 0.16 and g.m.clients:
            g.nh += 1
            g.emit("hnd", c, g.nh - 1, rng.choice(["_tagcount", "_lastmodule", "_my_tagname", "_overrides_set"]), 0)
            hs = g.live_handles()
            x = [g.nh - 1] + ([g.pick(hs)] if hs else [])
            if all(y in g.m.h for y in x):
                g.ng += 1
                g.emit("ga", c, g.ng - 1, x)
        else:
            g.group(c)

    def nontrivial(self, case, stat):
        return stat.get("gwrites", 0) >= 2 and stat.get("greads", 0) >= 3


if __name__ == "__main__":
    sys.exit(main(C09()))
