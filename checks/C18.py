"""C18: the client's tag cache is invisible."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL


class C18(ModelCheck):
    prop = "C18"
    rule = ("random histories of one client with a cache of 1, 2, 3, 8 or 64 entries (and sometimes a second client whose view may "
            "be stale only for tags somebody else changed): additions, growth, attribute changes, deletions, deletion and "
            "re-creation under the same name with another type, and dense lookups by name, index and handle over more tags than the "
            "cache holds, with reads and writes through the handles; every answer is compared with what an uncached lookup returns. "
            "Non-trivial: at least 15 lookups and at least one deletion or growth.")
    quick = 4000
    thorough = 60000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        m = g.m
        g.clients(rng.choice([1, 1, 1, 2]), cache=rng.choice([0, 1, 1, 2, 3, 4, 8, 64]))
        if rng.random() < 0.4:
            g.cdt()
        names = ["n%d" % k for k in range(rng.choice([3, 5, 10, 14]))]
        if rng.random() < 0.4:
            # names up to the full 32 characters that differ in the last one only
            stem = "L" + "".join(rng.choice("abcXYZ_019") for _ in range(31))
            for k in range(len(names)):
                if rng.random() < 0.6:
                    names[k] = stem[:rng.choice([29, 30, 30, 31, 31, 31])] + "abcdefghijklmnop"[k]
        for n in names:
            if rng.random() < 0.7:
                g.tag(name=n)
        for _ in range(rng.randrange(40, 110)):
            c = g.client()
            k = g.wpick(dict(byname=10, byidx=8, hnd=6, add=3, grow=2, delete=3, attr=0.8, write=2, read=2, fqn=1))
            ts = g.usertags()
            if k == "byname":
                g.emit("byname", c, rng.choice(names + ["_tagcount", "nosuch", "_mm0"]))
            elif k == "byidx":
                g.emit("byidx", c, ["i", rng.choice([rng.randrange(len(m.tags)), rng.randrange(len(m.tags)), len(m.tags), -1, 0])])
            elif k == "hnd":
                if ts and rng.random() < 0.8:
                    s = g.handle(c)
                    if s is not None and rng.random() < 0.5:
                        g.write(c, s)
                        g.read(c, s)
                else:
                    g.nh += 1
                    g.emit("hnd", c, g.nh - 1, rng.choice(names), 0)
            elif k == "add":
                g.tag(c, name=rng.choice(names))
            elif k == "grow":
                g.grow(c)
            elif k == "delete" and ts:
                g.emit("del", c, ["i", g.pick(ts).idx])
            elif k == "attr" and ts:
                t = g.pick(ts)
                T = g.tname(t.type)
                if T:
                    g.nh += 1
                    g.emit("add", c, g.nh - 1, t.name, T, t.count, rng.choice([4, 32, 33]))
            elif k == "write":
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
            elif k == "read":
                s = g.some_handle(c)
                if s is not None:
                    g.read(c, s)
            elif k == "fqn":
                s = g.some_handle(c)
                if s is not None:
                    g.emit("fqn", c, s)
        for c in list(m.clients):
            for n in names:
                g.emit("byname", c, n)
            for x in range(len(m.tags)):
                g.emit("byidx", c, ["i", x])
        return g.ops

    def nontrivial(self, case, stat):
        ks = [o[0] for o in case]
        return ks.count("byname") + ks.count("byidx") + ks.count("hnd") >= 15 and "del" in ks


if __name__ == "__main__":
    sys.exit(main(C18()))
