"""C02: names and indexes always resolve to the right live tag."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size


BADNAMES = ["", "1abc", "a b", "a-b", "a.b", "a[1]", "_user", "_tagcount", "x" * 33, "y" * 60, "tag\xe9", "a$", " a", "a ", "[", "."]
BADTYPES = ["0x0", "0x1", "0x7", "0x11", "0x17", "0x33", "0x45", "0x47", "0x56", "0x1000", "0x80000063", "0x90000000", "0xffffffff", "0x20"]


class C02(ModelCheck):
    prop = "C02"
    rule = ("random histories of adding, re-adding, growing, deleting and looking up tags by name, index and handle from 1-3 "
            "clients, with names built to collide in prefixes and in case, illegal names, types and counts, attributes, and "
            "(every 20th case) over 1024 tags so that the database grows; system tags are read throughout. Every answer is "
            "compared with the model and every name and index ever used is looked up at the end. Non-trivial: a tag was "
            "deleted or grown and at least 10 lookups made.")
    quick = 2500
    thorough = 40000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        m = g.m
        g.clients(rng.choice([1, 2, 3]), cache=rng.choice([1, 2, 8]))
        for _ in range(rng.choice([0, 0, 1, 2])):
            g.cdt()
        names = ["a", "A", "aa", "ab", "aB", "b", "B", "z", "Z", "a1", "a_", "abc", "ABC", "m", "n", "zz", "x" * 32, "x" * 31, "x" * 31 + "y"]
        names += ["tag%d" % k for k in rng.sample(range(100), 20)]
        big = i % 20 == 19
        if big:
            c = g.client()
            order = list(range(rng.choice([1030, 1100, 2100])))
            rng.shuffle(order)
            for k in order:
                g.emit("add", c, 0, "b%d" % k, rng.choice(["BYTE", "DINT", "BOOL"]), 1, 0)
            names += ["b%d" % k for k in rng.sample(order, 60)]
        self.slot = 1
        for _ in range(rng.randrange(25, 80)):
            c = g.client()
            k = g.wpick(dict(add=10, readd=4, grow=3, delete=6, byname=8, byidx=5, sysread=4, bad=3, write=5, read=4, hnd=2))
            alive = g.usertags()
            if k == "add":
                g.tag(c, name=rng.choice(names), attr=rng.choice([0, 0, 0, 0, 4, 32, 33, 1, 36]))
            elif k == "readd" and alive:
                t = g.pick(alive)
                T = g.tname(t.type) if rng.random() < 0.8 else g.T()
                if T:
                    g.tag(c, T=T, count=max(1, t.count + rng.choice([0, 0, -1, 1])), name=t.name, attr=rng.choice([0, 0, 4, 32, 33]))
            elif k == "grow":
                g.grow(c)
            elif k == "delete":
                if alive and rng.random() < 0.85:
                    g.emit("del", c, ["i", g.pick(alive).idx])
                else:
                    g.emit("del", c, ["i", rng.choice([-1, 0, 3, 10, 11, len(m.tags), len(m.tags) - 1, 1 << 20, 2 ** 31 - 1])])
            elif k == "byname":
                g.emit("byname", c, rng.choice(names + ["_tagcount", "_lastindex", "_mm0", "nosuch", ""]))
            elif k == "byidx":
                g.emit("byidx", c, ["i", rng.choice([0, 5, 10, 11, -1, len(m.tags), len(m.tags) - 1, rng.randrange(len(m.tags))])])
            elif k == "sysread":
                idx = rng.choice([0, 1, 2, 3])
                g.emit("rr", c, ["i", idx], 0, [4, 4, 47, 47][idx])
            elif k == "bad":
                s = g.nh
                g.nh += 1
                r = rng.random()
                if r < 0.5:
                    g.emit("add", c, s, rng.choice(BADNAMES), "INT", 1, 0)
                elif r < 0.8:
                    g.emit("add", c, s, g.name(), rng.choice(BADTYPES), 1, 0)
                else:
                    g.emit("add", c, s, g.name(), rng.choice(["LINT", "BOOL", "DINT"]), rng.choice([0, 0, 2 ** 31 - 1 if rng.random() < 0 else 0]), 0)
            elif k == "write" and alive:
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
            elif k == "read" and alive:
                s = g.some_handle(c)
                if s is not None:
                    g.read(c, s)
            elif k == "hnd":
                g.nh += 1
                g.emit("hnd", c, g.nh - 1, rng.choice(names), 0)
        c = g.client()
        for n in names:
            g.emit("byname", c, n)
        for x in (range(len(m.tags)) if not big else rng.sample(range(len(m.tags)), 60)):
            g.emit("byidx", c, ["i", x])
        for idx, sz in ((0, 4), (1, 4), (2, 47), (3, 47)):
            g.emit("rr", c, ["i", idx], 0, sz)
        g.readall(c) if not big else None
        m.stat["dead"] = sum(1 for t in m.tags if not t.alive)
        if g.p(0.4):
            g.attrs()
        return g.ops

    def nontrivial(self, case, stat):
        ks = [o[0] for o in case]
        return ks.count("del") + ks.count("add") > 6 and ks.count("byname") + ks.count("byidx") >= 10


if __name__ == "__main__":
    sys.exit(main(C02()))
