"""C03: compound types have one definition, size and layout for everybody."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size


BADT = ["", "1x", "a b", "a-b", "x" * 33, "INT", "bool", "Real", "a:b", "a,b", "_ok_"]
BADM = ["", "1x", "a b", "a.b", "x" * 33, "m[0]", "a:b", "a,b"]


class C03(ModelCheck):
    prop = "C03"
    rule = ("random sequences of compound type definitions (1-12 members, bit runs of every length, arrays, nesting, long and "
            "illegal names, duplicate and conflicting definitions, differing only in case or member order) by 1-3 clients, each "
            "followed by queries of size, members, name and identifier from other clients and by tags of that type that are "
            "written and read. Non-trivial: at least 2 types with 2 or more members.")
    quick = 2500
    thorough = 40000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        m = g.m
        g.clients(rng.choice([1, 2, 3]))
        defs = []
        for _ in range(rng.randrange(3, 14)):
            c = g.client()
            k = g.wpick(dict(new=8, same=2, conflict=2, bad=2, many=0.6))
            s = g.nt
            if k == "new" or not defs:
                s = g.cdt(c, maxm=rng.choice([3, 6, 12]), bools=rng.choice([0.2, 0.5, 0.9]), nest=rng.choice([0, 0.3, 0.6]))
                if s is not None and g.ops and g.ops[-1][0] == "ct":
                    defs.append(g.ops[-1])
            elif k == "same":
                d = rng.choice(defs)
                g.nt += 1
                g.emit("ct", c, s, d[3], d[4])
            elif k == "conflict":
                d = rng.choice(defs)
                ms = [list(x) for x in d[4]]
                name = d[3]
                r = rng.randrange(6)
                if r == 0:
                    ms.append(["extra", "INT", 1])
                elif r == 1:
                    ms[rng.randrange(len(ms))][2] += 1
                elif r == 2 and len(ms) > 1:
                    ms.reverse()
                elif r == 3:
                    name = name.swapcase()
                elif r == 4:
                    ms[rng.randrange(len(ms))][0] += "Q"
                else:
                    ms = ms[:-1] or [["zz", "BOOL", 3]]
                g.nt += 1
                g.emit("ct", c, s, name, ms)
            elif k == "bad":
                g.nt += 1
                r = rng.randrange(5)
                if r == 0:
                    g.emit("ct", c, s, rng.choice(BADT), [["a", "INT", 1]])
                elif r == 1:
                    g.emit("ct", c, s, "Good%d" % s, [["a", "INT", 1], [rng.choice(BADM), "BYTE", 1]])
                elif r == 2:
                    g.emit("ct", c, s, "Good%d" % s, [["a", "INT", 1], ["b", rng.choice(["0x0", "0x11", "0x80000077", "0x1"]), 1]])
                elif r == 3:
                    g.emit("ct", c, s, "Good%d" % s, [["a", "INT", 0]])
                else:
                    g.emit("ct", c, s, "Good%d" % s, [["a", "INT", 1], [rng.choice(["a", "A"]), "BYTE", 1]])
            elif k == "many":
                n = rng.choice([30, 60, 90])
                g.nt += 1
                g.emit("ct", c, s, "Many%d" % s, [["member_%d_%s" % (j, "x" * rng.randrange(12)), g.pick(ALL), rng.choice([1, 1, 2, 9])] for j in range(n)])
            for _ in range(rng.randrange(4)):
                self.query(g)
        for d in defs[:6]:
            c = g.client()
            if d[2] not in m.t:
                continue
            T = "t%d" % d[2]
            h = g.tag(c, T=T, count=rng.choice([1, 1, 2, 3]))
            if h is None or m.h[h].size > 4000:
                continue
            g.emit("tw", c, h, rng.randbytes(m.h[h].size).hex())
            g.emit("tr", g.client(), h)
            t = m.get(m.h[h].index)
            for _ in range(3):
                x = g.handle(g.client(), t, deep=0.95)
                if x is not None:
                    g.write(g.client(), x)
                    g.read(g.client(), x)
            g.readall(g.client(), lambda y: y is t)
        for c in list(m.clients):
            g.emit("cl", c)
            for s in list(m.t):
                for o in ("ci", "sz", "t2s", "cn"):
                    g.emit(o, c, "t%d" % s)
                g.emit("s2t", c, m.typename(m.t[s]))
        return g.ops

    def query(self, g):
        rng, m = g.r, g.m
        c = g.client()
        T = "t%d" % g.pick(list(m.t)) if m.t and rng.random() < 0.8 else rng.choice(["INT", "BOOL", "0x80000000", "0x80000001", "0x80000055", "0x99", "REAL"])
        k = rng.choice(["ci", "sz", "t2s", "cn", "s2t", "cl"])
        if k == "cl":
            g.emit("cl", c)
        elif k == "s2t":
            n = m.typename(m.tcode(T)[0])
            if n is None or rng.random() < 0.2:
                n = rng.choice(["nosuch", "int", "BOOL", "x" * 40, "_module", "Lreal", ""])
            elif rng.random() < 0.3:
                n = n.upper()
            g.emit("s2t", c, n)
        else:
            g.emit(k, c, T)

    def nontrivial(self, case, stat):
        return sum(1 for o in case if o[0] == "ct" and len(o[4]) >= 2) >= 2


if __name__ == "__main__":
    sys.exit(main(C03()))
