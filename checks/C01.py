"""C01: what was written last is what is read back, everywhere and nowhere else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen


class C01(ModelCheck):
    prop = "C01"
    rule = ("random programs of 25-70 operations: 1-3 clients (local or TCP), compound types, tags of all types and counts "
            "(some larger than one message), whole, partial, element, bit, member and masked writes through handles and raw "
            "offsets, growth, and reads; every answer compared with a byte-exact model and all tags read back at the end. "
            "Non-trivial: at least 5 writes and 8 reads executed.")
    quick = 1500
    thorough = 20000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        g.bad = 0.04
        g.clients(rng.choice([1, 2, 2, 3]))
        c = g.client()
        for _ in range(rng.choice([0, 1, 2, 3])):
            g.cdt(c)
        big = 0.3 if rng.random() < 0.25 else 0.0
        for _ in range(rng.randrange(2, 7)):
            g.tag(big=big)
        for _ in range(rng.randrange(15, 45)):
            c = g.client()
            k = g.wpick(dict(write=10, raw=3, read=6, rawread=3, tag=1, grow=1, bad=0.5))
            if k == "write":
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
                    if rng.random() < 0.5:
                        g.read(g.client(), s)
            elif k == "raw" and g.usertags():
                g.rawwrite(c)
            elif k == "read":
                s = g.some_handle(c)
                if s is not None:
                    g.read(c, s)
            elif k == "rawread" and g.usertags():
                t = g.pick(g.usertags())
                a, n = g.rawrange(t)
                g.emit("rr", c, ["i", t.idx], a, min(n, 4088))
            elif k == "tag":
                g.tag(big=big)
            elif k == "grow":
                g.grow(c)
            elif k == "bad" and g.usertags():
                t = g.pick(g.usertags())
                off = rng.choice([t.size, t.size - 1, 0, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])
                n = rng.choice([1, 2, 8, min(t.size + 1, 2000)])
                if t.type != 0x10:
                    g.emit(*rng.choice([["rr", c, ["i", t.idx], off, n], ["rw", c, ["i", t.idx], off, g.bytes(n).hex()],
                                        ["rm", c, ["i", t.idx], off, g.bytes(n).hex(), g.bytes(n).hex()]]))
        g.readall(g.client())
        return g.ops

    def nontrivial(self, case, stat):
        return stat.get("writes", 0) + stat.get("masked", 0) >= 5 and stat.get("reads", 0) >= 8


if __name__ == "__main__":
    sys.exit(main(C01()))
