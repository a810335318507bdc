"""C04: references resolve to exactly the right bytes and bits."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size



class C04(ModelCheck):
    prop = "C04"
    rule = ("random nested compound layouts (unaligned bit runs, arrays of structures), tags of them and of every base type, "
            "and 40-90 reference strings per case: about two thirds valid (elements, members, bits, counts up to the exact end), "
            "one third out of range or malformed; resolved handles are compared field by field with an independent resolver, "
            "converted back to text which must resolve to the same handle, and written and read to show which bits they address. "
            "Non-trivial: at least 15 handles resolved on at least one compound tag.")
    quick = 2500
    thorough = 40000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        m = g.m
        g.clients(rng.choice([1, 1, 2]))
        for _ in range(rng.randrange(1, 6)):
            g.cdt(maxm=rng.choice([3, 6, 9]), bools=rng.choice([0.3, 0.6]), nest=0.5)
        for _ in range(rng.randrange(2, 7)):
            g.tag(cdt=0.65)
        if rng.random() < 0.3:
            g.tag(T="q" + g.T(0.3).lstrip("q"), count=rng.choice([1, 2, 9]))
        ts = g.usertags()
        for _ in range(rng.randrange(40, 90)):
            c = g.client()
            t = g.pick(ts)
            if rng.random() < 0.68:
                s = g.handle(c, t)
                if s is None:
                    continue
                h = m.h[s]
                if rng.random() < 0.7:
                    g.emit("fqn", c, s)
                if t.queue is None and rng.random() < 0.35:
                    g.write(c, s)
                    g.read(c, s)
                    if t.size < 4000 and rng.random() < 0.5:
                        g.emit("rr", c, ["i", t.idx], 0, (t.count + 7) // 8 if t.type == BOOL else t.size)
            else:
                s, n = g.badref(t)
                if "\0" not in s:
                    g.nh += 1
                    g.emit("hnd", c, g.nh - 1, s, n)
        g.readall(g.client())
        return g.ops

    def nontrivial(self, case, stat):
        return stat.get("handles", 0) >= 15 and any(o[0] == "ct" for o in case)


if __name__ == "__main__":
    sys.exit(main(C04()))
