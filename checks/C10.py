"""C10: atomic operations compute the documented result in place."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size, A_RO



class C10(ModelCheck):
    prop = "C10"
    rule = ("random sequences of 20-70 atomic operations (all nine, and undefined codes) on handles of every type, array elements, "
            "members, bit ranges at all positions, with boundary operands and previous values, between ordinary writes, with "
            "events and mappings on the same data and on read-only, owned, queue and system tags; results and all surrounding "
            "bytes read back and compared. Non-trivial: at least 12 operations.")
    quick = 4000
    thorough = 60000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        g.bad = 0.04
        m = g.m
        g.clients(rng.choice([1, 1, 2]))
        for _ in range(rng.choice([0, 1, 2])):
            g.cdt()
        types = rng.choice([None, None, None, ["BOOL"], [rng.choice(ALL)]])
        for _ in range(rng.randrange(2, 7)):
            g.tag(types=types, attr=rng.choice([0, 0, 0, 0, 0, 0, 33]))
        if rng.random() < 0.1:
            g.tag(T="q" + rng.choice(ALL), count=rng.choice([1, 3]))
        if rng.random() < 0.3:
            g.map(g.client())
        for _ in range(rng.choice([0, 0, 1, 3])):
            c = g.client()
            g.event(c, g.handle(c))
        for _ in range(rng.randrange(20, 60)):
            c = g.client()
            k = g.wpick(dict(atomic=12, write=4, sys=0.2, ovr=0.2))
            if k == "atomic":
                s = g.handle(c) if rng.random() < 0.7 else g.some_handle(c)
                if s is None:
                    continue
                h = m.h[s]
                g.atomic(c, s)
                t = m.get(h.index)
                if t is not None and t.queue is None and t.size <= 2000 and rng.random() < 0.8:
                    g.emit("rr", c, ["i", t.idx], 0, (t.count + 7) // 8 if t.type == BOOL else t.size)
            elif k == "write":
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
            elif k == "sys":
                g.nh += 1
                g.emit("hnd", c, g.nh - 1, rng.choice(["_tagcount", "_lastindex", "_time", "_mm0.id", "_mm0.run", "_dbsize"]), 0)
                if g.nh - 1 in m.h:
                    g.atomic(c, g.nh - 1)
                    g.emit("rr", c, ["i", 0], 0, 4)
            elif k == "ovr":
                g.override(c)
            g.poll(4)
        g.pollall()
        g.readall(g.client())
        return g.ops

    def nontrivial(self, case, stat):
        return stat.get("atomic", 0) >= 12


if __name__ == "__main__":
    sys.exit(main(C10()))
