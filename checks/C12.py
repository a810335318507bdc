"""C12: queues deliver every item once, in order, intact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size, A_RO



class C12(ModelCheck):
    prop = "C12"
    rule = ("random interleavings of writes and reads of 1-4 queues (all types, compound items, arrays, BOOL items of every length, items up to "
            "a whole message) by 1-3 clients with phases that fill, drain and oscillate around every growth limit, group and raw "
            "access, events on queues, and operations that are not allowed on queues (masks, partial access, overrides, "
            "mappings, atomics, growth), all compared with a FIFO model; at the end every queue is drained and must then report "
            "emptiness. Non-trivial: at least 8 items went through and some read found a queue wrapped or empty.")
    quick = 3000
    thorough = 40000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        m = g.m
        g.clients(rng.choice([1, 2, 3]))
        for _ in range(rng.choice([0, 1, 1])):
            g.cdt()
        hs = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            T = g.T(0.3)
            cnt = rng.choice([1, 1, 2, 5, 8, 9, 16, 17])
            if rng.random() < 0.05 and not T.startswith("t"):
                cnt = 4000 // max(1, m.tsize(m.tcode(T)[0]))
            h = g.tag(T="q" + T, count=cnt)
            if h is not None:
                hs.append(h)
        g.tag()
        if not hs:
            return g.ops
        if rng.random() < 0.3:
            c = g.client()
            g.event(c, rng.choice(hs), kinds=[2, 2, 3])
        if rng.random() < 0.2:
            g.group(g.client(), n=2, f=lambda h, t: t.queue is not None)
        bias = 0.5
        n = 0
        seq = 1
        deep = rng.random() < 0.15
        for _ in range(rng.randrange(40, 160) if not deep else 400):
            c = g.client()
            h = rng.choice(hs)
            if m.get(m.h[h].index) is None:
                continue
            if rng.random() < 0.06:
                bias = rng.choice([0.1, 0.5, 0.9, 0.95, 0.5])
            r = rng.random()
            t = m.get(m.h[h].index)
            if r < 0.92:
                if rng.random() < bias:
                    d = bytearray(g.bytes(m.h[h].size))
                    if m.h[h].size >= 4:
                        d[0:4] = seq.to_bytes(4, "little")
                    elif m.h[h].size:
                        d[0] = seq & 255
                    if t.type & ~QUEUE == BOOL and t.count % 8:
                        d[-1] &= (1 << (t.count % 8)) - 1
                    seq += 1
                    if rng.random() < 0.8:
                        g.emit("tw", c, h, bytes(d).hex())
                    else:
                        g.emit("rw", c, ["h", h], 0, bytes(d).hex())
                else:
                    g.emit(*(["tr", c, h] if rng.random() < 0.8 else ["rr", c, ["h", h], 0, max(1, t.qsize)]))
            elif r < 0.98:
                k = rng.randrange(10)
                if k == 0:
                    g.emit("tm", c, h, g.bytes(m.h[h].size).hex() or "-", "ff" * m.h[h].size or "-")
                elif k == 1:
                    g.emit("rw", c, ["h", h], 1, "00")
                elif k == 2:
                    g.emit("rr", c, ["h", h], 0, t.qsize + rng.choice([1, -1]))
                elif k == 3:
                    g.emit("oa", c, h, "00")
                elif k == 4:
                    g.atomic(c, h)
                elif k == 5:
                    T = g.tname(t.type)
                    g.nh += 1
                    g.emit("add", c, g.nh - 1, t.name, T, t.count + rng.choice([0, 1, -1]) or 1, 0)
                elif k == 6:
                    g.map(c, h, g.some_handle(c))
                elif k == 7:
                    g.map(c, g.some_handle(c), h)
                elif k == 8 and g.my_groups(c):
                    x = g.pick(g.my_groups(c))
                    if all(not (q.type & ~QUEUE == BOOL) for q in m.g[x]["hs"]):
                        if rng.random() < 0.5:
                            g.emit("gw", c, x, b"".join(g.bytes(q.size) for q in m.g[x]["hs"]).hex() or "-")
                        else:
                            g.emit("gr", c, x)
                elif k == 9 and rng.random() < 0.3:
                    g.emit("del", c, ["h", h])
                    x = g.tag(T="q" + g.T(0.2), count=2)
                    if x is not None:
                        hs.append(x)
            else:
                T = g.T(0.2)
                x = g.tag(T="q" + T, count=rng.choice([1, 3]))
                if x is not None:
                    hs.append(x)
            g.poll(4)
        g.pollall()
        c = g.client()
        for h in hs:
            t = m.get(m.h[h].index)
            if t is not None:
                for _ in range(len(t.queue) + 1):
                    g.emit("tr", c, h)
        return g.ops

    def nontrivial(self, case, stat):
        return stat.get("writes", 0) >= 8 and stat.get("reads", 0) >= 9


if __name__ == "__main__":
    sys.exit(main(C12()))
