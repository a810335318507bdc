"""C08: mappings copy every source change to the destination."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size



class C08(ModelCheck):
    prop = "C08"
    rule = ("random sets of 1-8 mappings between random handles (bytes to bytes, bits to bits at different positions, bits to words "
            "and back, elements, members, ranges within one tag, mirrored pairs and longer cycles), 15-50 writes of every kind "
            "that hit, straddle and miss the sources, queries and deletions of mappings and of tags, and events on destinations; "
            "sources and destinations are read back in full after every few writes. Non-trivial: mapped writes happened at least 3 times.")
    quick = 4000
    thorough = 60000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        g.bad = 0.04
        m = g.m
        g.clients(rng.choice([1, 2, 3]))
        for _ in range(rng.choice([0, 0, 1, 2])):
            g.cdt()
        types = rng.choice([None, None, ["BOOL"], ["BYTE", "BOOL", "WORD"], ["DINT", "UDINT", "REAL"]])
        for _ in range(rng.randrange(2, 7)):
            g.tag(types=types, cdt=0.15, attr=rng.choice([0, 0, 0, 0, 33]))
        if len(g.usertags()) < 2:
            return g.ops
        if rng.random() < 0.05:
            g.tag(T="q" + rng.choice(ALL), count=2)
        cyc = rng.random() < 0.15
        if cyc:
            # a cycle over tags of equal shape; no events on it, so that only the values matter
            T = rng.choice(["INT", "DINT", "BYTE"])
            hs = [g.tag(T=T, count=1) for _ in range(rng.choice([2, 2, 3]))]
            if len(hs) == 2:
                c = g.client()
                g.nm += 2
                g.emit("ma", c, g.nm - 2, hs[0], hs[1])
                g.emit("ma", c, g.nm - 1, hs[1], hs[0])
                g.maps += [(m.h[hs[0]], m.h[hs[1]]), (m.h[hs[1]], m.h[hs[0]])]
        for _ in range(rng.randrange(1, 9)):
            c = g.client()
            self.newmap(g, c)
        if rng.random() < 0.4:
            for a, b in g.maps[:3]:
                if not cyc:
                    c = g.client()
                    t = m.get(b.index)
                    if t is not None:
                        g.event(c, g.handle(c, t), kinds=[2, 3])
        for _ in range(rng.randrange(15, 50)):
            c = g.client()
            k = g.wpick(dict(src=12, any=4, raw=3, atomic=2, md=1, mg=2, ma=1, delete=0.25, group=0.5, gw=1, read=4, mdx=0.4, own=0.2))
            if k == "src" and g.maps:
                a, b = g.pick(g.maps)
                t = m.get(a.index)
                if t is not None:
                    s = g.handle(c, t)
                    if s is not None:
                        g.write(c, s)
                    if rng.random() < 0.6:
                        self.readtag(g, m.get(b.index))
            elif k == "any":
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
            elif k == "raw" and g.usertags():
                g.rawwrite(c)
            elif k == "atomic":
                g.atomic(c)
            elif k == "md" and m.m:
                g.emit("md", c, g.pick(list(m.m)))
            elif k == "mg" and m.m:
                g.emit("mg", c, g.pick(list(m.m)))
            elif k == "ma":
                self.newmap(g, c)
            elif k == "delete" and len(g.usertags()) > 2:
                t = g.pick(g.usertags())
                g.emit("del", c, ["i", t.idx])
            elif k == "group":
                g.group(c)
            elif k == "gw" and g.my_groups(c):
                x = g.pick(g.my_groups(c))
                g.emit("gw", c, x, b"".join(g.data(h) for h in m.g[x]["hs"]).hex())
            elif k == "read" and g.usertags():
                self.readtag(g, g.pick(g.usertags()))
            elif k == "own" and g.usertags():
                t = g.pick(g.usertags())
                T = g.tname(t.type)
                if T:
                    g.nh += 1
                    g.emit("add", c, g.nh - 1, t.name, T, t.count, 33)
            g.poll(4)
        g.pollall()
        g.readall(g.client())
        for s in list(m.m):
            g.emit("mg", g.client(), s)
        if g.p(0.4):
            g.attrs()
        return g.ops

    def variant(self, g, c):
        """an existing mapping's source, and a destination that differs from its destination only in the position"""
        m = g.m
        a, b = g.pick(g.maps)
        t = m.get(b.index)
        if t is None or m.get(a.index) is None or t.name in m.clients[c]["stale"]:
            return None, None
        s = next((k for k, h in m.h.items() if h.tup() == a.tup()), None)
        for _ in range(3):
            slot, e = g.nh, g.r.randrange(t.count)
            g.nh += 1
            if t.type & (CUSTOM | QUEUE):
                slot = g.handle(c, t)
                if slot is None:
                    continue
            elif b.type == BOOL and t.type != BOOL:
                bits = 8 * base_size(t.type)
                g.emit("hnd", c, slot, "%s[%d].%d" % (t.name, b.byte // base_size(t.type) if g.p(0.7) else e, g.r.randrange(bits)), b.count)
            else:
                g.emit("hnd", c, slot, "%s[%d]" % (t.name, min(t.count - 1, 8 * b.byte + g.r.randrange(8)) if t.type == BOOL and g.p(0.7) else e), b.count)
            h = m.h.get(slot)
            if h is not None and h.tup() != b.tup() and (h.size, h.type, h.count) == (b.size, b.type, b.count) and not g._bitoverlap(h, b):
                return s, slot
        return None, None

    def newmap(self, g, c):
        s = d = None
        if g.maps and g.p(0.3):
            s, d = self.variant(g, c)
        if s is None or d is None:
            s, d = g.some_handle(c), g.some_handle(c)
        if s is None or d is None:
            return
        if g.m.h[s].size > g.m.h[d].size and g.p(0.9):
            s, d = d, s
        g.map(c, s, d)

    def readtag(self, g, t):
        if t is not None and t.queue is None and t.size < 4000:
            g.emit("rr", g.client(), ["i", t.idx], 0, (t.count + 7) // 8 if t.type == BOOL else t.size)

    def nontrivial(self, case, stat):
        return stat.get("mapped", 0) >= 3


if __name__ == "__main__":
    sys.exit(main(C08()))
