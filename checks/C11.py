"""C11: overrides replace what is read and nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size, A_RO



class C11(ModelCheck):
    prop = "C11"
    rule = ("random histories of adding, setting, clearing, deleting and querying overrides on handles of every kind (bits, elements, "
            "members, whole tags, several overlapping ones per tag), mixed with writes, group reads, atomic operations, growth "
            "and deletion of the tags, by 1-3 modules; every read, query and both counters compared with the model. Non-trivial: "
            "at least 3 overrides added and 5 reads while some were set.")
    quick = 4000
    thorough = 60000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        g.bad = 0.04
        m = g.m
        g.clients(rng.choice([1, 2, 3]))
        for _ in range(rng.choice([0, 1, 2])):
            g.cdt()
        for _ in range(rng.randrange(1, 5)):
            g.tag()
        if rng.random() < 0.1:
            g.tag(T="q" + rng.choice(ALL), count=rng.choice([1, 3]))
        if rng.random() < 0.2:
            g.map(g.client())
        for _ in range(rng.randrange(20, 70)):
            c = g.client()
            k = g.wpick(dict(ovr=10, write=5, read=8, raw=1, full=3, cnt=2, grow=0.6, delete=0.3, add=0.4, group=0.4, gr=1.5, atomic=0.6, sys=0.15, ev=0.2, og=2))
            if k == "ovr":
                g.override(c, g.handle(c) if rng.random() < 0.5 else None)
            elif k == "og":
                s = g.some_handle(c)
                if s is not None:
                    g.emit("og", c, s)
            elif k == "write":
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
            elif k == "read":
                s = g.some_handle(c)
                if s is not None:
                    g.read(c, s)
            elif k == "raw" and g.usertags():
                g.rawwrite(c)
            elif k == "full" and g.usertags():
                t = g.pick(g.usertags())
                if t.queue is None and t.size < 4000:
                    g.emit("rr", c, ["i", t.idx], 0, (t.count + 7) // 8 if t.type == BOOL else t.size)
            elif k == "cnt":
                g.emit("rr", c, ["i", rng.choice([7, 8])], 0, 4)
            elif k == "grow":
                g.grow(c)
            elif k == "delete" and len(g.usertags()) > 1:
                g.emit("del", c, ["i", g.pick(g.usertags()).idx])
            elif k == "add":
                g.tag(c)
            elif k == "group":
                g.group(c)
            elif k == "gr" and g.my_groups(c):
                g.emit("gr", c, g.pick(g.my_groups(c)))
            elif k == "atomic":
                g.atomic(c)
            elif k == "ev":
                g.event(c, None, kinds=[2, 3])
            elif k == "sys":
                g.nh += 1
                g.emit("hnd", c, g.nh - 1, rng.choice(["_tagcount", "_time", "_my_tagname"]), 0)
                if g.nh - 1 in m.h:
                    g.override(c, g.nh - 1)
            g.poll(4)
        g.pollall()
        c = g.client()
        g.emit("rr", c, ["i", 7], 0, 4)
        g.emit("rr", c, ["i", 8], 0, 4)
        g.readall(c)
        # with everything cleared the underlying data shows
        for t in g.usertags(lambda t: t.odata is not None):
            s = g.handle(c, t)
            if s is not None:
                g.emit("oc", c, s)
        g.readall(c)
        g.emit("rr", c, ["i", 8], 0, 4)
        if g.p(0.4):
            g.attrs()
        return g.ops

    def nontrivial(self, case, stat):
        return stat.get("ovr", 0) >= 3 and sum(1 for o in case if o[0] == "os") >= 1 and stat.get("reads", 0) >= 5


if __name__ == "__main__":
    sys.exit(main(C11()))
