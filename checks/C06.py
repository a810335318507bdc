"""C06: events fire exactly when their condition becomes true."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size



class C06(ModelCheck):
    prop = "C06"
    rule = ("random histories with 1-3 modules, tags of every type, 3-12 events of every kind on whole tags, elements, members and "
            "bit ranges (values and comparison values drawn from a small pool so that conditions come and go), then 20-60 whole, "
            "partial, masked, raw, group, atomic and mapped writes by all modules and occasional deletions; the events every "
            "module receives are polled and compared with the model's. Non-trivial: at least 4 events fired and at least twice "
            "as many were evaluated.")
    quick = 4000
    thorough = 60000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        g.bad = 0.04
        m = g.m
        g.clients(rng.choice([1, 2, 2, 3]))
        for _ in range(rng.choice([0, 0, 1, 2])):
            g.cdt()
        focus = rng.random()
        types = None if focus < 0.5 else [rng.choice(ALL)]
        for _ in range(rng.randrange(1, 5)):
            g.tag(types=types, cdt=0.15)
        if rng.random() < 0.08:
            g.tag(T="q" + rng.choice(ALL), count=rng.choice([1, 3]))
        if not g.usertags():
            return g.ops
        for _ in range(rng.randrange(3, 12)):
            c = g.client()
            if rng.random() < 0.05:
                # system tags can be watched too
                g.nh += 1
                g.emit("hnd", c, g.nh - 1, rng.choice(["_tagcount", "_lastindex", "_tag_added", "_tag_deleted", "_overrides_installed"]), 0)
                if g.nh - 1 in m.h:
                    g.event(c, g.nh - 1)
            else:
                g.event(c, g.handle(c))
        if rng.random() < 0.3:
            g.map(g.client())
        for c in list(m.clients):
            if rng.random() < 0.3:
                g.group(c)
        for _ in range(rng.randrange(20, 60)):
            c = g.client()
            k = g.wpick(dict(write=10, hw=6, raw=3, group=2, atomic=3, event=1, delete=0.25, add=0.2, ovr=0.2))
            evs = g.live_events()
            if k == "write" and g.usertags():
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
            elif k == "hw" and evs:
                # write exactly (a part of) what an event watches
                h = m.e[g.pick(evs)].h
                t = m.get(h.index)
                if t.queue is None and not t.sys:
                    if h.type in (BOOL,) or h.type & CUSTOM:
                        g.rawwrite(c, t)
                    else:
                        n = base_size(h.type)
                        j = rng.randrange(h.count)
                        g.emit("rw", c, ["i", t.idx], h.byte + j * n, g.value(h.type).hex())
            elif k == "raw" and g.usertags():
                g.rawwrite(c)
            elif k == "group" and g.my_groups(c):
                x = g.pick(g.my_groups(c))
                g.emit("gw", c, x, b"".join(g.data(h) for h in m.g[x]["hs"]).hex())
            elif k == "atomic":
                g.atomic(c)
            elif k == "event":
                g.event(c)
            elif k == "delete" and len(g.usertags()) > 1:
                g.emit("del", c, ["i", g.pick(g.usertags()).idx])
            elif k == "add":
                g.tag(c)
            elif k == "ovr":
                g.override(c)
            g.poll(4)
        g.pollall()
        if g.p(0.4):
            g.attrs()
        return g.ops

    def nontrivial(self, case, stat):
        return stat.get("fired", 0) >= 4 and stat.get("evaluated", 0) >= 2 * stat.get("fired", 0)


if __name__ == "__main__":
    sys.exit(main(C06()))
