"""C07: event data and identity."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import ModelCheck, main
from gen import Gen, INTS, ALL
from model import BOOL, REAL, LREAL, CUSTOM, QUEUE, TIME, base_size



class C07(ModelCheck):
    prop = "C07"
    rule = ("random histories in which 1-3 modules add and delete events (several per tag and range), switch sending of data on and "
            "off, delete tags, disconnect and come back, and write so that events fire; delivered data is compared byte by byte "
            "with the watched range after the triggering write. Deletions of unknown, foreign and already deleted events are "
            "tried. Non-trivial: at least 3 events delivered with data on and an event deleted.")
    quick = 4000
    thorough = 60000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        g.bad = 0.04
        m = g.m
        n = rng.choice([1, 2, 2, 3])
        g.clients(n)
        for _ in range(rng.choice([0, 0, 1, 2])):
            g.cdt()
        for _ in range(rng.randrange(1, 4)):
            g.tag()
        if rng.random() < 0.1:
            g.tag(T="q" + rng.choice(ALL), count=rng.choice([1, 3]))
        if not g.usertags():
            return g.ops
        for _ in range(rng.randrange(30, 75)):
            c = g.client()
            k = g.wpick(dict(ev=6, opt=6, write=14, raw=4, ed=4, edx=1, foreign=1, delete=0.4, add=0.6, disc=0.4, group=0.4, gw=1))
            mine = g.live_events(c)
            if k == "ev":
                e = g.event(c, g.handle(c), kinds=rng.choice([None, [2], [2, 3], [10, 2]]))
                if e is not None and rng.random() < 0.6:
                    g.emit("eo", c, e, 1)
            elif k == "opt" and mine:
                g.emit("eo", c, g.pick(mine), rng.choice([0, 1, 1]))
            elif k == "write" and g.usertags():
                s = g.some_handle(c)
                if s is not None:
                    g.write(c, s)
            elif k == "raw" and g.usertags():
                g.rawwrite(c)
            elif k == "ed" and m.e:
                es = mine if mine and rng.random() < 0.8 else [s for s, e in m.e.items() if e.c == c]
                if es:
                    g.emit("ed", c, g.pick(es))
            elif k == "edx" and g.usertags():
                g.emit("edx", c, ["i", g.pick(g.usertags()).idx], rng.choice([0, -1, 77, 1000, 3]))
            elif k == "foreign" and m.e:
                g.emit(*rng.choice([["ed", c, g.pick(list(m.e))], ["eo", c, g.pick(list(m.e)), 1]]))
            elif k == "delete" and len(g.usertags()) > 1:
                g.emit("del", c, ["i", g.pick(g.usertags()).idx])
            elif k == "add":
                g.tag(c)
            elif k == "disc" and len(m.clients) > 1:
                for x in list(m.clients):
                    g.emit("ep", x)
                g.emit("disc", c)
                g.emit("connect", c, "m%d" % c, rng.choice([1, 8]), "local")
            elif k == "group":
                g.group(c)
            elif k == "gw" and g.my_groups(c):
                x = g.pick(g.my_groups(c))
                g.emit("gw", c, x, b"".join(g.data(h) for h in m.g[x]["hs"]).hex())
            g.poll(3)
        g.pollall()
        if g.p(0.4):
            g.attrs()
        return g.ops

    def nontrivial(self, case, stat):
        return stat.get("fired", 0) >= 3 and any(o[0] == "eo" for o in case) and any(o[0] == "ed" for o in case)


if __name__ == "__main__":
    sys.exit(main(C07()))
