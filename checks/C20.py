"""C20: waiting for events and answers: time limits, order, late answers."""
import collections, json, os, random, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle, list_shrinks
from harness import Server, Driver, Died, tail
from gate import Gate
from wire import Client, BYTE, DINT

SIZES = [3, 17, 100, 900, 4000]
EARLY, LATE = 0.001, 0.7


class C20(Check):
    prop = "C20"
    technique = "scripted message delays between library and real server (relay), random schedules, timing and FIFO oracle"
    rule = ("random schedules of 6-16 steps for one client whose connection runs through a relay that holds requests and answers "
            "back for scripted times and cuts messages in two with a pause between the parts: reads and writes answered in time, reads whose answer comes 1-3 "
            "message timeouts late followed by further reads, bursts of 1-12 events from another client, event waits with time limits of 10-2300 ms (and none) with the "
            "event before, within and after the limit, event polls, and a cut connection. Message timeouts from 500 to 2100 ms. "
            "Oracle: an answer in time gives success and the right data, a late one the timeout error not earlier than the limit and never the "
            "answer of another request; waits end not earlier than their limit without event, and promptly with the oldest event; events come "
            "once, in order, with their data, and only the oldest of more than eight get lost. Non-trivial: a time limit ended, and an event was delivered.")
    quick = 500
    thorough = 6000
    workers = 40
    confirm = (8, 2)     # some failures depend on the position within the second
    assumptions = ("the scheduler does not stall the processes for more than 75 ms in two of three repetitions",)

    def gen(self, rng, i, tier):
        O = rng.choice([500, 500, 500, 501, 600, 700, 999, 1000, 1250, 1600, 2100, 100, 499])
        T = O if O >= 500 else 1000     # values out of range mean the default
        steps = []
        cost = 0
        n = rng.randrange(6, 17)
        while len(steps) < n and cost < 5000:
            k = rng.choices(["read", "write", "late", "burst", "poll", "drain", "wait", "ping"], [5, 1.5, 2, 3, 3, 0.7, 7, 1])[0]
            h = lambda: rng.choice([0, 0, 0, rng.randrange(0, T // 4)])
            if k == "read":
                s = ["read", rng.randrange(5), h(), h(), 0, 0, rng.choice([0, 0, 0, 1, 2, 5, 9])]
                if rng.random() < 0.3:
                    s[4] = rng.choice([1, 4, 7, 8, 9, 10, 50])
                    s[5] = rng.choice([5, 20, T // 5])
                cost += s[2] + s[3] + s[5]
            elif k == "write":
                s = ["write", rng.randrange(5), h(), h(), rng.randrange(1 << 30)]
            elif k == "late":
                late = rng.choice([1, 1, 1, 2, 3]) if T < 750 else 1
                s = ["late", [rng.randrange(5) for _ in range(late + 1)], T // 2, rng.choice(["req", "resp", "split"]), rng.choice([0, 0, 1, 3]), rng.choice([1, 5, 8, 9, 10])]
                cost += late * T + T // 2
            elif k == "burst":
                s = ["burst", [rng.randrange(2) for _ in range(rng.choice([1, 2, 3, 5, 7, 8, 8, 9, 12]))]]
            elif k == "wait":
                w = rng.choice([10, 30, 60, 100, 250, 400, 999, 1000, 1001, rng.randrange(1, 500), rng.randrange(1000, 2300)])
                x = rng.random()
                if x < 0.4:
                    s = ["wait", w, 0, 0]
                    cost += w
                elif x < 0.6:
                    s = ["wait", 0, rng.choice([0, 20, 100, 300]), rng.choice([1, 1, 2])]
                    cost += s[2]
                elif x < 0.85:
                    w = max(w, 200)
                    s = ["wait", w, rng.randrange(0, w - 150), rng.choice([1, 1, 3, 9])]
                    cost += s[2]
                else:
                    w = min(w, 400)
                    s = ["wait", w, w + 150, 1]
                    cost += w + 150
            else:
                s = [k]
            steps.append(s)
        if rng.random() < 0.2:
            steps.append(["cut", rng.randrange(20, 400)])
        return dict(tmo=O, seed=rng.randrange(1 << 30), steps=steps)

    def shrinks(self, case, fail):
        if fail.at is not None and fail.at + 1 < len(case["steps"]):
            yield dict(case, steps=case["steps"][:fail.at + 1])
        for s in list_shrinks(case["steps"]):
            yield dict(case, steps=s)

    def run(self, b, cwd, case):
        srv = Server(b, cwd)
        drv = gate = None
        stat = collections.Counter()
        try:
            w = Client(srv, "w")
            r = random.Random(case["seed"])
            data = [bytearray(r.randbytes(n)) for n in SIZES]
            idx = [w.add("d%d" % k, BYTE, n) for k, n in enumerate(SIZES)]
            for k in range(5):
                w.write(idx[k], 0, bytes(data[k]))
            ev = [w.add("ev0", DINT, 1), w.add("ev1", BYTE, 10)]
            gate = Gate(srv, cwd)
            drv = Driver(b, cwd)
            T = case["tmo"] if case["tmo"] >= 500 else 1000
            a = drv.ask(["connect 0 67 8 local %s 0 %d" % (gate.sock, case["tmo"]), "hnd 0 0 657630 0", "hnd 0 1 657631 0", "ea 0 0 0 2 -", "ea 0 1 1 2 -", "eo 0 0 1", "eo 0 1 1"], 20)
            if any(x.split()[0] != "0" for x in a):
                return Outcome(Fail("setup", "setting up failed: %s" % a), stat)
            q = collections.deque(maxlen=8)
            errs = []

            def fire(which):
                d = r.randbytes(4 if which == 0 else 10)
                w.write(ev[which], 0, d)
                q.append("e%d:%d:%s" % (which, len(d), d.hex()))
                stat["events"] += 1

            def ask(line, late=20):
                t0 = time.monotonic()
                x = drv.ask([line], late)[0]
                return x.strip(), time.monotonic() - t0

            def during(line, delay, which):
                """run the line while another client causes events"""
                def go():
                    try:
                        time.sleep(delay)
                        for k in which:
                            fire(k)
                    except Exception as e:
                        errs.append(e)
                t = threading.Thread(target=go)
                t.start()
                x = ask(line)
                t.join()
                if errs:
                    raise errs[0]
                return x

            def sync():
                x, e = ask("rr 0 %d 0 3" % idx[0])
                if x != "0 " + bytes(data[0]).hex():
                    return "read answered %r instead of %s" % (x, bytes(data[0]).hex())

            def good(k, x, e, least):
                if x != "0 " + bytes(data[k]).hex():
                    return "read of d%d answered %s (after %.0f ms, limit %d ms), should succeed with %s" % (k, x[:60], 1000 * e, T, bytes(data[k]).hex()[:60])
                if e < least - EARLY:
                    return "read answered after %.1f ms, the answer was there only after %d" % (1000 * e, 1000 * least)

            def late(x, e):
                if x.split()[0] != "-14":
                    return "read answered %s after %.0f ms although its answer was not there within %d ms, should be the timeout error" % (x[:60], 1000 * e, T)
                stat["timeouts"] += 1
                if e < T / 1000 - EARLY or e > T / 1000 + LATE:
                    return "timeout after %.1f ms, the limit is %d" % (1000 * e, T)

            for at, s in enumerate(case["steps"]):
                msg = None
                stat[s[0]] += 1
                if s[0] == "read":
                    gate.hold(s[2] / 1000, s[3] / 1000, s[4], s[5] / 1000)
                    x, e = during("rr 0 %d 0 %d" % (idx[s[1]], SIZES[s[1]]), 0, [0, 1, 0, 1, 0, 1, 0, 1, 0][:s[6]])
                    msg = good(s[1], x, e, (s[2] + s[3]) / 1000) or s[6] and sync()
                elif s[0] == "write":
                    d = random.Random(s[4]).randbytes(SIZES[s[1]])
                    gate.hold(s[2] / 1000, s[3] / 1000)
                    x, e = ask("rw 0 %d 0 %s" % (idx[s[1]], d.hex()))
                    data[s[1]][:] = d
                    if x != "0":
                        msg = "write answered %s, limit %d ms" % (x, T)
                    elif w.read(idx[s[1]], 0, len(d)) != d:
                        msg = "written data are not in the tag"
                elif s[0] == "late":
                    n = len(s[1]) - 1
                    hold = (n * T + s[2]) / 1000
                    if s[3] == "split":
                        gate.hold(0, 0, s[5], hold)
                    else:
                        gate.hold(hold if s[3] == "req" else 0, hold if s[3] == "resp" else 0)
                    for j, k in enumerate(s[1]):
                        line = "rr 0 %d 0 %d" % (idx[k], SIZES[k])
                        x, e = during(line, 0, [1] * s[4]) if j == 0 else ask(line)
                        msg = late(x, e) if j < n else good(k, x, e, 0)
                        if msg:
                            msg = "read %d of %d while an answer is %d ms late: %s" % (j + 1, n + 1, 1000 * hold, msg)
                            break
                    msg = msg or sync()
                elif s[0] == "burst":
                    for k in s[1]:
                        fire(k)
                    msg = sync()
                elif s[0] == "ping":
                    msg = sync()
                elif s[0] == "poll":
                    x, e = ask("e1 0")
                    want = "0 " + q.popleft() if q else "-5"
                    if x != want:
                        msg = "event poll gave %r, expected %r" % (x, want)
                elif s[0] == "drain":
                    x, e = ask("ep 0")
                    want = " ".join(["0"] + list(q))
                    q.clear()
                    if x != want:
                        msg = "event polls gave %r, expected %r" % (x, want)
                elif s[0] == "wait":
                    if q:
                        x, e = ask("ew 0 %d" % s[1])
                        want = "0 " + q.popleft()
                        if x != want:
                            msg = "event wait gave %r, expected %r" % (x, want)
                        elif e > LATE:
                            msg = "event wait took %.0f ms with an event there" % (1000 * e)
                        stat["delivered"] += 1
                    elif s[3] and (s[1] == 0 or s[2] < s[1]):
                        x, e = during("ew 0 %d" % s[1], s[2] / 1000, [1, 0, 0, 1, 0, 1, 1, 1, 0][:s[3]])
                        # with nine or more events the oldest may already be lost
                        first = x[2:]
                        if x[:2] != "0 " or first != q[0] and not (len(q) == 8 and first.startswith("e1:10:")):
                            msg = "event wait of %d ms gave %r after %.0f ms, expected event %r at %d ms" % (s[1], x, 1000 * e, q[0], s[2])
                        elif e > s[2] / 1000 + LATE:
                            msg = "event wait ended after %.1f ms, the event came at %d ms" % (1000 * e, s[2])
                        else:
                            if first == q[0]:
                                q.popleft()
                            msg = sync()
                        stat["delivered"] += 1
                    elif s[1]:
                        x, e = during("ew 0 %d" % s[1], s[2] / 1000, [0] * s[3])
                        if x != "-14":
                            msg = "event wait of %d ms without event gave %r after %.1f ms, should be the timeout error" % (s[1], x, 1000 * e)
                        elif e < s[1] / 1000 - EARLY or e > s[1] / 1000 + LATE + s[2] / 1000:
                            msg = "event wait of %d ms timed out after %.1f ms" % (s[1], 1000 * e)
                        else:
                            msg = sync()
                        stat["timeouts"] += 1
                elif s[0] == "cut":
                    gate.cut()
                    for k in range(2):
                        x, e = ask("rr 0 %d 0 3" % idx[0])
                        if x.split()[0] == "0":
                            msg = "read succeeded without connection"
                        elif e > T / 1000 + LATE:
                            msg = "read without connection took %.0f ms, limit %d" % (1000 * e, T)
                    while q and not msg:
                        x, e = ask("ew 0 %d" % s[1])
                        want = "0 " + q.popleft()
                        if x != want:
                            msg = "event wait gave %r, expected %r, which came before the connection broke" % (x, want)
                    if not msg:
                        x, e = ask("ew 0 %d" % s[1])
                        if x.split()[0] == "0":
                            msg = "event wait gave %r without connection" % x
                        elif e > s[1] / 1000 + LATE:
                            msg = "event wait of %d ms took %.0f ms" % (s[1], 1000 * e)
                if msg:
                    if not settle(srv):
                        return Outcome(Fail("crash", "tag server died: " + tail(srv.log), at), stat)
                    return Outcome(Fail("step:" + s[0], "step %d %s: %s" % (at, json.dumps(s), msg), at), stat)
            return Outcome(None, stat)
        finally:
            if drv:
                drv.close()
            if gate:
                gate.close()
            srv.stop()

    def nontrivial(self, case, stat):
        return stat.get("timeouts", 0) > 0 and stat.get("delivered", 0) + stat.get("poll", 0) > 0 and stat.get("events", 0) > 0


if __name__ == "__main__":
    sys.exit(main(C20()))
