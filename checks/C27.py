"""C27: the master starts, keeps running and stops the configured processes."""
import os, pwd, grp, random, shutil, signal, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main
from harness import Proc, Died, tail

SLACK = 1.5         # seconds a busy machine may take for what is due
TICK = 0.011        # resolution of the start times
LATE = 40
SCANS = 70          # seconds of the master's clock between two looks at the resources of a process


class Bad(Exception):
    pass


def now():
    return time.clock_gettime(time.CLOCK_BOOTTIME)


def gone(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] in "ZX"
    except OSError:
        return True


def lua(s):
    return '"' + "".join("\\%03d" % c if c < 32 or c > 126 or c in (34, 92) else chr(c) for c in s.encode("latin1")) + '"'


class Life:
    """one run of a process"""
    def __init__(self, w):
        self.pid, self.said, self.start, self.ppid = int(w[1]), float(w[2]), float(w[3]), int(w[4])
        self.ids = [int(x) for x in w[5:9]]
        n = int(w[9])
        self.groups = [int(x) for x in w[10:10 + n]]
        self.args = [bytes.fromhex(x[1:]).decode("latin1") for x in w[11 + n:]]
        self.argc = int(w[10 + n])
        self.lo = self.hi = None    # when it ended: not before, not after
        self.sigs = []
        self.told = False           # the check knows why it ended


class Run:
    def __init__(self, b, cwd, case):
        self.b, self.cwd, self.case, self.st = b, cwd, case, {}
        self.F = case["F"]
        self.m = None

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def prepare(self):
        c = self.cwd
        os.chmod(os.path.dirname(c), 0o711)
        os.chmod(c, 0o711)
        for d in ("bin", "plan", "log"):
            os.mkdir(os.path.join(c, d))
        shutil.copy(self.b.agent, os.path.join(c, "agent"))
        os.chmod(os.path.join(c, "agent"), 0o755)
        out = ["daemonize = false\n"]
        for p in self.case["procs"]:
            k = p["key"]
            p["_runs"], p["_pos"], p["_exists"] = [], 0, False
            log = os.path.join(c, "log", k)
            open(log, "w").close()
            os.chmod(log, 0o666)
            with open(os.path.join(c, "plan", k), "w") as f:
                f.write("".join("%s %d %d %s\n" % (x[0], x[1], x[2], (x[3] if len(x) > 3 else "") or "-") for x in p["plan"]))
            if p["kind"] != "late":
                self.make(p)
            path = k if p["kind"] == "search" else os.path.join(c, "bin", k)
            if p["kind"] == "relative":
                path = "./bin/" + k
            p["_path"] = path
            f = ["name = " + lua(p["name"]), "path = " + lua(path)]
            if p["args"] is not None:
                f.append("args = " + lua(p["args"]))
            for x in ("restart", "uid", "gid", "user", "group", "delay", "cpu", "mem"):
                v = p.get(x)
                if v is not None:
                    f.append("%s = %s" % (x, ("true" if v else "false") if isinstance(v, bool) else lua(v) if isinstance(v, str) else v))
            random.Random(k).shuffle(f)
            out.append("add_process({%s})\n" % ", ".join(f))
        for at, text in self.case.get("bad", []):
            out.insert(1 + at % len(out), text + "\n")
        with open(os.path.join(c, "opendax.conf"), "w") as f:
            f.write("".join(out))

    def make(self, p):
        t = os.path.join(self.cwd, "bin", p["key"])
        os.link(os.path.join(self.cwd, "agent"), t)
        p["_exists"], p["_made"] = True, now()

    def launch(self):
        e = {"LD_PRELOAD": self.b.mshim, "MSHIM_SCALE": str(self.F), "MSHIM_KILLS": os.path.join(self.cwd, "kills"),
             "PATH": os.path.join(self.cwd, "bin") + ":/usr/bin:/bin"}
        if self.case.get("forks"):
            e["MSHIM_FORKS"] = ",".join(str(x) for x in self.case["forks"])
        import harness
        e["ASAN_OPTIONS"] = harness.ASAN + ":verify_asan_link_order=0"
        self.t0 = self.t1 = now()
        self.m = Proc([self.b.master, "-C", os.path.join(self.cwd, "opendax.conf")] + self.case.get("cli", []), self.cwd, "master", extra_env=e)
        while self.m.alive() and now() < self.t0 + LATE:
            try:    # it handles signals
                with open("/proc/%d/status" % self.m.p.pid) as f:
                    m = [int(l.split()[1], 16) for l in f if l.startswith("SigCgt")][0]
                if m >> (signal.SIGTERM - 1) & 1 and m >> (signal.SIGCHLD - 1) & 1:
                    break
            except (OSError, IndexError):
                pass
            time.sleep(0.002)
        self.t0 = now()

    # ---- what the processes report
    def poll(self):
        for p in self.case["procs"]:
            for r in p["_runs"]:
                if r.hi is None and gone(r.pid):
                    r.hi = now() + 0.0002
            with open(os.path.join(self.cwd, "log", p["key"]), "rb") as f:
                f.seek(p["_pos"])
                data = f.read()
            data = data[:data.rfind(b"\n") + 1]
            p["_pos"] += len(data)
            for l in data.decode().split("\n")[:-1]:
                w = l.split(" ")
                if w[0] == "S":
                    r = Life(w)
                    p["_runs"].append(r)
                    self.began(p, r)
                    continue
                for r in p["_runs"]:
                    if r.pid == int(w[1]) and (r.hi is None or r.hi > float(w[2])):
                        if w[0] == "E":
                            r.lo, r.told = float(w[2]), True
                        else:
                            r.sigs.append((int(w[3]), float(w[2])))
        if not self.m.alive() and not self.quitting:
            raise Bad("the master ended by itself with status %s: %s" % (self.m.p.returncode, tail(self.m.log)))

    def began(self, p, r):
        """a process has started: is it the right time, with the right arguments and rights?"""
        k, runs = p["key"], p["_runs"]
        want = [p["_path"]] + [x for x in (p["args"] or "").split(" ") if x]
        if r.args != want or r.argc != len(want):
            raise Bad("%s was started with the arguments %r instead of %r" % (k, r.args, want))
        if r.ppid != self.m.p.pid and not self.quitting:
            raise Bad("%s is not a child of the master" % k)
        ids = self.ids(p)
        if ids is not None:
            if r.ids != [ids[0], ids[0], ids[1], ids[1]]:
                raise Bad("%s runs with user and group (real, effective) %r instead of %r" % (k, r.ids, ids))
            if ids[0] != 0 and ids[1] != 0 and 0 in r.groups:
                raise Bad("%s runs as user %d with the groups %r of the master" % (k, ids[0], r.groups))
        if len(runs) == 1:
            return
        self.count("restarts")
        if not p.get("restart"):
            raise Bad("%s was started again" % k)
        o = runs[-2]
        if o.hi is None and gone(o.pid):
            o.hi = now() + 0.0002
        if o.hi is None:
            raise Bad("%s was started again while it still runs" % k)
        lo = o.lo if o.lo is not None else max([o.start] + [t for s, t in o.sigs])
        d = self.delay(p, len(runs) - 1)
        if d is not None and r.start + TICK < lo + (d - 2) / 1000.0 / self.F:
            raise Bad("%s was started again %.0f ms after it ended, run %d should come after %d ms" % (
                k, (r.start - lo) * 1000 * self.F, len(runs), d))
        if r.start + TICK < lo:
            raise Bad("%s was started again before it had ended" % k)

    def delay(self, p, n):
        """milliseconds that the n-th restart is delayed; None if it isn't known"""
        if p["kind"] == "late" or self.case.get("forks"):
            return None
        d = 0
        for i in range(n):
            r = p["_runs"][i]
            if r.hi is None:
                return None
            lo, hi = (r.lo or r.start) - r.start - 0.02, r.hi - r.start + 0.02
            if lo * self.F > 60:
                d = 0
            elif hi * self.F > 60:
                return None
            if i == n - 1:
                return d
            d = 100 if d == 0 else min(2 * d, 60000)

    def due(self, p):
        """when the process must be there again at the latest; None: needs not"""
        if not p["_exists"]:
            return None
        if not p["_runs"]:
            if p["kind"] == "late":
                t = p["_made"] - self.t0
                return self.t0 + 2 * t + 2.3 / self.F + SLACK + self.startup()
            if self.case.get("forks"):
                if not p.get("restart"):
                    return None
                return self.t0 + self.startup() + 10 / self.F + SLACK
            return self.t0 + self.startup() + SLACK + 1
        r = p["_runs"][-1]
        if r.hi is None or not p.get("restart"):
            return None
        d = self.delay(p, len(p["_runs"]))
        if d is None:
            d = min(60000, max(200, (r.hi - self.t0) * 1000 * self.F + 200 + 25.6 * 1000 * bool(self.case.get("forks"))))
        return max(r.hi + (d + 1050) / 1000.0 / self.F + SLACK, self.t0 + self.startup() + (d + 1050) / 1000.0 / self.F + SLACK)

    def startup(self):
        return sum(p["delay"] or 0 for p in self.case["procs"] if (p["delay"] or 0) > 0) / 1000.0 / self.F + 0.02 * len(self.case["procs"])

    def waits(self, cond, until, what):
        while True:
            self.poll()
            if cond():
                return
            if now() > until:
                self.poll()
                if cond():
                    return
                raise Bad(what() if callable(what) else what)
            time.sleep(0.004)

    def settled(self):
        """everything that should run runs"""
        end = now() + LATE * 3
        while now() < end:
            self.poll()
            wait = False
            for p in self.case["procs"]:
                t = self.due(p)
                if t is None:
                    continue
                wait = True
                if now() > t:
                    self.poll()
                    t = self.due(p)
                    if t is not None and now() > t:
                        r = p["_runs"][-1] if p["_runs"] else None
                        if r:
                            raise Bad("%s was not started again: run %d ended %.0f ms ago (delay %s ms)" % (
                                p["key"], len(p["_runs"]), (now() - r.hi) * 1000 * self.F, self.delay(p, len(p["_runs"]))))
                        raise Bad("%s was not started" % p["key"])
            # what a plan says will end soon is not settled
            for p in self.case["procs"]:
                if p["_runs"] and p["_runs"][-1].hi is None and self.plan(p)[0] in ("exit", "sig"):
                    wait = True
            if not wait:
                return
            time.sleep(0.004)
        raise Died("the case does not settle")

    def flags(self, p):
        return (self.plan(p) + [""])[3]

    def plan(self, p):
        n = len(p["_runs"]) - 1
        return p["plan"][n] if n < len(p["plan"]) else ["run", 0, 0, ""]

    def ids(self, p):
        """user and group"""
        if os.getuid() != 0:
            return None
        u, g = p.get("uid"), p.get("gid")
        try:
            if u is None:
                u = pwd.getpwnam(p["user"]).pw_uid if p.get("user") else 0
            if g is None:
                g = grp.getgrnam(p["group"]).gr_gid if p.get("group") else 0
        except KeyError:
            return None
        if p.get("uid") is None and not p.get("user") and "opendax" in [x.pw_name for x in pwd.getpwall()]:
            return None
        if p.get("gid") is None and not p.get("group") and "opendax" in [x.gr_name for x in grp.getgrall()]:
            return None
        return [u, g]

    # ---- steps
    def step(self, op):
        ps = self.case["procs"]
        if op[0] == "kill":
            self.poll()
            stop = op[3]
            live = [ps[i]["_runs"][-1] for i in op[1] if i < len(ps) and ps[i]["_runs"] and ps[i]["_runs"][-1].hi is None
                    and not (op[2] == signal.SIGTERM and "t" in self.flags(ps[i]))]
            if stop:
                os.kill(self.m.p.pid, signal.SIGSTOP)
            t = now()
            for r in live:
                if gone(r.pid):
                    continue
                r.lo, r.told = r.lo or t, True
                try:
                    os.kill(r.pid, op[2])
                except ProcessLookupError:
                    pass
            if stop:
                end = now() + 5
                while not all(gone(r.pid) for r in live) and now() < end:
                    time.sleep(0.002)
                t = now()
                for r in live:
                    if r.hi is None:
                        r.hi = t
                os.kill(self.m.p.pid, signal.SIGCONT)
                self.count("burst of more than ten" if len(live) > 10 else "burst")
            else:
                self.waits(lambda: all(r.hi is not None for r in live), now() + LATE, "processes do not end")
            self.count("kills", len(live))
        elif op[0] == "settle":
            self.settled()
        elif op[0] == "nap":
            end = now() + op[1] / 1000.0 / self.F
            while now() < end:
                self.poll()
                time.sleep(0.005)
        elif op[0] == "signal":
            for _ in range(op[2]):
                os.kill(self.m.p.pid, op[1])
                time.sleep(op[3] / 1000.0)
                self.poll()
            self.count("signals", op[2])
        elif op[0] == "make":
            if op[1] < len(ps) and not ps[op[1]]["_exists"]:
                self.make(ps[op[1]])
                self.count("late executables")
        elif op[0] == "limits":
            self.limits()

    def limits(self):
        """wait until the master must have looked at everybody three times"""
        span = SCANS * 3.2 / self.F + SLACK + 2
        end = now() + span
        ps = self.case["procs"]

        def over(p):
            """(must end, may end) because of its use of resources"""
            pl = self.plan(p)
            mem, cpu = p.get("mem") or 0, p.get("cpu") or 0
            return (pl[0] == "mem" and 0 < mem < pl[1] * 0.9) or (pl[0] == "busy" and 0 < cpu <= 0.1)
        pend = {}
        for p in ps:
            if p["_runs"] and p["_runs"][-1].hi is None and over(p):
                pend[p["key"]] = len(p["_runs"])
        while now() < end:
            self.poll()
            time.sleep(0.01)
        self.poll()
        for p in ps:
            n = pend.get(p["key"])
            if n and p["_runs"][n - 1].hi is None:
                raise Bad("%s uses more than allowed (%r, limits cpu %s mem %s) and was not ended" % (p["key"], p["plan"][n - 1] if n <= len(p["plan"]) else "", p.get("cpu"), p.get("mem")))
            if n:
                r = p["_runs"][n - 1]
                if not any(s == signal.SIGQUIT or s == signal.SIGTERM for s, t in r.sigs):
                    raise Bad("%s was killed without being asked to end before" % p["key"])
                self.count("over a limit")

    def finish(self):
        sig = self.case["quit"]
        self.poll()
        early = any(not p["_runs"] for p in self.case["procs"])
        self.quitting = True
        t = now()
        os.kill(self.m.p.pid, sig)
        end = t + self.startup() + 2 / self.F + SLACK + 2
        while self.m.alive() and now() < end:
            self.poll()
            time.sleep(0.004)
        if self.m.alive():
            raise Bad("the master does not end after signal %d" % sig)
        rc = self.m.p.returncode
        if rc in (99, -6, -11) or "AddressSanitizer" in tail(self.m.log):
            raise Bad("the master crashed at its end (%d): %s" % (rc, tail(self.m.log)))
        end = now() + SLACK + 1
        while True:
            self.poll()
            left = [(p, r) for p in self.case["procs"] for r in p["_runs"] if r.hi is None]
            rest = [(p, r) for p, r in left if "t" not in self.flags(p)]
            deaf = [r for p, r in left if not any(s == signal.SIGTERM for s, _ in r.sigs)]
            if not rest and not deaf or now() > end:
                break
            time.sleep(0.01)
        if rest:
            p, r = rest[0]
            raise Bad("%s goes on after the master has ended (signals it got: %r)" % (p["key"], r.sigs))
        for p, r in left:
            if not any(s == signal.SIGTERM for s, _ in r.sigs):
                raise Bad("%s was not told to end" % p["key"])
        self.count("stopped", sum(1 for p in self.case["procs"] for r in p["_runs"] if any(s == signal.SIGTERM for s, _ in r.sigs)))

    def orders(self):
        """initial starts: in the configured order, each after the delay of the one before"""
        if self.case.get("forks"):
            return
        last = None
        gap = 0
        for p in self.case["procs"]:
            if p["kind"] != "late" and p["_runs"]:
                s = p["_runs"][0].start
                if last is not None and s + TICK < last[1] + gap / 1000.0 / self.F:
                    raise Bad("%s was started %.0f ms after %s instead of %d ms" % (p["key"], (s - last[1]) * 1000 * self.F, last[0], gap))
                last = (p["key"], s)
                gap = 0
            gap += max(p["delay"] or 0, 0)

    def kills(self):
        """only processes beyond their limits get signals, all of them at the end"""
        try:
            with open(os.path.join(self.cwd, "kills")) as f:
                ls = [l.split() for l in f]
        except OSError:
            return
        runs = {r.pid: (p, r, i) for p in self.case["procs"] for i, r in enumerate(p["_runs"])}
        for w in ls:
            pid, sig = int(w[1]), int(w[2])
            if w[0] == "stray":
                raise Bad("the master sends signal %d to process %d, which is none of its own" % (sig, pid))
            if pid > 0 and pid in runs and not self.quitting:
                self.allowed(*runs[pid])
            if pid <= 0 and not self.quitting:
                raise Bad("the master sends signal %d to all processes while it should go on" % sig)
        for pid, (p, r, i) in runs.items():
            if not r.told and (r.hi is not None and (not self.quitting or r.hi < self.tquit)) or [x for x in r.sigs if x[0] == signal.SIGQUIT]:
                self.allowed(p, r, i)

    def allowed(self, p, r, i):
        pl = p["plan"][i] if i < len(p["plan"]) else ["run", 0, 0]
        mem, cpu = p.get("mem") or 0, p.get("cpu") or 0
        if not ((mem and pl[0] == "mem" and pl[1] > mem * 0.7) or (cpu and pl[0] == "busy" and cpu < 2)):
            raise Bad("%s (%r, limits cpu %s mem %s) was ended by the master, signals %r" % (p["key"], pl, p.get("cpu"), p.get("mem"), r.sigs))

    def go(self):
        self.quitting = False
        self.tquit = 1e18
        self.prepare()
        self.launch()
        try:
            if self.case.get("broken"):
                return self.refused()
            ps = self.case["procs"]
            if not self.case.get("early"):
                self.waits(lambda: all(p["_runs"] for p in ps if p["_exists"] and not self.case.get("forks")), self.t0 + self.startup() + SLACK + 3,
                           lambda: "not started: " + ", ".join(p["key"] for p in ps if p["_exists"] and not p["_runs"]))
            for i, op in enumerate(self.case["ops"]):
                self.step(op)
                self.orders()
                self.kills()
            self.tquit = now()
            for p in ps:
                if p["_runs"] and not p.get("restart") and len(p["_runs"]) != 1:
                    raise Bad("%s ran %d times" % (p["key"], len(p["_runs"])))
            self.finish()
            self.orders()
            self.kills()
            self.count("processes", len(ps))
            self.count("runs", sum(len(p["_runs"]) for p in ps))
            return Outcome(None, self.st)
        except Bad as e:
            if "AddressSanitizer" in tail(self.m.log):
                return Outcome(Fail("crash", "%s %s" % (e, tail(self.m.log))), self.st)
            return Outcome(Fail("op:" + str(e).split(" ", 1)[-1][:12], "%s; log %s" % (e, tail(self.m.log)[-700:])), self.st)
        finally:
            self.clean()

    def refused(self):
        end = now() + LATE
        while self.m.alive() and now() < end:
            time.sleep(0.01)
        self.quitting = True
        self.poll()
        if self.m.alive():
            raise Bad("the master goes on with a configuration that can't be read")
        rc = self.m.p.returncode
        if rc < 0 or rc == 99 or "AddressSanitizer" in tail(self.m.log):
            return Outcome(Fail("crash", "the master ended with status %d: %s" % (rc, tail(self.m.log))), self.st)
        if rc == 0:
            raise Bad("the master ends with success for a configuration that can't be read")
        if any(p["_runs"] for p in self.case["procs"]):
            raise Bad("processes of a configuration that can't be read were started")
        self.count("broken configurations")
        return Outcome(None, self.st)

    def clean(self):
        for a in range(2):
            self.quitting = True
            if self.m.alive():
                self.m.p.kill()
                self.m.p.wait()
            time.sleep(0.02)
            try:
                self.poll()
            except Bad:
                pass
            mine = os.path.join(self.cwd, "bin") + "/"
            for d in os.listdir("/proc"):
                if d.isdigit():
                    try:
                        if os.readlink("/proc/%s/exe" % d).startswith(mine):
                            os.kill(int(d), signal.SIGKILL)
                    except OSError:
                        pass
        for p in self.case["procs"]:
            for k in [k for k in p if k[0] == "_"]:
                del p[k]


BAD = ['add_process({name = "nopath"})', 'add_process({path = "/bin/false"})', 'add_process({name = {}, path = "x"})', 'add_process({})',
       'x = 5']
BADU = ['user = {}', 'group = {}', 'args = {}', 'user = false', 'delay = "x"', 'cpu = {}', 'mem = "many"', 'delay = -100', 'restart = {}']
BROKEN = ['add_process("x")', 'add_process()', 'add_process(nil)', 'this is not lua', 'error("x")', 'nofunction()', 'add_process({name = "x", path = "/bin/false"}, 1)']


class C27(Check):
    prop = "C27"
    rule = "at least two restarts, or a process over a limit, or a configuration that can't be read"
    quick, thorough = 320, 3200
    workers = 14
    confirm = (3, 3)
    technique = "stateful property-based testing of the real master: generated process configurations and histories of exits, kills, bursts, failing starts, resource use and signals, a clock that runs faster, every start and end compared with a model of the supervisor; shrinking"
    assumptions = ("times are measured with 10 ms resolution, and 1.5 s of real time are allowed on top of every delay",)

    def args(self, rng):
        r = rng.random()
        if r < 0.2:
            return None
        if r < 0.3:
            return rng.choice(["", " ", "   "])
        w = []
        for _ in range(rng.choice([1, 1, 2, 3, 5, 8, 20, 40])):
            w.append(rng.choice(["-C", "-x", "a", "--name=x", "/etc/x.conf", "\t", "a\tb", "'q", '"', "\\", "$HOME", "%s%n", "\xe4", "x" * rng.choice([1, 30, 300, 2000]), "-", "*", ";", "0"]))
        s = rng.choice([" ", " ", "  ", "   "]).join(w)
        return rng.choice(["", "", " ", "  "]) + s + rng.choice(["", "", " ", "  "])

    def proc(self, rng, i, case):
        p = dict(key="p%d" % i, name=rng.choice(["p%d" % i, "the process", "x" * 60, "%s", "p"]), kind="abs", args=self.args(rng), plan=[],
                 delay=rng.choice([None, None, None, 0, 50, 200, 500]), restart=rng.random() < 0.75)
        r = rng.random()
        if r < 0.06:
            p["key"] = rng.choice(["p%d with blanks", "p%d) R 1", "(p%d", "p%d )"]) % i
        elif r < 0.16:
            p["kind"] = "search"
        elif r < 0.22:
            p["kind"] = "relative"
        if rng.random() < 0.1:
            p["restart"] = None
        r = rng.random()
        if r < 0.12:
            p["uid"], p["gid"] = rng.choice([(1234, 2345), (65534, 65534), (1, 7), (40000, 1)])
        elif r < 0.2:
            p["user"], p["group"] = rng.choice([("nobody", "nogroup"), ("daemon", "daemon"), ("nobody", "daemon"), ("daemon", "tty")])
        elif r < 0.24:
            p["uid"], p["user"], p["group"] = 1234, "nobody", "daemon"
        elif r < 0.28:
            p["gid"] = rng.choice([1, 2345])
        elif r < 0.32:
            p["uid"] = rng.choice([1, 2345])
        elif r < 0.35:
            p["user"] = "nobody"
        if p["kind"] == "search" and p.get("uid", 0):
            p["kind"] = "abs"
        return p

    def ends(self, rng, n, quick):
        out = []
        for _ in range(n):
            ms = 0 if rng.random() < 0.3 else rng.randrange(1, quick)
            out.append(["exit", rng.choice([0, 0, 1, 2, 127, 255]), ms] if rng.random() < 0.7 else ["sig", rng.choice([11, 6, 9, 15, 3]), ms])
        return out

    def gen(self, rng, i, tier):
        kind = rng.choices(["plain", "burst", "backoff", "limits", "broken", "forks"], [40, 18, 8, 18, 6, 10])[0]
        case = dict(kind=kind, F=rng.choice([1, 4, 8, 10]), procs=[], ops=[], quit=rng.choice([15, 15, 2, 3]), bad=[], cli=[])
        n = rng.choice([1, 2, 3, 5, 8])
        if rng.random() < 0.1:
            case["cli"] = rng.choice([["-v"], ["-T", "ALL"], ["--logtopics", "MAJOR,MINOR"], ["-V"]])
        if kind == "broken":
            case["broken"] = True
            case["procs"] = [self.proc(rng, k, case) for k in range(n)]
            case["bad"] = [[rng.randrange(20), rng.choice(BROKEN[:6])]]
            case["ops"] = []
            return case
        if kind in ("plain", "burst", "forks") and rng.random() < 0.3:
            case["bad"] = [[rng.randrange(20), rng.choice(BAD)] for _ in range(rng.choice([1, 2]))]
            if rng.random() < 0.5:
                case["bad"].append([rng.randrange(20), 'add_process({name = "odd", path = "/bin/true", %s})' % rng.choice(BADU)])
        if kind == "plain" or kind == "forks":
            if kind == "forks":
                case["forks"] = sorted(set(rng.randrange(1, n + 4) for _ in range(rng.choice([1, 2, 3]))))
                case["F"] = 10
            for k in range(n):
                p = self.proc(rng, k, case)
                if rng.random() < 0.6:
                    p["plan"] = self.ends(rng, rng.choice([1, 1, 2, 3, 4, 5]), 60)
                if kind == "plain" and rng.random() < 0.08 and p["restart"]:
                    p["kind"] = "late"
                if rng.random() < 0.1:
                    p["plan"].append(["run", 0, 0, rng.choice(["t", "q", "qt"])])
                if rng.random() < 0.2:
                    p["cpu"], p["mem"] = rng.choice([(0, 0), (0.9, 500000), (1.0, None), (None, 100000)])
                case["procs"].append(p)
            for _ in range(rng.randrange(1, 5)):
                r = rng.random()
                if r < 0.45:
                    case["ops"].append(["kill", sorted(rng.sample(range(n), rng.randrange(1, n + 1))), rng.choice([9, 9, 15, 11]), rng.random() < 0.3])
                elif r < 0.6:
                    case["ops"].append(["signal", rng.choice([1, 1, 13, 17]), rng.choice([1, 5, 30]), rng.choice([0, 1, 5])])
                elif r < 0.75:
                    case["ops"].append(["nap", rng.randrange(1, 1500)])
                else:
                    case["ops"].append(["settle"])
            for k, p in enumerate(case["procs"]):
                if p["kind"] == "late":
                    case["ops"].insert(rng.randrange(len(case["ops"]) + 1), ["make", k])
            case["early"] = rng.random() < 0.1
            if rng.random() < 0.85:
                case["ops"].append(["settle"])
        elif kind == "burst":
            n = rng.choice([9, 10, 11, 12, 15, 20, 30])
            case["F"] = rng.choice([4, 10])
            for k in range(n):
                p = self.proc(rng, k, case)
                p["delay"] = rng.choice([None, None, 0, 10])
                case["procs"].append(p)
            if rng.random() < 0.25:     # many end while the rest is still being started
                for p in case["procs"][:-1]:
                    p["plan"] = [["exit", 0, rng.randrange(0, 20)]]
                case["procs"][-2]["delay"] = 3000
            for _ in range(rng.choice([1, 2, 3])):
                case["ops"].append(["kill", sorted(rng.sample(range(n), rng.choice([n, n, rng.randrange(1, n + 1)]))), rng.choice([9, 9, 15]), rng.random() < 0.7])
                case["ops"].append(["settle"])
        elif kind == "backoff":
            case["F"] = rng.choice([16, 20])
            for k in range(rng.choice([1, 2, 3])):
                p = self.proc(rng, k, case)
                p["restart"], p["delay"] = True, None
                n = rng.choice([8, 9, 9, 10, 12, 13] if tier == "thorough" else [8, 9, 9, 10, 11])
                p["plan"] = self.ends(rng, n, 10)
                if rng.random() < 0.5:
                    p["plan"].append(["exit", 0, int(1000 * rng.choice([64, 70, 100]) / case["F"])])
                    p["plan"] += self.ends(rng, 3, 10)
                elif rng.random() < 0.5:
                    p["plan"].append(["exit", 0, int(1000 * rng.choice([20, 40, 50]) / case["F"])])
                case["procs"].append(p)
            case["ops"] = [["settle"]]
        else:
            case["F"] = 40
            for k in range(rng.choice([2, 3, 5])):
                p = self.proc(rng, k, case)
                r = rng.random()
                flags = rng.choice(["", "", "q"])
                if r < 0.3:
                    p["plan"] = [["mem", rng.choice([30000, 60000]), 0, flags]]
                    p["mem"] = rng.choice([20000, 20000, 100000, 0, None])
                elif r < 0.5:
                    p["plan"] = [["busy", 0, 0, flags]]
                    p["cpu"] = rng.choice([0.05, 0.05, 0.02, 0, None])
                elif r < 0.65:
                    p["plan"] = [["duty", 1, 19, ""]]
                    p["cpu"] = rng.choice([0.9, 0.95])
                elif r < 0.8:
                    p["plan"] = [["run", 0, 0, ""]]
                    p["cpu"], p["mem"] = rng.choice([(0.5, 0), (0.3, 20000), (0, 20000)])
                else:
                    p["plan"] = self.ends(rng, rng.choice([1, 2]), 50)
                    p["cpu"], p["mem"] = rng.choice([(0.5, 0), (0.3, 20000), (0, 20000)])
                p["delay"] = None
                case["procs"].append(p)
            case["ops"] = [["settle"], ["limits"]]
            if rng.random() < 0.6:
                case["ops"].append(["settle"])
        return case

    def nontrivial(self, case, st):
        return st.get("restarts", 0) >= 2 or st.get("over a limit", 0) > 0 or st.get("broken configurations", 0) > 0

    def run(self, b, cwd, case):
        return Run(b, cwd, case).go()

    def shrinks(self, case, fail):
        from engine import list_shrinks
        for o in list_shrinks(case["ops"]):
            yield dict(case, ops=o)
        if case["ops"]:
            yield dict(case, ops=[])
        if case["bad"]:
            yield dict(case, bad=[])
        n = len(case["procs"])
        if n > 3 and not case.get("forks"):
            for h in (case["procs"][:n // 2], case["procs"][n // 2:]):
                yield dict(case, procs=h)
        for k in range(n):
            if n > 1 and not case.get("forks"):
                yield dict(case, procs=case["procs"][:k] + case["procs"][k + 1:])
            p = case["procs"][k]
            for q in (dict(p, plan=[]), dict(p, plan=p["plan"][:-1]), dict(p, plan=p["plan"][1:]), dict(p, args=None), dict(p, delay=None), dict(p, name="p")):
                if q != p:
                    yield dict(case, procs=case["procs"][:k] + [q] + case["procs"][k + 1:])


if __name__ == "__main__":
    sys.exit(main(C27()))
