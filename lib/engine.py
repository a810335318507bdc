"""Generic part of every check: case generation in parallel, confirmation, shrinking, replay files, evidence.

A check is an object of a subclass of Check.  Case i of a run is a pure function of (VERIF_SEED, property, i); the
number of cases per tier is fixed, so a run explores the same cases on every machine unless the time limit ends it."""
import argparse, collections, hashlib, json, multiprocessing, os, random, signal, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from harness import Scratch, Server, Driver, Died, tail

VERIF = vbuild.VERIF
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))


class Fail:
    """kind groups failures for shrinking; at = index of the operation"""
    def __init__(self, kind, msg, at=None):
        self.kind, self.msg, self.at = kind, msg, at

    def __str__(self):
        return "[%s] %s" % (self.kind, self.msg)


class Outcome:
    def __init__(self, fail=None, stat=None):
        self.fail, self.stat = fail, stat or {}


class Check:
    prop = "C00"
    level = "exploration"
    rule = ""
    quick = 400          # cases
    thorough = 6000
    qlimit = 330         # seconds of searching
    tlimit = 3000
    workers = 8
    confirm = (3, 2)     # replay n times, k of them must fail
    conclusive = False   # one failing execution settles it (the failing history itself is the proof)
    known = ()           # [(description, case)]: still failing -> KNOWN-FINDING line
    assumptions = ()

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, b, cwd, case):
        raise NotImplementedError

    def nontrivial(self, case, stat):
        return True

    def shrinks(self, case, fail):
        """smaller candidates, most drastic first; default: case is a list of operations"""
        yield from list_shrinks(case)

    def sample(self, case):
        return case

    def fixed(self):
        """cases that always run first (regressions)"""
        d = os.path.join(VERIF, "corpus", self.prop)
        if os.path.isdir(d):
            for f in sorted(os.listdir(d)):
                if f.endswith(".json"):
                    with open(os.path.join(d, f)) as fh:
                        yield json.load(fh)["case"]


def list_shrinks(ops):
    n = len(ops)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            c = ops[:a] + ops[a + size:]
            if c:
                yield c
        size //= 2


def _case(check, seed, i, tier, fixed):
    if i < len(fixed):
        return fixed[i]
    rng = random.Random("%d/%s/%d" % (seed, check.prop, i - len(fixed)))
    return check.gen(rng, i - len(fixed), tier)


def execute(check, b, case, scratch):
    cwd = scratch.sub()
    try:
        return check.run(b, cwd, case)
    except Died as e:
        return Outcome(Fail("died:" + e.what.split(" ")[0], "%s\n%s" % (e.what, e.detail)))
    finally:
        scratch.drop(cwd)


def _worker(check, b, seed, tier, fixed, total, counter, stop, deadline, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    scratch = Scratch()
    try:
        while not stop.value and time.time() < deadline:
            with counter.get_lock():
                i = counter.value
                if i >= total:
                    break
                counter.value += 1
            try:
                case = _case(check, seed, i, tier, fixed)
                o = execute(check, b, case, scratch)
            except Exception:
                q.put(("error", i, traceback.format_exc()))
                continue
            key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
            nt = o.fail is not None or bool(check.nontrivial(case, o.stat))
            q.put(("case", i, key, nt, o.stat, o.fail))
    finally:
        scratch.close()
        q.put(("done", None))


def search(check, b, seed, tier):
    fixed = list(check.fixed())
    total = len(fixed) + (check.quick if tier == "quick" else check.thorough)
    scale = os.environ.get("VERIF_SCALE")
    if scale:
        total = len(fixed) + int((total - len(fixed)) * float(scale))
    limit = check.qlimit if tier == "quick" else check.tlimit
    ctx = multiprocessing.get_context("fork")
    counter, stop, q = ctx.Value("i", 0), ctx.Value("i", 0), ctx.Queue()
    deadline = time.time() + limit
    ps = [ctx.Process(target=_worker, args=(check, b, seed, tier, fixed, total, counter, stop, deadline, q))
          for _ in range(check.workers)]
    for p in ps:
        p.start()
    done, res = 0, dict(n=0, keys=set(), nt=set(), stat=collections.Counter(), fails=[], errors=[], ntcases=[])
    while done < len(ps):
        try:
            m = q.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                break
            continue
        if m[0] == "done":
            done += 1
        elif m[0] == "error":
            res["errors"].append(m[2])
            if len(res["errors"]) > 20:
                stop.value = 1
        else:
            _, i, key, nt, stat, fail = m
            res["n"] += 1
            res["keys"].add(key)
            if nt:
                if key not in res["nt"]:
                    res["ntcases"].append(i)
                res["nt"].add(key)
            res["stat"].update(stat)
            if fail:
                res["fails"].append((i, fail))
                if len(res["fails"]) >= 4:
                    stop.value = 1
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    res["fixed"] = fixed
    res["complete"] = counter.value >= total and not stop.value
    return res


def confirm(check, b, case, kind=None):
    n, k = check.confirm
    scratch = Scratch()
    hits = []
    try:
        for a in range(n):
            o = execute(check, b, case, scratch)
            if o.fail:
                hits.append(o.fail)
            if len(hits) >= k or n - a - 1 + len(hits) < k:
                break
    finally:
        scratch.close()
    return hits[-1] if len(hits) >= k else None


def shrink(check, b, case, fail, limit=100):
    """greedy; candidates run in parallel batches"""
    end = time.time() + limit
    tries = 0
    ctx = multiprocessing.get_context("fork")
    scratch = Scratch()
    try:
        progress = True
        while progress and time.time() < end:
            progress = False
            batch = []
            gen = check.shrinks(case, fail)
            exhausted = False
            while not exhausted and time.time() < end and not progress:
                batch = []
                for c in gen:
                    batch.append(c)
                    if len(batch) >= check.workers:
                        break
                else:
                    exhausted = True
                if not batch:
                    break
                tries += len(batch)
                for c, f in zip(batch, _parallel(ctx, check, b, batch)):
                    if f and f.kind == fail.kind:
                        case, fail, progress = c, f, True
                        break
    finally:
        scratch.close()
    return case, fail, tries


def _one(check, b, case, q, i):
    scratch = Scratch()
    try:
        o = execute(check, b, case, scratch)
        q.put((i, o.fail))
    except Exception:
        q.put((i, None))
    finally:
        scratch.close()


def _parallel(ctx, check, b, batch):
    q = ctx.Queue()
    ps = [ctx.Process(target=_one, args=(check, b, c, q, i)) for i, c in enumerate(batch)]
    for p in ps:
        p.start()
    out = [None] * len(batch)
    for _ in ps:
        try:
            i, f = q.get(timeout=200)
            out[i] = f
        except Exception:
            break
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    return out


def evidence(check, tier, seed, res, wall, viol, extra=None):
    os.makedirs(EVID, exist_ok=True)
    samples = []
    for i in sorted(res["ntcases"])[len(res["fixed"]):][:3] or sorted(res["ntcases"])[:3]:
        s = check.sample(_case(check, seed, i, tier, res["fixed"]))
        t = json.dumps(s)
        samples.append(s if len(t) < 6000 else t[:6000] + "...")
    cov = dict(evaluations=res["n"], distinct_nontrivial=len(res["nt"]), distinct=len(res["keys"]), rule=check.rule,
               samples=samples, all_cases_of_tier_run=res["complete"], regressions_replayed=len(res["fixed"]),
               operations={k: v for k, v in sorted(res["stat"].items())}, unconfirmed=res.get("unconfirmed", []),
               harness_errors=len(res["errors"]))
    cov.update(extra or {})
    ev = dict(property=check.prop, tier=tier, seed=seed, level=check.level, coverage=cov,
              assumptions=list(check.assumptions), wall_s=round(wall, 1), violations=viol)
    tmp = os.path.join(EVID, check.prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, check.prop + ".json"))


def write_replay(check, seed, case, fail, orig=None):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (check.prop, hashlib.sha1(json.dumps(case).encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        json.dump(dict(property=check.prop, seed=seed, kind=fail.kind, message=fail.msg, case=case), f, indent=1)
    return p


def main(check):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case", type=int, help="print and run one generated case")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    b = vbuild.build()
    if a.replay or a.case is not None:
        if a.replay:
            with open(a.replay) as f:
                case = json.load(f)["case"]
        else:
            case = _case(check, seed, a.case, tier, [])
            print(json.dumps(check.sample(case)))
        s = Scratch()
        o = execute(check, b, case, s)
        s.close()
        print(o.stat)
        print("FAIL " + str(o.fail) if o.fail else "ok")
        return 1 if o.fail else 0
    # known findings: pinned cases that fail on the tree as it is
    for desc, case in check.known:
        if confirm(check, b, case):
            print("KNOWN-FINDING: property=%s %s" % (check.prop, desc))
        sys.stdout.flush()
    res = search(check, b, seed, tier)
    viol = 0
    out = None
    for i, fail in sorted(res["fails"], key=lambda x: x[0]):
        case = _case(check, seed, i, tier, res["fixed"])
        # a report of the sanitizer needs no second run
        sure = check.conclusive or (fail.kind == "crash" and "ERROR: AddressSanitizer" in fail.msg)
        f2 = fail if sure else confirm(check, b, case)
        if f2 is None:
            res.setdefault("unconfirmed", []).append("case %d: %s" % (i, str(fail)[:600]))
            continue
        case2, f3, tries = shrink(check, b, case, f2, float(os.environ.get("VERIF_SHRINK", "100")))
        viol = 1
        path = write_replay(check, seed, case2, f3)
        out = (path, f3, i, tries)
        break
    evidence(check, tier, seed, res, time.time() - t0, viol)
    if out:
        path, f3, i, tries = out
        print("case %d (shrunk with %d executions): %s" % (i, tries, str(f3)[:3000]))
        with open(path) as f:
            print("minimal case: " + json.dumps(json.load(f)["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
        return 1
    if res["errors"]:
        sys.stderr.write("%d harness errors, first:\n%s\n" % (len(res["errors"]), res["errors"][0]))
        if len(res["errors"]) > 20:
            return 2
    for u in res.get("unconfirmed", []):
        print("note: not reproducible, not reported: " + u)
    print("%s %s: %d cases (%d distinct non-trivial) held, %.1f s" % (
        check.prop, tier, res["n"], len(res["nt"]), time.time() - t0))
    return 0


# ---------------------------------------------------------------- programs against the reference model
def settle(proc, log=None):
    """a crashing process needs a moment to print its report"""
    for _ in range(100):
        if not proc.alive():
            return False
        t = tail(proc.log)
        if "AddressSanitizer" not in t:
            return True
        time.sleep(0.1)
    return True


def run_program(b, cwd, prog, model_cls=None, server_args=(), timeout=60, exclude=(), proxy=None):
    """proxy: function (server) -> object with sock, port and close(), put between the clients and the server"""
    from model import Model
    srv = Server(b, cwd, server_args)
    drv = px = None
    try:
        drv = Driver(b, cwd)
        px = proxy(srv) if proxy else None
        m = (model_cls or Model)(px.sock if px else srv.sock, px.port if px else srv.port, exclude)
        lines, checks = [], []
        for i, op in enumerate(prog):
            r = m.step(op)
            if r is None:
                continue
            ls, chk = r
            checks.append((i, op, len(lines), len(ls), chk))
            lines += ls
        died = None
        try:
            ans = drv.ask(lines, timeout) if lines else []
        except Died as e:
            died, ans = e, e.got
        for i, op, s, n, chk in checks:
            if s + n > len(ans):
                break
            try:
                msg = chk(ans[s:s + n])
            except (ValueError, IndexError) as e:
                msg = "unintelligible answer %r" % (ans[s:s + n],)
            if msg:
                if not settle(srv):
                    return Outcome(Fail("crash", "tag server died, near operation %d %s: %s" % (i, json.dumps(op)[:200], tail(srv.log)), i), m.stat)
                return Outcome(Fail("op:" + op[0], "operation %d %s: %s" % (i, json.dumps(op)[:300], msg), i), m.stat)
        if died is not None:
            if not settle(srv):
                return Outcome(Fail("crash", "tag server died: " + tail(srv.log)), m.stat)
            return Outcome(Fail("client", "%s\n%s" % (died.what, died.detail)), m.stat)
        if not settle(srv):
            return Outcome(Fail("crash", "tag server died: " + tail(srv.log)), m.stat)
        st = dict(m.stat)
        st["lines"] = len(lines)
        return Outcome(None, st)
    finally:
        if drv:
            drv.close()
        if px:
            px.close()
        srv.stop()


class ModelCheck(Check):
    server_args = ()
    exclude = ()

    def run(self, b, cwd, case):
        return run_program(b, cwd, case, None, self.server_args, exclude=self.exclude)

    def shrinks(self, case, fail):
        if fail.at is not None and fail.at + 1 < len(case):
            yield case[:fail.at + 1]
        yield from list_shrinks(case)
        # shorter data
        for i, op in enumerate(case):
            for j, x in enumerate(op):
                if isinstance(x, str) and len(x) > 8 and op[0] in ("tw", "tm", "rw", "rm", "gw", "oa", "at"):
                    z = "00" * (len(x) // 2)
                    if x != z:
                        yield case[:i] + [op[:j] + [z] + op[j + 1:]] + case[i + 1:]
