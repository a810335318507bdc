"""C25: the Lua logic module: scripts run when they should, with the data they should see, and write what they should."""
import os, random, signal, struct, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle
from harness import Proc, Server, Died, tail
from model import Model, Event, BASE, FMTC, NAMES, CUSTOM, QUEUE, ERR, EV_WRITE, EV_CHANGE, EV_SET, EV_RESET, EV_EQ, EV_GT, EV_LT, EV_DB
from wire import Client, Refused, BOOL, CHAR, REAL, LREAL

LATE = 20
EVT = {EV_WRITE: "WRITE", EV_CHANGE: "CHANGE", EV_SET: "SET", EV_RESET: "RESET", EV_EQ: "EQUAL", EV_GT: "GREATER", EV_LT: "LESS", EV_DB: "DEADBAND"}
REC = 1500
PRELUDE = r"""
local function ser(v)
  if v == nil then return "nil" end
  local t = math.type(v)
  if t == "integer" then return string.format("%d", v) end
  if t == "float" then return "f" .. string.format("%.9g", v) end
  if type(v) == "boolean" then return tostring(v) end
  if type(v) == "string" then return "'" .. v .. "'" end
  local k, o = {}, {}
  for x in pairs(v) do k[#k + 1] = x end
  table.sort(k, function(a, b) return tostring(a) < tostring(b) end)
  for i, x in ipairs(k) do o[i] = tostring(x) .. "=" .. ser(v[x]) end
  return "{" .. table.concat(o, ",") .. "}"
end
n = (n or 0) + 1
local r = {}
local function out(s) r[#r + 1] = s end
local function emit() tag_write("rec", table.concat(r, "|")) end
local function scan()
  if get_thisscan() < get_lastscan() then return "back" end
  if _firstrun then return get_interval() == 0 and "ok" or "first" end
  return get_interval() == get_thisscan() - get_lastscan() and "ok" or "interval"
end
"""


class Bad(Exception):
    pass


class Vague(Exception):
    """what happens next depends on the schedule"""


class LuaError(Exception):
    pass


# ---------------------------------------------------------------- values
def to_lua(m, typ, count, raw, pos=0):
    if typ == BOOL:
        l = [bool(int.from_bytes(raw, "little") >> pos + k & 1) for k in range(count)]
        return l[0] if count == 1 else {k + 1: v for k, v in enumerate(l)}
    n, o = m.tsize(typ), pos // 8
    if typ & CUSTOM:
        l = [{mn: to_lua(m, mt, mc, raw, pos + k * n * 8 + mp) for mn, mt, mc, mp in m.layout(typ)} for k in range(count)]
    elif typ == CHAR and count > 1:
        return bytes(raw[o:o + count]).split(b"\0")[0].decode("latin1")
    else:
        l = [struct.unpack(FMTC[typ], raw[o + k * n:o + k * n + n])[0] for k in range(count)]
    return l[0] if count == 1 else {k + 1: v for k, v in enumerate(l)}


def number(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return v
    raise LuaError("number")


def from_lua(m, h, v):
    """-> (data, mask); LuaError when the value does not fit the tag"""
    data, mask = bytearray(h.size), bytearray(h.size)

    def bit(p, x):
        mask[p // 8] |= 1 << p % 8
        data[p // 8] = data[p // 8] & ~(1 << p % 8) | bool(x) << p % 8

    def base(typ, count, v, pos):
        if count == 1:
            if typ == BOOL:
                bit(pos, v is not None and v is not False)
                return
            put(typ, pos // 8, v)
            return
        o = pos // 8
        if isinstance(v, str) and typ != BOOL and m.tsize(typ) == 1:
            s = v.encode("latin1")[:count]
            data[o:o + count] = s.ljust(count, b"\0")
            mask[o:o + count] = b"\xff" * count
            return
        if not isinstance(v, dict):
            raise LuaError("table")
        for k in range(count):
            if v.get(k + 1) is not None:
                if typ == BOOL:
                    bit(pos + k, v[k + 1])
                else:
                    put(typ, o + k * m.tsize(typ), v[k + 1])

    def put(typ, o, v):
        v, n = number(v), m.tsize(typ)
        if typ in (REAL, LREAL):
            data[o:o + n] = struct.pack(FMTC[typ], v)
        else:
            data[o:o + n] = (int(v) & (1 << n * 8) - 1).to_bytes(n, "little")
        mask[o:o + n] = b"\xff" * n

    def cdt(typ, v, pos):
        if not isinstance(v, dict):
            raise LuaError("table")
        for mn, mt, mc, mp in m.layout(typ):
            x = v.get(mn)
            if x is None:
                continue
            if not mt & CUSTOM:
                base(mt, mc, x, pos + mp)
            elif mc == 1:
                cdt(mt, x, pos + mp)
            else:
                arr(mt, mc, x, pos + mp)

    def arr(typ, count, v, pos):
        if not isinstance(v, dict):
            raise LuaError("table")
        for k in range(count):
            if v.get(k + 1) is not None:
                cdt(typ, v[k + 1], pos + k * m.tsize(typ) * 8)
    if h.type & CUSTOM:
        if h.count > 1:
            arr(h.type, h.count, v, 0)
        elif v is not None:
            cdt(h.type, v, 0)
    else:
        base(h.type, h.count, v, 0)
    return bytes(data), bytes(mask)


def ser(v):
    if v is None:
        return "nil"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return "%d" % (v - (1 << 64) if v >= 1 << 63 else v)
    if isinstance(v, float):
        return "f%.9g" % v
    if isinstance(v, str):
        return "'%s'" % v
    return "{" + ",".join("%s=%s" % (k, ser(v[k])) for k in sorted(v, key=str) if v[k] is not None) + "}"


def lit(v):
    """Lua source"""
    if v is None:
        return "nil"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, list):     # JSON has no tables with number keys
        return "{" + ",".join(lit(x) for x in v) + "}"
    if isinstance(v, dict):
        return "{" + ",".join("%s=%s" % (k, lit(x)) for k, x in v.items()) + "}"
    return repr(v)


def tab(v):
    """the value of that source"""
    if isinstance(v, list):
        return {k + 1: tab(x) for k, x in enumerate(v)}
    if isinstance(v, dict):
        return {k: tab(x) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- scripts
def source(s):
    """the file of a script"""
    o = [PRELUDE, 'out("%s") out(ser(get_executions())) out(ser(_firstrun)) out(ser(_trigger_data)) out(get_name() == "%s" and scan() or "name")' % (s["name"], s["name"])]
    for v in s["show"]:
        o.append('out("%s=" .. ser(%s))' % (v, v))
    done = False
    for a in s["body"]:
        k, v = a[1], a[2:]
        if k == "set":
            t = "%s = %s" % (v[0], lit(v[1]))
        elif k == "inc":
            t = "if type(%s) == 'number' then %s = (%s + %s) %% 100 end" % (v[0], v[0], v[0], lit(v[1]))
        elif k == "elem":
            t = "if type(%s) == 'table' then %s[%s] = %s end" % (v[0], v[0], lit(v[1]), lit(v[2]))
        elif k == "not":
            t = "%s = not %s" % (v[0], v[0])
        elif k == "tw":
            t = 'out(ser((pcall(tag_write, "%s", %s))))' % (v[0], lit(v[1]))
        elif k == "tr":
            t = 'out(ser(select(2, pcall(tag_read, "%s"))))' % v[0]
        elif k == "self":
            t = "disable_self()"
        elif k in ("dis", "ena", "id", "nm"):
            t = "out(ser(%s(%s)))" % (dict(dis="disable_script", ena="enable_script", id="get_script_id", nm="get_script_name")[k], lit(v[0]))
        elif k == "err":
            t = "emit() %s" % ('error("boom")' if v[0] == 0 else "error({1})" if v[0] == 1 else "local x = nil + 1" if v[0] == 2 else "nofunction()")
        elif k == "perr":
            t = 'out(ser((pcall(error, "x"))))'
        c = a[0]
        if c:
            t = "if n %% %d == %d then %s end" % (c[0], c[1], t)
        o.append(t)
    o.append("emit()")
    return "\n".join(o) + "\n"


class Script:
    def __init__(self, i, s):
        self.i, self.s, self.name = i, s, s["name"]
        self.enabled, self.failed, self.cmd = s["enable"], bool(s.get("broken") or s.get("missing")), None
        self.exec, self.first, self.n = 0, True, 0
        self.env, self.new, self.init = {}, None, {}
        self.tagen = self.enabled


class World(Model):
    """the tag server and the scripts"""
    def __init__(self, cfg):
        Model.__init__(self)
        self.cfg = cfg
        self.stopped = False
        self.records, self.queue = [], []
        self.out = 0            # events since the last time everything was known to have been received
        self.op_connect(0, "obs")
        self.op_connect(1, "lua")
        if cfg["cdt"]:
            self.op_ct(0, 0, "tc", [tuple(x) for x in cfg["cdt"]])
        for n, T, c, late in cfg["tags"]:
            if not late:
                self.make(n)
        self.scripts = [Script(i, s) for i, s in enumerate(cfg["scripts"])]
        self.byscript = {s.name: s for s in self.scripts}
        self.wired = set()
        self.triggers = {}

    def make(self, name):
        for i, (n, T, c, late) in enumerate(self.cfg["tags"]):
            if n == name:
                self.op_add(0, 100 + i, n, T, c, 0)

    def wire(self):
        """the events of the triggers whose tags are there"""
        for s in self.scripts:
            for what in ("trigger", "enable_trigger", "disable_trigger"):
                t = s.s.get(what)
                if not t or (s.i, what) in self.wired:
                    continue
                h = self.resolve(t["tag"], t["count"])
                if h is ERR:
                    continue
                tag = self.get(h.index)
                ref = b""
                if t["type"] in (EV_EQ, EV_GT, EV_LT, EV_DB):
                    ref = struct.pack(FMTC[h.type], t["value"])
                ev = Event(1, len(self.wired), h, t["type"], ref, tag, tag.nextevent)
                tag.nextevent += 1
                tag.events.insert(0, ev)        # the newest event of a tag is sent first
                self.wired.add((s.i, what))
                self.triggers[id(ev)] = (s, what)

    def _fire(self, ev, tag, how):
        s, what = self.triggers[id(ev)]
        if how != "must":
            raise Vague()
        self.stat["fired"] = self.stat.get("fired", 0) + 1
        self.event()
        if what == "trigger":
            if s in self.queue:
                raise Vague()
            s.new = self.value(ev.h)
            self.queue.append(s)
            if len(self.queue) >= self.cfg["queue"]:
                raise Vague()   # there has to be room for the mark at the end too
        else:
            if s in self.queue:
                raise Vague()
            s.cmd = what == "enable_trigger"
            self.stat["commands"] = self.stat.get("commands", 0) + 1

    def event(self):
        """the library keeps only the last eight events that have not been dispatched"""
        self.out += 1
        if self.out > 7:
            self.stat["many"] = 1
            raise Vague()

    def tell(self, s):
        """the tag of the script shows whether it is enabled, and the module has an event on that"""
        if s.tagen != s.enabled:
            s.tagen = s.enabled
            self.event()

    def value(self, h):
        raw = bytes(self.get(h.index).data[h.byte:h.byte + h.size])
        return to_lua(self, h.type, h.count, h.extract(raw))

    def put(self, c, h, data, mask=None):
        if self.handle_write(c, h, data, mask) is ERR:
            raise Bad("the model refuses a write")      # never happens with the programs that are generated

    def drain(self):
        for k in range(30):
            if not self.queue:
                return
            self.attempt(self.queue.pop(0))
        raise Vague()       # they trigger each other forever

    def attempt(self, s):
        if s.cmd is not None:
            s.enabled, s.cmd = s.cmd, None
            self.tell(s)
        if s.failed or not s.enabled or self.stopped:
            self.stat["skipped"] = self.stat.get("skipped", 0) + 1
            return
        e = s.env
        if s.new is not None:
            e["_trigger_data"], s.new = s.new, None
        for var, tag, mode in reversed(s.s["globals"]):
            if var not in s.init:
                h = self.resolve(tag, 0)
                if h is ERR:
                    continue
                s.init[var] = h
                if not mode & 1:
                    e[var] = to_lua(self, h.type, h.count, bytes(h.size))
            if mode & 1:
                e[var] = self.value(s.init[var])
        for var, v in s.s["statics"]:
            e[var] = tab(v)
        self.body(s, e)
        for var, tag, mode in reversed(s.s["globals"]):
            if mode & 2 and var in s.init:
                h = s.init[var]
                try:
                    d, mk = from_lua(self, h, e.get(var))
                except LuaError:
                    self.stat["unfit"] = self.stat.get("unfit", 0) + 1
                    continue
                self.store(h, d, mk)
        s.exec += 1
        s.first = False
        self.tell(s)
        self.stat["runs"] = self.stat.get("runs", 0) + 1

    def store(self, h, d, mk):
        if all(x == 255 for x in mk):
            self.put(1, h, d)
        else:
            if not any(mk):
                # nothing to change; whether that counts as a write is not settled
                if any(ev.kind not in (EV_CHANGE, EV_SET, EV_RESET) for ev in self.get(h.index).events):
                    raise Vague()
                return
            self.put(1, h, d, mk)

    def find(self, ref):
        if isinstance(ref, str):
            return self.byscript.get(ref)
        if isinstance(ref, int) and 0 <= ref < len(self.scripts):
            return self.scripts[ref]
        if isinstance(ref, int) and 0 <= ref < len(self.scripts) + 3:
            raise Vague()       # the scripts of the test itself (not generated, but shrinking may get here)
        return None

    def body(self, s, e):
        s.n += 1
        r = [s.name, "%d" % s.exec, ser(s.first), ser(e.get("_trigger_data")), "ok"]
        for v in s.s["show"]:
            r.append("%s=%s" % (v, ser(e.get(v))))
        for a in s.s["body"]:
            c, k, v = a[0], a[1], a[2:]
            if c and s.n % c[0] != c[1]:
                continue
            x = e.get(v[0]) if v and isinstance(v[0], str) else None
            if k == "set":
                e[v[0]] = tab(v[1])
            elif k == "inc":
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    e[v[0]] = (x + v[1]) % 100
            elif k == "elem":
                if isinstance(x, dict):
                    x[v[1]] = tab(v[2])
            elif k == "not":
                e[v[0]] = x is None or x is False
            elif k == "tw":
                h = self.resolve(v[0], 0)
                ok = h is not ERR
                if ok:
                    try:
                        d, mk = from_lua(self, h, tab(v[1]))
                        self.store(h, d, mk)
                    except LuaError:
                        ok = False
                r.append(ser(ok))
            elif k == "tr":
                h = self.resolve(v[0], 0)
                r.append(ser(self.value(h)))
            elif k == "self":
                s.enabled = False
            elif k in ("dis", "ena"):
                t = self.find(v[0])
                r.append(ser(t.i if t else None))
                if t:
                    t.cmd = k == "ena"
            elif k == "id":
                t = self.byscript.get(v[0])
                r.append(ser(t.i if t else None))
            elif k == "nm":
                names = [t.name for t in self.scripts] + ["y_z2", "y_z1", "y_z0"]
                r.append(ser(names[v[0]] if 0 <= v[0] < len(names) else None))
            elif k == "err":
                self.records.append("|".join(r))
                if s.s["fail"]:
                    s.failed = True
                self.stat["errors"] = self.stat.get("errors", 0) + 1
                return
            elif k == "perr":
                r.append("false")
        self.records.append("|".join(r))


# ---------------------------------------------------------------- running a case
class Run:
    def __init__(self, b, cwd, case):
        self.b, self.cwd, self.cfg, self.ops = b, cwd, case["cfg"], case["ops"]
        self.st, self.srv, self.mod, self.w = {}, None, None, None
        self.nonce = 0
        self.got = []

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def health(self):
        self.srv.check()
        if self.mod:
            self.mod.check()

    # ---- configuration
    def launch(self):
        cfg = self.cfg
        self.srv = Server(self.b, self.cwd)
        self.w = Client(self.srv, "obs")
        self.idx = {}
        self.w.add("rec", QUEUE | CHAR, REC)
        self.rec = self.w.get("rec")[0]
        for n in ("zz0", "zz1", "zz2"):
            if n == "zz0" or not any(t[3] for t in cfg.get("tags", ())):
                self.w.add(n, BASE["DINT"])
        self.tc = None
        if cfg.get("cdt"):
            self.tc = self.w.cdt("tc:" + ":".join("%s,%s,%d" % (n, T, c) for n, T, c in cfg["cdt"]))
        for n, T, c, late in cfg.get("tags", ()):
            if not late:
                self.make(n)
        lua = ["event_thread_count = %d" % cfg.get("threads", 1), "event_queue_size = %d" % cfg.get("queue", 128)]
        for n, ms in cfg.get("intervals", ()):
            lua.append('add_interval_thread("%s", %d)' % (n, ms))
        for s in cfg["scripts"]:
            f = os.path.join(self.cwd, s["name"] + ".lua")
            if not s.get("missing"):
                with open(f, "w") as fh:
                    fh.write("this is not Lua\n" if s.get("broken") else source(s) if "body" in s else s["text"])
            lua += ["s = {}", 's.name = "%s"' % s["name"], "s.enable = %s" % lit(s["enable"]), "s.fail_on_error = %s" % lit(s["fail"]), "s.auto_run = %s" % lit(s["auto"])]
            lua.append('s.filename = "%s"' % f)
            if s.get("thread"):
                lua.append('s.thread = "%s"' % s["thread"])
            for what in ("trigger", "enable_trigger", "disable_trigger"):
                t = s.get(what)
                if t:
                    lua.append('s.%s = {tag="%s", count=%d, type="%s", value=%s}' % (what, t["tag"], t["count"], EVT[t["type"]], lit(t["value"])))
            lua.append("add_script(s)")
            for var, tag, mode in s["globals"]:
                lua.append('add_global_tag("%s", "%s", "%s", %s)' % (s["name"], var, tag, {1: "READ", 2: "WRITE", 3: "READ + WRITE"}[mode]))
            for var, v in s["statics"]:
                lua.append('add_global_static("%s", "%s", %s)' % (s["name"], var, lit(v)))
        # the ends of the lists of triggers: events arrive here when all the others have been installed
        for n, tag in (("y_z2", "zz2"), ("y_z1", "zz1"), ("y_z0", "zz0")):
            f = os.path.join(self.cwd, n + ".lua")
            with open(f, "w") as fh:
                fh.write('tag_write("rec", "#%s|" .. tostring(_trigger_data))\n' % n)
            lua += ["s = {}", 's.name = "%s"' % n, 's.filename = "%s"' % f, "s.auto_run = false", 's.trigger = {tag="%s", count=0, type="WRITE", value=0}' % tag, "add_script(s)"]
        conf = os.path.join(self.cwd, "daxlua.conf")
        with open(conf, "w") as f:
            f.write("\n".join(lua) + "\n")
        self.mod = Proc([self.b.daxlua, "-U", self.srv.sock, "-S", "LOCAL", "-N", "daxlua", "-C", conf], self.cwd, "daxlua")
        self.wait(self.running, "the module is running")
        self.scr = self.w.get("daxlua_scripts")[0]

    def tcode(self, T):
        return self.tc if T == "t0" else BASE[T]

    def make(self, name):
        n, T, c, late = next(t for t in self.cfg["tags"] if t[0] == name)
        self.idx[n] = self.w.add(n, self.tcode(T), c)

    def running(self):
        try:
            i = self.w.get("_mdaxlua")[0]
            return self.w.read(i, 12, 1)[0] & 1
        except Refused:
            return False

    def wait(self, f, what, late=LATE):
        end = time.time() + late
        while True:
            r = f()
            if r:
                return r
            self.health()
            if time.time() > end:
                raise Bad("%d seconds are not enough: %s" % (late, what))
            time.sleep(0.005)

    # ---- records of the scripts
    def pull(self):
        while True:
            try:
                d = self.w.read(self.rec, 0, REC)
            except Refused:
                return
            self.got.append(d.split(b"\0")[0].decode("latin1"))

    def sync(self, name="y_z0", tag="zz0", again=False):
        """everything that happened before has been dealt with"""
        self.nonce += 1
        i = self.w.get(tag)[0]
        want, last = "#%s|%d" % (name, self.nonce), [0]
        self.w.write(i, 0, struct.pack("<i", self.nonce))
        last[0] = time.time()

        def there():
            if again and time.time() - last[0] > 0.1:
                self.w.write(i, 0, struct.pack("<i", self.nonce))
                last[0] = time.time()
            self.pull()
            return want in self.got
        self.wait(there, "a script runs when its trigger tag is written")
        self.got = [x for x in self.got if not x.startswith("#")]

    def stop(self):
        if self.w:
            try:
                self.w.close()
            except Exception:
                pass
        for p in (self.mod, self.srv):
            if p:
                p.stop()


class Triggered(Run):
    """one worker, one thing at a time: the model says exactly what happens"""
    def go(self):
        at = None
        try:
            self.m = World(self.cfg)
            self.launch()
            for s in self.m.scripts:
                if s.s.get("trigger") and s.s["auto"]:
                    self.m.queue.append(s)
            self.m.drain()
            self.sync(again=True)
            self.m.wire()
            self.compare("after the start")
            self.sync()     # the repeated writes to the trigger have had their effect
            for at, op in enumerate(self.ops):
                self.op(op)
                self.compare("after %s" % self.show(op))
                self.count("ops")
            self.st.update({k: v for k, v in self.m.stat.items() if k in ("runs", "skipped", "fired", "commands", "unfit", "errors")})
        except Vague:
            self.st.update({k: v for k, v in self.m.stat.items() if k in ("runs", "skipped", "fired", "commands", "unfit", "errors")})
            self.count("vague")
        except (Bad, Died) as e:
            if isinstance(e, Died):
                for p in (self.srv, self.mod):
                    if p and not p.alive():
                        settle(p)
                return Outcome(Fail("crash", "%s\n%s" % (e, e.detail[-2500:]), at), self.st)
            return Outcome(Fail("wrong", str(e) + self.complaints(), at), self.st)
        return Outcome(None, self.st)

    def complaints(self):
        t = tail(self.mod.log, 600) if self.mod else ""
        return "\n" + t if t else ""

    def show(self, op):
        return repr(op)

    def op(self, op):
        k = op[0]
        self.m.out = 0
        if k == "w":
            h = self.m.resolve(op[1], 0)
            if h is ERR:
                return
            d = bytes.fromhex(op[2])
            d = (d * (h.size // len(d) + 1))[:h.size]
            name = self.m.tags[h.index].name
            if h.type == BOOL:
                data, mask = h.place(d)
                self.w.mwrite(self.idx[name], h.byte, data, mask)
                self.m.put(0, h, d, None if mask == b"\xff" * h.size else b"\xff" * h.size)
            else:
                self.w.write(self.idx[name], h.byte, d)
                self.m.put(0, h, d)
            self.m.drain()
        elif k == "en":
            s = self.m.byscript.get(op[1])
            if s is None or s.cmd is not None or s.tagen != s.enabled or self.m.stopped:
                return
            self.w.mwrite(self.scr, 41 * s.i + 32, bytes([op[2]]), b"\x01")
            s.enabled = s.tagen = bool(op[2])
        elif k == "mk":
            late = [t[0] for t in self.cfg["tags"] if t[3] and t[0] not in self.idx]
            if not late or self.m.stopped:
                return
            for n in late:
                self.make(n)
                self.m.make(n)
            for n, tag in (("y_z1", "zz1"), ("y_z2", "zz2")):
                self.w.add(tag, BASE["DINT"])
                self.sync(n, tag, True)
            self.m.wire()
        elif k == "stop" and not self.m.stopped:
            self.command(1)
            self.wait(lambda: not self.running(), "the module stops when it is told to")
            self.m.stopped = True
        elif k == "run" and self.m.stopped:
            self.command(2)
            self.wait(self.running, "the module runs when it is told to")
            self.m.stopped = False

    def command(self, bit):
        i = self.w.get("_mdaxlua")[0]
        self.w.mwrite(i, 77, bytes([bit]), bytes([bit]))

    def compare(self, when):
        want, self.m.records = self.m.records, []
        if self.m.stopped:
            time.sleep(0.25)
            self.pull()
        else:
            # a script that was triggered by another script may come after the end mark
            for k in range(40):
                self.sync()
                if len(self.got) >= len(want):
                    break
            self.sync()
        got, self.got = self.got, []
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            raise Bad("%s: run %d should be\n  %s\nbut is\n  %s\n(%d runs, should be %d)" % (
                when, i, want[i] if i < len(want) else "no run", got[i] if i < len(got) else "no run", len(got), len(want)))
        self.count("matched", len(want))
        for n, i in self.idx.items():
            t = self.m.byname[n]
            d = self.w.read(i, 0, t.data.__len__() if t.type != BOOL else (t.count - 1) // 8 + 1)
            if d != bytes(t.data[:len(d)]):
                raise Bad("%s: tag %s holds %s, should be %s" % (when, n, d.hex(), bytes(t.data[:len(d)]).hex()))
        for s in self.m.scripts:
            d = self.w.read(self.scr, 41 * s.i, 41)
            name, ex, fl = d[:32].rstrip(b"\0").decode("latin1"), struct.unpack("<Q", d[33:])[0], bool(d[32] & 2)
            if (name, ex, fl) != (s.name, s.exec, s.failed):
                raise Bad("%s: the tag of script %s says name '%s', %d executions, failed %s; should be %d and %s" % (when, s.name, name, ex, fl, s.exec, s.failed))
            if s.cmd is None and s.tagen == s.enabled and bool(d[32] & 1) != s.enabled:
                raise Bad("%s: the tag of script %s says enabled %d, should be %d" % (when, s.name, d[32] & 1, s.enabled))
        self.health()


def plain(s):
    """file of a script for the kinds of runs that are not predicted step by step"""
    o = [PRELUDE, 'tag_write("rec", table.concat({"%s", ser(get_executions()), ser(_firstrun), ser(n), ser(st), ser(g), scan(), ser(get_interval()), ser(_trigger_data), ser(busy)}, "|"))' % s["name"],
         "busy = true", "st = 99", "w = n"]
    if s.get("count"):
        o.append("c = c + 1")
    if s.get("sleep"):
        o.append("sleep(%d)" % s["sleep"])
    o.append("busy = false")
    if s.get("stop"):
        k, how = s["stop"]
        o.append("if n %% %d == 0 then %s end" % (k, "disable_self()" if how == 0 else 'error("enough")'))
    return "\n".join(o) + "\n"


class Loose(Run):
    def setup(self):
        for s in self.cfg["scripts"]:
            s["text"] = plain(s)
        self.launch()
        self.recs = {s["name"]: [] for s in self.cfg["scripts"]}
        self.seq = []

    def collect(self):
        self.pull()
        n = 0
        for x in self.got:
            if x.startswith("#"):
                continue
            f = x.split("|")
            s = next(s for s in self.cfg["scripts"] if s["name"] == f[0])
            r = self.recs[f[0]]
            k = len(r)
            want = [f[0], "%d" % k, "true" if k == 0 else "false", "%d" % (k + 1), ser(dict(s["statics"]).get("st", 99 if k else None))]
            if f[:5] != want:
                raise Bad("run %d of script %s should report %s but reports %s" % (k, f[0], "|".join(want), x))
            if f[6] != "ok":
                raise Bad("run %d of script %s: the times of this and the last run do not fit (%s): %s" % (k, f[0], f[6], x))
            if f[9] == "true" and not s.get("stop"):
                raise Bad("run %d of script %s began before the one before it ended" % (k, f[0]))
            r.append(f)
            self.seq.append(f[0])
            n += 1
        self.count("runs", n)
        self.got = []
        return n

    def go(self):
        self.at = None
        try:
            self.setup()
            self.body()
        except Died as e:
            for p in (self.srv, self.mod):
                if p and not p.alive():
                    settle(p)
            return Outcome(Fail("crash", "%s\n%s" % (e, e.detail[-2500:]), self.at), self.st)
        except Bad as e:
            t = tail(self.mod.log, 500) if self.mod else ""
            return Outcome(Fail("wrong", str(e) + ("\n" + t if t else ""), self.at), self.st)
        return Outcome(None, self.st)

    def stag(self, i):
        d = self.w.read(self.scr, 41 * i, 41)
        return d[:32].rstrip(b"\0").decode("latin1"), d[32] & 1, d[32] >> 1 & 1, struct.unpack("<Q", d[33:])[0]


class Periodic(Loose):
    """interval threads"""
    def body(self):
        cfg = self.cfg
        self.on = {s["name"]: s["enable"] for s in cfg["scripts"]}
        self.steady = dict(self.on)           # was enabled all the time
        self.ms = dict(cfg["intervals"])
        thr = self.w.get("daxlua_threads")[0]
        for i, (n, ms) in enumerate(cfg["intervals"]):
            d = self.w.read(thr, 44 * i, 44)
            k = sum(1 for s in cfg["scripts"] if s.get("thread") == n)
            got = d[:32].rstrip(b"\0").decode("latin1"), struct.unpack("<II", d[32:40])
            if got != (n, (ms, k)):
                raise Bad("the tag of thread %s says %r, should be interval %d with %d scripts" % (n, got, ms, k))
        for s in cfg["scripts"]:
            if self.on[s["name"]]:
                self.after(s, 0)
        for self.at, op in enumerate(self.ops):
            self.count("op " + op[0])
            self.op(op)
            self.health()
        self.final()

    def script(self, name):
        return next((s for s in self.cfg["scripts"] if s["name"] == name), None)

    def after(self, s, have=None):
        """the script has been enabled: it runs, and when it limits itself so often and no more"""
        n = s["name"]
        if have is None:
            have = len(self.recs[n])
        if s.get("stop"):
            k = s["stop"][0]
            want = (have // k + 1) * k
            self.quiet(s, want)
            name, en, failed, ex = self.stag(self.cfg["scripts"].index(s))
            if (name, failed, ex) != (n, int(s["stop"][1] == 1), want) or s["stop"][1] == 0 and en:
                raise Bad("script %s stopped itself in run %d; its tag says name '%s', enabled %d, failed %d, %d executions" % (n, want, name, en, failed, ex))
            self.on[n] = False
            self.steady[n] = False
            if s["stop"][1] == 1:
                s["dead"] = True
        else:
            self.wait(lambda: self.collect() is not None and len(self.recs[n]) > have, "script %s runs when it is enabled" % n)

    def quiet(self, s, want):
        """wait until the script has run so often and does not run any more"""
        n = s["name"]
        end = time.time() + LATE
        gap = max(3 * self.ms[s["thread"]] / 1000.0, 0.15) + self.load(s["thread"]) / 500.0
        last, since = -1, time.time()
        while True:
            self.collect()
            k = len(self.recs[n])
            if want is not None and k > want:
                raise Bad("script %s stopped itself in run %d but ran %d times" % (n, want, k))
            if k != last:
                last, since = k, time.time()
            elif time.time() - since > gap and (want is None or k == want):
                return
            if time.time() > end:
                raise Bad("script %s does not stop" % n if want is None else "script %s ran %d times, should run %d times and stop" % (n, k, want))
            self.health()
            time.sleep(0.01)

    def load(self, thread):
        return sum(s.get("sleep", 0) for s in self.cfg["scripts"] if s.get("thread") == thread)

    def op(self, op):
        k = op[0]
        if k == "rate":
            th = op[1]
            if th not in self.ms:
                return
            busy = sum(s.get("sleep", 0) for s in self.cfg["scripts"] if s.get("thread") == th and self.on[s["name"]])
            mine = [s for s in self.cfg["scripts"] if s.get("thread") == th and self.on[s["name"]]]
            if not mine:
                return
            n = mine[0]["name"]
            per = max(self.ms[th], busy) / 1000.0
            win = max(0.6, 8 * per)
            i = self.w.get("daxlua_threads")[0]
            t = [x[0] for x in self.cfg["intervals"]].index(th)
            over = struct.unpack("<I", self.w.read(i, 44 * t + 40, 4))[0]
            self.collect()
            a, t0 = len(self.recs[n]), time.time()
            time.sleep(win)
            t1 = time.time()
            self.collect()
            t2 = time.time()
            c = len(self.recs[n]) - a
            if c > (t2 - t0) / per * 1.05 + 2:
                raise Bad("script %s of a thread with interval %d ms ran %d times in %.2f s" % (n, self.ms[th], c, t2 - t0))
            # sanitizers and the other tests make it slower, but not that much
            if c < (t1 - t0) / (per + 0.004 * len(mine)) * 0.62 - 1:
                raise Bad("script %s of a thread with interval %d ms (scripts take %d ms) ran only %d times in %.2f s" % (n, self.ms[th], busy, c, t1 - t0))
            if busy > self.ms[th] + 5:
                o2 = struct.unpack("<I", self.w.read(i, 44 * t + 40, 4))[0]
                if o2 <= over:
                    raise Bad("thread %s overran its interval in every cycle but its tag counts %d overruns" % (th, o2 - over))
            self.count("rates")
            return
        s = self.script(op[1])
        if s is None:
            return
        n, i = s["name"], self.cfg["scripts"].index(s)
        if k == "g":
            self.w.write(self.idx["g_" + n], 0, struct.pack("<i", op[2]))
            if self.on[n] and not s.get("dead"):
                have = len(self.recs[n])
                self.wait(lambda: self.collect() is not None and any(r[5] == "%d" % op[2] for r in self.recs[n][have:]), "script %s sees the new value of its tag" % n)
                seen = [r[5] for r in self.recs[n][have:]]
                k = seen.index("%d" % op[2])
                if any(x != "%d" % op[2] for x in seen[k:]):
                    raise Bad("script %s sees %s after its tag was set to %d" % (n, ",".join(seen), op[2]))
                self.count("reads")
        elif k in ("on", "off"):
            if (k == "on") == self.on[n] or s.get("dead"):
                return
            how = op[2]
            if how == "tag":
                en = self.stag(i)[1]
                if en != self.on[n]:
                    how = "trigger"     # the tag lags behind
                else:
                    self.w.mwrite(self.scr, 41 * i + 32, bytes([k == "on"]), b"\x01")
            if how == "trigger":
                t = self.idx["%s_%s" % (k, n)]
                self.w.write(t, 0, b"\0")
                self.w.write(t, 0, b"\1")
            self.steady[n] = False
            if k == "on":
                self.on[n] = True
                self.after(s)
            else:
                self.quiet(s, None)
                self.on[n] = False
            self.count("switched")

    def final(self):
        self.collect()
        for a in range(len(self.cfg["scripts"])):
            for b in range(a + 1, len(self.cfg["scripts"])):
                x, y = self.cfg["scripts"][a], self.cfg["scripts"][b]
                if x["thread"] == y["thread"] and self.steady[x["name"]] and self.steady[y["name"]]:
                    q = [n for n in self.seq if n in (x["name"], y["name"])]
                    for i, n in enumerate(q):
                        if n != (x["name"], y["name"])[i % 2]:
                            raise Bad("scripts %s and %s of the same thread ran in the order %s" % (x["name"], y["name"], ",".join(q[max(0, i - 3):i + 2])))
                    self.count("orders")
        for s in self.cfg["scripts"]:
            if not self.on[s["name"]]:
                n = len(self.recs[s["name"]])
                v = struct.unpack("<i", self.w.read(self.idx["w_" + s["name"]], 0, 4))[0]
                if v != n:
                    raise Bad("script %s has run %d times and has written that number to its tag, which holds %d" % (s["name"], n, v))


class Burst(Loose):
    """several workers, many triggers at the same time"""
    def body(self):
        sc = self.cfg["scripts"]
        self.sync(again=True)
        self.collect()
        stops = {s["name"] for s in sc if s.get("stop")}
        for self.at, op in enumerate(self.ops):
            before = {n: len(r) for n, r in self.recs.items()}
            fired = dict.fromkeys(before, 0)
            self.count("bursts")
            for i, v in op:
                if i < len(sc):
                    self.w.write(self.idx["t_" + sc[i]["name"]], 0, struct.pack("<i", v))
                    fired[sc[i]["name"]] += 1
            total = sum(fired.values())
            left = {s["name"]: s["stop"][0] - before[s["name"]] if s.get("stop") else 10**9 for s in sc}
            limit = {n: min(fired[n], left[n]) for n in fired}
            fits = total <= min(self.cfg["queue"], 8)   # the library keeps the last eight events
            if fits:
                self.wait(lambda: self.collect() is not None and all(len(self.recs[n]) - before[n] >= limit[n] for n in fired),
                          "every one of %d events runs its script" % total)
            self.calm()
            for n in fired:
                c = len(self.recs[n]) - before[n]
                if c > left[n]:
                    raise Bad("script %s stopped itself in run %d but ran %d times" % (n, before[n] + left[n], before[n] + c))
                if c > fired[n]:
                    raise Bad("script %s ran %d times after %d events" % (n, c, fired[n]))
                if c < limit[n] and fits:
                    raise Bad("script %s ran %d times after %d events" % (n, c, fired[n]))
                if fits and fired[n] and fired[n] <= left[n]:
                    v = [v for i, v in op if i < len(sc) and sc[i]["name"] == n][-1]
                    if self.recs[n][-1][8] != "%d" % v:
                        raise Bad("script %s was last triggered by %d but saw %s in its last run" % (n, v, self.recs[n][-1][8]))
                if c and self.recs[n][-1][8] not in ["%d" % v for i, v in op if sc[i % len(sc)]["name"] == n]:
                    raise Bad("script %s was triggered by %s but saw %s" % (n, [v for i, v in op if sc[i % len(sc)]["name"] == n], self.recs[n][-1][8]))
            c = sum(len(self.recs[n]) - before[n] if n not in stops else fired[n] for n in fired)
            if c < min(total, self.cfg["queue"], 8):
                raise Bad("%d events, a queue for %d, but only %d runs" % (total, self.cfg["queue"], c))
            self.count("overflows" if not fits else "complete")
            self.count("events", total)
            for s in sc:
                n = len(self.recs[s["name"]])
                v = struct.unpack("<i", self.w.read(self.idx["c_" + s["name"]], 0, 4))[0]
                if v != n:
                    raise Bad("script %s has run %d times and has counted that in its tag, which holds %d" % (s["name"], n, v))
                if self.stag(sc.index(s))[3] != n:
                    raise Bad("script %s has run %d times, its tag says %d" % (s["name"], n, self.stag(sc.index(s))[3]))

    def calm(self):
        """no runs for a while"""
        end = time.time() + LATE
        since = time.time()
        while time.time() - since < 0.15:
            if self.collect():
                since = time.time()
            if time.time() > end:
                raise Bad("scripts keep running")
            self.health()
            time.sleep(0.01)


# ---------------------------------------------------------------- generation
NUMS = ["DINT", "INT", "UINT", "SINT", "BYTE", "LINT", "UDINT", "WORD", "REAL", "LREAL", "DWORD", "LWORD", "ULINT", "TIME"]
EXTREME = dict(SINT=[-128, -3, 127], BYTE=[128, 255], INT=[-32768, -3, 32767], UINT=[32768, 65535], WORD=[40000, 65535], DINT=[-2**31, -3, 2**31 - 1],
               UDINT=[2**31, 2**32 - 1], DWORD=[3000000000, 2**32 - 1], LINT=[-2**52, -3, 2**40, 2**32], ULINT=[2**32, 2**52], LWORD=[2**33, 2**50 + 1],
               TIME=[2**32, 1700000000000], REAL=[-2.5, 1e10], LREAL=[-1e30, 2.0**60])


def g_val(rng, T, c, cdt, style):
    """a Lua value (JSON form) for an item of this type"""
    if rng.random() < 0.12:
        return rng.choice([None, "abc", True, 3, [1, 2], {"a": 1}])
    if c > 1:
        if T == "CHAR":
            return rng.choice(["", "ab", "hello", "0123456789abc"])
        return [g_val(rng, T, 1, cdt, style) for _ in range(rng.choice([c, c, c - 1, c + 1]))]
    if T == "t0":
        return {n: g_val(rng, t, k, cdt, style) for n, t, k in cdt if rng.random() < 0.8}
    if T == "BOOL":
        return rng.random() < 0.5
    if T in ("REAL", "LREAL"):
        return rng.choice([rng.randrange(80) / 4, rng.randrange(20)])
    return rng.randrange(20)


class C25(Check):
    prop = "C25"
    level = "exploration"
    technique = "property-based testing: generated script configurations and histories of tag writes against a model of the script schedule, the globals and the tag server"
    note = ("Generated configurations of the daxlua module (scripts, triggers of every event type, interval threads, global tags of base, array, string and compound types, static "
            "globals, failing and broken scripts, scripts that control each other) run against the real tag server. With one worker every run, everything the script sees, everything "
            "it writes and the status tags are predicted by a model; interval threads and bursts over several workers are judged by invariants over the history of runs.")
    rule = "at least five runs of scripts were compared with what the model or the history demands"
    quick = 600
    thorough = 4000
    workers = 8

    def gen(self, rng, i, tier):
        x = rng.random()
        if x < 0.68:
            return self.g_triggered(rng)
        if x < 0.86:
            return self.g_periodic(rng)
        return self.g_burst(rng)

    # ---- predicted
    def g_triggered(self, rng):
        cdt = [["a", "DINT", 1], ["b", "BOOL", 1], ["c", "INT", 2], ["f", "LREAL", 1], ["d", "BOOL", 3], ["s", "CHAR", 6], ["e", "SINT", 1]]
        rng.shuffle(cdt)
        cdt = cdt[:rng.randint(2, 7)]
        tags = []
        for k in range(rng.randint(3, 9)):
            x = rng.random()
            late = rng.random() < 0.5
            if x < 0.4:
                tags.append(["t%d" % k, rng.choice(NUMS), 1, late])
            elif x < 0.55:
                tags.append(["t%d" % k, "BOOL", rng.choice([1, 1, 5, 8, 12]), late])
            elif x < 0.75:
                tags.append(["t%d" % k, rng.choice(NUMS), rng.randint(2, 5), late])
            elif x < 0.85:
                tags.append(["t%d" % k, "CHAR", rng.choice([1, 6, 10]), late])
            else:
                tags.append(["t%d" % k, "t0", rng.choice([1, 1, 2, 3]), late])
        if rng.random() < 0.92:
            for t in tags:
                t[3] = False
        # what can be addressed: (text, type, count)
        refs = []
        for n, T, c, late in tags:
            refs.append((n, T, c))
            if c > 1:
                k = rng.randrange(c)
                refs.append(("%s[%d]" % (n, k), T, 1))
                n = "%s[%d]" % (n, rng.randrange(c))
            if T == "t0":
                for mn, mt, mc in cdt:
                    refs.append(("%s.%s" % (n, mn), mt, mc))
                    if mc > 1:
                        refs.append(("%s.%s[%d]" % (n, mn, rng.randrange(mc)), mt, 1))
            elif T in ("DINT", "INT", "UINT", "BYTE", "WORD", "UDINT") and rng.random() < 0.5:
                refs.append(("%s.%d" % (n, rng.randrange(8)), "BOOL", 1))
        nscripts = rng.choice([1, 2, 3, 3, 4, 5, 6, 9, rng.randint(14, 28)])
        names = ["s%d" % k for k in range(nscripts)]
        if rng.random() < 0.1:
            names[-1] = "a_script_with_a_very_long_name__"
        auto_writes = rng.random() < 0.5
        scripts = []

        def trig():
            r = rng.choice(refs)
            if r[1] == "BOOL":
                t = rng.choice([EV_WRITE, EV_CHANGE, EV_SET, EV_SET, EV_RESET])
            elif r[1] == "t0":
                t = rng.choice([EV_WRITE, EV_CHANGE])
            elif r[1] in ("REAL", "LREAL"):
                t = rng.choice([EV_WRITE, EV_CHANGE, EV_GT, EV_LT, EV_DB])
            else:
                t = rng.choice([EV_WRITE, EV_CHANGE, EV_EQ, EV_GT, EV_LT, EV_DB])
            v = rng.randrange(1, 16)
            if r[1] in ("REAL", "LREAL") and rng.random() < 0.5:
                v += 0.5
            if r[1] in EXTREME and rng.random() < 0.25:
                v = rng.choice(EXTREME[r[1]])
                if t == EV_DB:
                    v = min(abs(v), max(EXTREME[r[1]]))
            if r[1] == "CHAR" and t == EV_EQ:
                v = rng.choice([65, 97])
            return dict(tag=r[0], count=rng.choice([0, 0, r[2]]), type=t, value=v)
        for k, n in enumerate(names):
            s = dict(name=n, enable=rng.random() < 0.85, fail=rng.random() < 0.6, auto=rng.random() < 0.3, globals=[], statics=[], body=[], show=[])
            if rng.random() < 0.03:
                s["broken"] = True
            elif rng.random() < 0.02:
                s["missing"] = True
            if rng.random() < 0.93:
                s["trigger"] = trig()
            if rng.random() < 0.25:
                s["enable_trigger"] = trig()
            if rng.random() < 0.25:
                s["disable_trigger"] = trig()
            vars = []
            for j in range(rng.choice([0, 1, 2, 2, 3])):
                r = rng.choice(refs)
                s["globals"].append(["v%d" % j, r[0], rng.choice([1, 2, 3])])
                vars.append(("v%d" % j, r[1], r[2]))
            for j in range(rng.choice([0, 0, 1, 2])):
                s["statics"].append(["k%d" % j, rng.choice([True, False, 5, 2.5, "text", None, -7])])
                vars.append(("k%d" % j, "DINT", 1))
            if rng.random() < 0.4:
                vars.append(("x", "DINT", 1))
            s["show"] = [v[0] for v in vars]
            for j in range(rng.choice([0, 1, 2, 3, 4])):
                c = None if rng.random() < 0.55 else [rng.choice([2, 3]), rng.randrange(2)]
                y = rng.random()
                if y < 0.45 and vars:
                    v, T, cnt = rng.choice(vars)
                    z = rng.random()
                    if cnt == 1 and T == "BOOL" and z < 0.5:
                        a = ["not", v]
                    elif cnt == 1 and T not in ("t0", "BOOL") and z < 0.5:
                        a = ["inc", v, rng.choice([1, 2, 7])]
                    elif (cnt > 1 or T == "t0") and z < 0.6 and T != "CHAR":
                        if cnt > 1:
                            a = ["elem", v, rng.randint(1, cnt), g_val(rng, T, 1, cdt, 0)]
                        else:
                            mn, mt, mc = rng.choice(cdt)
                            a = ["elem", v, mn, g_val(rng, mt, mc, cdt, 0)]
                    else:
                        a = ["set", v, g_val(rng, T, cnt, cdt, 0)]
                elif y < 0.55:
                    r = rng.choice([r for r in refs])
                    a = ["tw", r[0], g_val(rng, r[1], r[2], cdt, 0)]
                    if a[2] is None:
                        a[2] = 1
                elif y < 0.62 and not any(t[3] for t in tags):
                    a = ["tr", rng.choice(refs)[0]]
                elif y < 0.68:
                    a = ["self"]
                elif y < 0.82:
                    a = [rng.choice(["dis", "ena"]), rng.choice(names + ["nobody"]) if rng.random() < 0.6 else rng.choice(list(range(nscripts)) + [-1, nscripts + 3, 1000])]
                elif y < 0.86:
                    a = ["id", rng.choice(names + ["nobody"])]
                elif y < 0.92:
                    a = ["nm", rng.choice([rng.randrange(nscripts), -1, nscripts + 3, 100000, -100000])]
                elif y < 0.96:
                    a = ["err", rng.randrange(4)]
                else:
                    a = ["perr"]
                s["body"].append([c] + a)
            scripts.append(s)
        # what the first runs write must not meet triggers that are just being installed
        if any(s["auto"] and s.get("trigger") for s in scripts):
            for s in scripts:
                if s["auto"]:
                    s["globals"] = [[v, t, 1] for v, t, m in s["globals"]]
                    s["body"] = [a for a in s["body"] if a[1] != "tw"]
        cfg = dict(kind="triggered", cdt=cdt, tags=tags, scripts=scripts, threads=1, queue=rng.choice([1, 2, 3, 8, 128, 128]))
        cfg["queue"] = max(cfg["queue"], 4)
        if rng.random() < 0.3 and sum(1 for s in scripts if s["auto"]) > 2:
            cfg["queue"] = 4
        hot = [s[w]["tag"] for s in scripts for w in ("trigger", "trigger", "enable_trigger", "disable_trigger") if s.get(w)]
        ops = []
        for k in range(rng.randint(6, 22)):
            y = rng.random()
            if y < 0.84:
                t = rng.choice(hot) if hot and rng.random() < 0.8 else rng.choice(refs)[0]
                r = next(r for r in refs if r[0] == t)
                ops.append(["w", t, self.g_data(rng, r, cdt)])
            elif y < 0.93:
                ops.append(["en", rng.choice(names), rng.randrange(2)])
            elif y < 0.96:
                ops.append(["mk"])
            elif y < 0.98:
                ops.append(["stop"])
            else:
                ops.append(["run"])
        if any(o[0] == "stop" for o in ops):
            ops.insert(rng.randrange(next(i for i, o in enumerate(ops) if o[0] == "stop") + 1, len(ops) + 1), ["run"])
        return dict(cfg=cfg, ops=ops)

    def g_data(self, rng, r, cdt):
        n, T, c = r
        if T in ("REAL", "LREAL"):
            return b"".join(struct.pack(FMTC[BASE[T]], rng.choice([rng.randrange(20), rng.randrange(80) / 4] + EXTREME[T][:rng.randrange(3)])) for _ in range(c)).hex()
        if T == "t0":
            # 0/1 bytes: every float in there is tiny, every flag and number small
            return bytes(rng.choice([0, 0, 1, 2, 3, 65]) for _ in range(40)).hex()
        if T == "BOOL":
            return bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(2)).hex()
        if T == "CHAR":
            return bytes(rng.choice([65, 66, 97, 0]) for _ in range(c)).hex()
        f = FMTC[BASE[T]]
        return b"".join(struct.pack(f, rng.choice([rng.randrange(20), 5, 10] + EXTREME[T][:rng.randrange(4)])) for _ in range(c)).hex()

    # ---- interval threads
    def g_periodic(self, rng):
        iv = [["f%d" % k, rng.choice([15, 30, 50, 80])] for k in range(rng.choice([1, 1, 2, 3]))]
        scripts, tags, ops = [], [], []
        for k in range(rng.randint(1, 5)):
            n = "s%d" % k
            th = rng.choice(iv)
            s = dict(name=n, enable=rng.random() < 0.8, fail=True, auto=False, thread=th[0], globals=[["g", "g_" + n, 1], ["w", "w_" + n, 2]],
                     statics=[["st", rng.choice([1, 2.5, True, "abc"])]] if rng.random() < 0.7 else [])
            s["enable_trigger"] = dict(tag="on_" + n, count=0, type=EV_SET, value=0)
            s["disable_trigger"] = dict(tag="off_" + n, count=0, type=EV_SET, value=0)
            y = rng.random()
            if y < 0.25:
                s["stop"] = [rng.randint(1, 6), rng.choice([0, 0, 1])]
            elif y < 0.55:
                s["sleep"] = rng.choice([2, th[1] * 2 // 3, th[1] // 2, th[1] + 20])
            scripts.append(s)
            for p, T in (("g_", "DINT"), ("w_", "DINT"), ("on_", "BOOL"), ("off_", "BOOL")):
                tags.append([p + n, T, 1, False])
        for k in range(rng.randint(3, 9)):
            y = rng.random()
            n = rng.choice(scripts)["name"]
            if y < 0.3:
                ops.append(["rate", rng.choice(iv)[0]])
            elif y < 0.6:
                ops.append(["g", n, rng.randrange(1000000)])
            else:
                ops.append([rng.choice(["on", "off"]), n, rng.choice(["trigger", "tag"])])
        return dict(cfg=dict(kind="periodic", intervals=iv, scripts=scripts, tags=tags), ops=ops)

    # ---- bursts
    def g_burst(self, rng):
        scripts, tags = [], []
        q = rng.choice([4, 5, 8, 128, 128, 64])
        for k in range(rng.randint(1, 6)):
            n = "s%d" % k
            s = dict(name=n, enable=True, fail=True, auto=False, globals=[["c", "c_" + n, 3]], statics=[], count=True)
            s["trigger"] = dict(tag="t_" + n, count=0, type=EV_WRITE, value=0)
            if rng.random() < 0.6:
                s["sleep"] = rng.choice([1, 2, 5])
            if rng.random() < 0.3:
                s["stop"] = [rng.randint(1, 12), rng.randrange(2)]
            scripts.append(s)
            tags += [["c_" + n, "DINT", 1, False], ["t_" + n, "DINT", 1, False]]
        ops = []
        for k in range(rng.randint(2, 7)):
            m = rng.choice([q, q, q - 1, min(3 * q, 60), rng.randint(1, 30)])
            m = min(m, 60)
            ops.append([[rng.randrange(len(scripts)), rng.randrange(1000)] for _ in range(m)])
        return dict(cfg=dict(kind="burst", threads=rng.choice([1, 1, 2, 4, 8]), queue=q, scripts=scripts, tags=tags), ops=ops)

    def run(self, b, cwd, case):
        import copy
        case = copy.deepcopy(case)
        r = dict(triggered=Triggered, periodic=Periodic, burst=Burst)[case["cfg"]["kind"]](b, cwd, case)
        try:
            return r.go()
        finally:
            r.stop()

    def nontrivial(self, case, st):
        return st.get("runs", 0) >= 5

    def shrinks(self, case, fail):
        cfg, ops = case["cfg"], case["ops"]
        if fail.at is not None and fail.at + 1 < len(ops):
            yield dict(cfg=cfg, ops=ops[:fail.at + 1])
        n = len(ops)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                yield dict(cfg=cfg, ops=ops[:a] + ops[a + size:])
            size //= 2
        if cfg["kind"] == "burst":
            for k, o in enumerate(ops):
                if len(o) > 1:
                    yield dict(cfg=cfg, ops=ops[:k] + [o[:len(o) // 2]] + ops[k + 1:])
            return
        sc = cfg["scripts"]
        size = len(sc) // 2
        while size >= 1:
            for a in range(0, len(sc), size):
                if len(sc) > size:
                    yield dict(cfg=dict(cfg, scripts=sc[:a] + sc[a + size:]), ops=ops)
            size //= 2
        for k, s in enumerate(sc):
            for key in ("body", "globals", "statics"):
                for j in range(len(s.get(key, []))):
                    if cfg["kind"] == "triggered":
                        yield dict(cfg=dict(cfg, scripts=sc[:k] + [dict(s, **{key: s[key][:j] + s[key][j + 1:]})] + sc[k + 1:]), ops=ops)
            for key in ("enable_trigger", "disable_trigger"):
                if s.get(key) and cfg["kind"] == "triggered":
                    yield dict(cfg=dict(cfg, scripts=sc[:k] + [dict(s, **{key: None})] + sc[k + 1:]), ops=ops)


if __name__ == "__main__":
    sys.exit(main(C25()))
