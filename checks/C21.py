"""C21: Lua scripts see the same tag data as other clients."""
import json, math, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from engine import Check, Fail, Outcome, main, settle, list_shrinks
from harness import Server, Driver, Died, tail
from gen import Gen, INTS
from model import Model, BASE, BOOL, REAL, LREAL, CUSTOM, QUEUE, ERR, FMTC, base_size, NAMES

CHAR = 0x23
EVN = {2: "WRITE", 3: "CHANGE", 4: "SET", 5: "RESET", 6: "EQUAL", 7: "GREATER", 8: "LESS", 9: "DEADBAND", 10: "DELETED"}
PRELUDE = r"""
H,E,M,EV={},{},{},{}
function ser(v)
 local t=type(v)
 if t=="nil" then return "n" elseif t=="boolean" then return v and "b1" or "b0"
 elseif t=="number" then if math.type(v)=="integer" then return "i"..v.."." else return "f"..string.pack("<d",v):gsub(".",function(c) return string.format("%02x",c:byte()) end).."." end
 elseif t=="string" then return "s"..v:gsub(".",function(c) return string.format("%02x",c:byte()) end).."."
 elseif t=="table" then local o={"{"} for k,x in pairs(v) do o[#o+1]=ser(k) o[#o+1]=ser(x) end o[#o+1]="}" return table.concat(o)
 else return "u" end
end
function hs(h) return string.format("0 %d %d %d %d %d %x",h.index,h.byte,h.bit,h.count,h.size,h.type) end
return "done"
""".replace("\n", " ")


def parse(s):
    def val(p):
        c = s[p]
        if c == "n" or c == "u":
            return ("nil" if c == "n" else "?",), p + 1
        if c == "b":
            return s[p + 1] == "1", p + 2
        if c in "ifs":
            e = s.index(".", p)
            t = s[p + 1:e]
            if c == "i":
                return ("i", int(t)), e + 1
            if c == "f":
                return ("f", struct.unpack("<d", bytes.fromhex(t))[0]), e + 1
            return ("s", bytes.fromhex(t)), e + 1
        if c == "{":
            p += 1
            d = {}
            while s[p] != "}":
                k, p = val(p)
                v, p = val(p)
                d[k] = v
            return d, p + 1
        raise ValueError(s[p:p + 20])
    v, p = val(0)
    if p != len(s):
        raise ValueError("rest " + s[p:p + 30])
    return v


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "f" == b[0]:
        return struct.pack("<d", a[1]) == struct.pack("<d", b[1]) or a[1] != a[1] and b[1] != b[1]
    return a == b and type(a) == type(b)


def bits(raw, pos, n):
    return (int.from_bytes(raw, "little") >> pos) & ((1 << n) - 1)


def decode(m, typ, count, raw, pos=0):
    """what Lua should see for these bytes"""
    typ &= ~QUEUE
    if typ == BOOL:
        l = [bool(bits(raw, pos + k, 1)) for k in range(count)]
        return l[0] if count == 1 else {("i", k + 1): v for k, v in enumerate(l)}
    n = m.tsize(typ)
    o = pos // 8
    if typ & CUSTOM:
        l = [{("s", mn.encode()): decode(m, mt, mc, raw, pos + k * n * 8 + mp) for mn, mt, mc, mp in m.layout(typ)} for k in range(count)]
        return l[0] if count == 1 else {("i", k + 1): v for k, v in enumerate(l)}
    if typ == CHAR and count > 1:
        return ("s", bytes(raw[o:o + count]).split(b"\0")[0])
    out = []
    for k in range(count):
        v = struct.unpack(FMTC[typ], raw[o + k * n:o + k * n + n])[0]
        if typ in (REAL, LREAL):
            out.append(("f", float(v)))
        else:
            out.append(("i", v - (1 << 64) if v >= 1 << 63 else v))
    return out[0] if count == 1 else {("i", k + 1): v for k, v in enumerate(out)}


def leaves(m, typ, count, pos=0):
    """(bit position, number of bits) of every value"""
    typ &= ~QUEUE
    for k in range(count):
        if typ == BOOL:
            yield pos + k, 1
        elif typ & CUSTOM:
            for mn, mt, mc, mp in m.layout(typ):
                yield from leaves(m, mt, mc, pos + k * m.tsize(typ) * 8 + mp)
        else:
            n = base_size(typ) * 8
            yield pos + k * n, n


def num(typ, raw, style):
    v = struct.unpack(FMTC[typ], raw)[0]
    if typ in (REAL, LREAL):
        if math.isinf(v):
            return "math.huge" if v > 0 else "-math.huge"
        if v == int(v) and abs(v) < 1 << 53 and style & 1 and not (v == 0 and math.copysign(1, v) < 0):
            return str(int(v))
        return v.hex()
    if style & 2 and abs(v) < 1 << 53:
        return "%d.0" % v
    if style & 4:
        return "'%d'" % v if abs(v) < 1 << 62 else "0x%x" % (v & (1 << 64) - 1)
    return "(0x%x)" % (v & (1 << 64) - 1) if abs(v) >= 1 << 63 else str(v)


def literal(m, typ, count, raw, mask, style, pos=0, top=True):
    """Lua source of the value; None when nothing of it is selected by the mask"""
    typ &= ~QUEUE
    n = 1 if typ == BOOL else m.tsize(typ) * 8
    if typ == CHAR and count > 1 and all(bits(mask, pos + 8 * k, 8) == 255 for k in range(count)) and style & 8:
        s = bytes(raw[pos // 8:pos // 8 + count])
        if style & 16:
            s = s.rstrip(b"\0")
        elif style & 32:
            s += b"tail"
        return '"' + "".join("\\x%02x" % c for c in s) + '"'
    out = []
    for k in range(count):
        p = pos + k * n
        if typ == BOOL:
            out.append(("true" if bits(raw, p, 1) else "false") if bits(mask, p, 1) else None)
        elif typ & CUSTOM:
            mem = [(mn, literal(m, mt, mc, raw, mask, style, p + mp, False)) for mn, mt, mc, mp in m.layout(typ)]
            mem = [x for x in mem if x[1] is not None]
            if style & 64:
                mem.reverse()
            out.append("{" + ",".join("['%s']=%s" % x for x in mem) + "}" if mem else None)
        else:
            out.append(num(typ, raw[p // 8:p // 8 + n // 8], style) if bits(mask, p, n) == (1 << n) - 1 else None)
    if count == 1:
        return out[0]
    if all(x is None for x in out):
        return "{}" if top else None
    return "{" + ",".join("[%d]=%s" % (k + 1, x) for k, x in enumerate(out) if x is not None) + "}"


def hasnan(m, typ, count, raw, pos=0):
    typ &= ~QUEUE
    if typ & CUSTOM:
        return any(hasnan(m, mt, mc, raw, pos + k * m.tsize(typ) * 8 + mp) for k in range(count) for mn, mt, mc, mp in m.layout(typ))
    if typ in (REAL, LREAL):
        n = base_size(typ)
        return any(struct.unpack(FMTC[typ], raw[pos // 8 + k * n:pos // 8 + k * n + n])[0] != struct.unpack(FMTC[typ], raw[pos // 8 + k * n:pos // 8 + k * n + n])[0]
                   for k in range(count))
    return False


def fullmask(m, h):
    v = 0
    for p, n in leaves(m, h.type, h.count):
        v |= ((1 << n) - 1) << p
    return v.to_bytes(h.size, "little")


def q(s):
    return '"' + "".join("\\x%02x" % c for c in s.encode("latin1")) + '"'


# wrong uses; %h is a handle expression, %r the text it came from.  (chunk, applies to)
def misuse(m, h, ref, k):
    t = h.type & ~QUEUE
    single, arr, cus = h.count == 1, h.count > 1, bool(t & CUSTOM)
    l = ["dax.tag_read()", "dax.tag_write(%h)", "dax.tag_read(nil)", "dax.tag_read({})", "dax.tag_read('nosuch',1)", "dax.tag_write('nosuch',1)",
         "dax.tag_read(%r..'[99999]',1)", "dax.tag_add()", "dax.tag_add('x')", "dax.tag_add(nil,'INT',1)", "dax.tag_add('okname',nil,1)", "dax.tag_add('okname','NOTYPE',1)",
         "dax.tag_add('bad name','INT',1)", "dax.tag_add('okname','INT',0)", "dax.tag_add('_okname','INT',1)", "dax.tag_add('okname',{},1)", "dax.tag_get()",
         "dax.tag_get('nosuch')", "dax.tag_get(99999)", "dax.tag_get(-1)", "dax.tag_get({})", "dax.tag_del()", "dax.tag_del('nosuch')", "dax.tag_del(99999)", "dax.tag_del('_tagcount')",
         "dax.tag_handle('nosuch',1)", "dax.tag_handle({},1)", "dax.tag_handle(%r,100000)", "dax.atomic_op(%h)", "dax.atomic_op(%h,1)", "dax.atomic_op('nosuch',1,1)", "dax.atomic_op(%h,{},77)",
         "dax.map_add(%h)", "dax.map_add(%h,'nosuch')", "dax.map_add('nosuch',%h)", "dax.map_add()", "dax.map_del({99999,1})", "dax.map_del(5)", "dax.map_get(5)", "dax.map_del({})",
         "dax.override_add(%h)", "dax.override_add('nosuch',1)", "dax.override_set('nosuch')", "dax.override_clr('nosuch')", "dax.override_del('nosuch')", "dax.override_set()",
         "dax.event_add(%r,1,'NOEVENT',0,nil,0)", "dax.event_add('nosuch',1,'WRITE',0,nil,0)", "dax.event_add(%r,1,'WRITE',0,'f',0)", "dax.event_add(%r,1,'WRITE')", "dax.event_add(nil,1,'WRITE',0,nil,0)",
         "dax.event_add(%r,1,nil,0,nil,0)", "dax.event_del({99999,1})", "dax.event_del(5)", "dax.cdt_create()", "dax.cdt_create('Tbad',{{'a','NOTYPE',1}})", "dax.cdt_create('Tbad',{5})", "dax.cdt_create('Tbad',{})",
         "dax.cdt_create('Tbad',{{'a'}})", "dax.cdt_create('Tbad',5)", "dax.cdt_create('bad name',{{'a','INT',1}})", "dax.log(1)", "dax.log('x','y')", "dax.sleep()", "local x=%h; return x[nil]", "dax.event_wait(1,2)"]
    w = []
    if cus:
        w += ["5", "'str'", "true"]
        ms = m.layout(t)
        for mn, mt, mc, mp in ms:
            bad = "5" if mt & CUSTOM or mc > 1 else "{}" if mt != BOOL else None
            if bad:
                v = "{['%s']=%s}" % (mn, bad)
                w.append(v if single else "{%s}" % v)
                if len(ms) > 1:
                    o = [x for x in ms if x[0] != mn][0]
                    v = "{['%s']=%s,['%s']=%s}" % (mn, bad, o[0], "{}" if o[1] & CUSTOM or o[2] > 1 else "1")
                    w.append(v if single else "{%s}" % v)
    elif arr:
        w += ["5", "true"]
        if t != BOOL:
            w += ["{{}}", "{true}", "{1,'abc'}"]
        if t == BOOL or base_size(t) > 1:
            w += ["'str'", "'" + "x" * 300 + "'"]
    elif t != BOOL:
        w += ["{}", "true", "'abc'", "dax", "nil"]
    l += ["dax.tag_write(%%h,%s)" % x for x in w] * 6
    return l[k % len(l)]


class Lua:
    """turns the model's operations for client 0 into Lua and its answers back"""
    def __init__(self, m):
        self.m = m
        self.ref = {}

    def chunk(self, op):
        m = self.m
        k = op[0]
        if k == "connect":
            return "arg={'-S','LOCAL','-U','%s','-Z','%d','-O','20000'} dax.init('%s') return '0'" % (m.sock, op[3], op[2])
        if k == "add":
            _, c, slot, name, T, count, attr = op
            tc = m.tcode(T)
            if tc is None:
                return None
            tn = m.typename(tc[0])
            self.ref[slot] = (name, count)
            t = "'%s'" % (tn.lower() if slot % 2 else tn) if tn and slot % 3 and not tn[0] == "_" and not tc[0] & CUSTOM else str(tc[0])
            a = [q(name), t, str(count), str(attr)]
            if not attr and slot % 2:
                a.pop()
                if count == 1 and slot % 4 == 1:
                    a.pop()
            return "H[%d]=nil local h=dax.tag_add(%s) H[%d]=h return hs(h)" % (slot, ",".join(a), slot)
        if k == "hnd":
            self.ref[op[2]] = (op[3], op[4])
            return "H[%d]=nil local h=dax.tag_handle(%s,%d) H[%d]=h return hs(h)" % (op[2], q(op[3]), op[4], op[2])
        if k == "del":
            r = op[2]
            i = m.h[r[1]].index if r[0] == "h" and r[1] in m.h else r[1] if r[0] == "i" else None
            if i is None:
                return None
            t = m.get(i)
            return "dax.tag_del(%s) return '0'" % (q(t.name) if t is not None and i % 2 else i)
        if k in ("byname", "byidx"):
            x = q(op[2]) if k == "byname" else str(op[2][1])
            return "local a,b,c=dax.tag_get(%s) return a..' '..tostring(b)..' '..c" % x
        if k == "at":
            h = m.h.get(op[2])
            if h is None:
                return None
            if h.type & CUSTOM:
                v = "{}"
            else:
                d = m._fit(op[4], h.size)
                if hasnan(m, h.type, h.count, d):
                    return None
                v = literal(m, h.type, h.count, d, b"\xff" * h.size, 0)
            return "dax.atomic_op(H[%d],%s,%d) return '0'" % (op[2], v, op[3])
        if k in ("oa",):
            h = m.h.get(op[2])
            if h is None or hasnan(m, h.type, h.count, m._fit(op[3], h.size)):
                return None
            # bits between the members cannot be addressed
            fm = int.from_bytes(fullmask(m, h), "little")
            d = (int.from_bytes(m._fit(op[3], h.size), "little") & fm).to_bytes(h.size, "little")
            op[3] = d.hex()
            return "dax.override_add(H[%d],%s) return '0'" % (op[2], literal(m, h.type, h.count, d, b"\xff" * h.size, 0))
        if k in ("od", "os", "oc"):
            return "dax.override_%s(H[%d]) return '0'" % (dict(od="del", os="set", oc="clr")[k], op[2])
        if k == "ma":
            return "local x=dax.map_add(H[%d],H[%d]) M[%d]=x return '0 '..x[1]..' '..x[2]" % (op[3], op[4], op[2])
        if k == "md":
            return "dax.map_del(M[%d]) return '0'" % op[2]
        if k == "mg":
            return "local a,b=dax.map_get(M[%d]) if a==nil then return '-5' end return '0 '..hs(a):sub(3):gsub(' ',',')..' '..hs(b):sub(3):gsub(' ',',')" % op[2]
        if k == "ea":
            _, c, slot, hslot, kind, data = op
            h = m.h.get(hslot)
            if h is None or hslot not in self.ref or kind not in EVN or slot in m.e:
                return None
            if getattr(m.get(h.index), "changes", 2) > 1:
                return None     # the text may mean more elements than it did when the handle was made
            v = "0"
            if kind in (6, 7, 8, 9) and not h.type & CUSTOM and h.type != BOOL:
                d = m._fit(data, base_size(h.type))
                if hasnan(m, h.type, 1, d):
                    return None
                v = num(h.type & ~QUEUE, d, 0)
            return ("local x=dax.event_add(%s,%d,'%s',%s,function(s) EV[#EV+1]=s end,%d) E[%d]=x return '0 '..x[1]..' '..x[2]"
                    % (q(self.ref[hslot][0]), self.ref[hslot][1], EVN[kind] if slot % 2 else EVN[kind].lower(), v, slot, slot))
        if k == "ed":
            return "dax.event_del(E[%d]) return '0 1'" % op[2]
        if k == "ep":
            return ("EV={} local s='0' dax.tag_read('_tagcount') while true do local ok,r=pcall(dax.event_poll) if not ok then s=s..' err' elseif r==0 then break end end "
                    "for i=1,#EV do s=s..' e'..EV[i]..':0:-' end return s")
        if k == "ct":
            ms = []
            for mn, T, cnt in op[4]:
                tc = m.tcode(T)
                if tc is None:
                    return None
                tn = m.typename(tc[0])
                if tn is None:
                    return None
                ms.append("{%s,'%s',%d}" % (q(mn), tn, cnt))
            return "return string.format('0 %%x',dax.cdt_create(%s,{%s}))" % (q(op[3]), ",".join(ms))
        raise KeyError(k)


class LuaModel(Model):
    def op_ea(self, c, slot, hslot, kind, data):
        return Model.op_ea(self, c, slot, hslot, kind, data)


LK = {"connect", "add", "hnd", "del", "byname", "byidx", "at", "oa", "od", "os", "oc", "ma", "md", "mg", "ea", "ed", "ep", "ct"}


class C21(Check):
    prop = "C21"
    technique = "stateful property-based testing of Lua scripts against a reference model and a second client, with shrinking"
    rule = ("random histories shared by a Lua script (libdaxlua in an interpreter, AddressSanitizer) and a client of the C library: the script "
            "creates types and tags of every kind, resolves elements, members and bits, writes whole and partial values (numbers as integers, "
            "floats and digits, tables with holes, strings shorter and longer than the array, nested tables), reads them back by handle and by "
            "text, uses atomic operations, mappings, overrides and events, and makes mistakes; the other client writes raw bytes and reads "
            "everything. Every value either side sees is compared with the reference model; every mistake has to raise an error. "
            "Non-trivial: at least 5 writes and 5 reads by the script.")
    note = ("%d cases quick, %d thorough of 30-90 operations. Values Lua cannot represent (NaN payloads, integers outside the type) are not written; "
            "64 bit values of LWORD and ULINT above 2^63 are expected as the integer with the same bits.") % (2000, 30000)
    quick = 2000
    thorough = 30000

    def gen(self, rng, i, tier):
        g = Gen(rng)
        m = g.m
        g.emit("connect", 0, "lua", rng.choice([1, 2, 8, 64]), "local")
        g.emit("connect", 1, "obs", 8, "local")
        ops = g.ops

        def extra(*op):
            ops.append(list(op))
        for _ in range(rng.choice([0, 1, 2, 3])):
            g.cdt(0 if rng.random() < 0.8 else 1)
        for _ in range(rng.randrange(2, 6)):
            self.newtag(g)
        kinds = dict(handle=6, lw=14, lr=14, raw=8, obs=4, misuse=5, tag=2, cdt=1, get=2, at=3, ov=rng.choice([0, 0, 3]), map=rng.choice([0, 0, 3]),
                     ev=rng.choice([0, 0, 4]), delete=0.7, grow=0.5, queue=0.5)
        for _ in range(rng.randrange(30, 90)):
            k = g.wpick(kinds)
            if m.stat.get("big"):
                break
            if k == "handle":
                ts = g.usertags()
                if ts and rng.random() < 0.9:
                    g.handle(0)
                elif ts:
                    g.nh += 1
                    s, n = g.badref(g.pick(ts))
                    g.emit("hnd", 0, g.nh - 1, s, n)
            elif k in ("lw", "lr"):
                s = g.some_handle(0, f=lambda h, t: h.size <= 1500)
                if s is None or m.h[s].size > 1500 or m.h[s].count > 300:
                    continue
                h = m.h[s]
                if k == "lr":
                    extra("lr", s, rng.random() < 0.3)
                    continue
                d = g.data(h)
                if hasnan(m, h.type, h.count, d):
                    d = bytes(h.size)
                fm = fullmask(m, h)
                if rng.random() < 0.35:
                    v, pm = 0, rng.choice([0.1, 0.5, 0.9])
                    for p, n in leaves(m, h.type, h.count):
                        if rng.random() < pm:
                            v |= ((1 << n) - 1) << p
                    fm = v.to_bytes(h.size, "little")
                    if h.count == 1 and not h.type & CUSTOM and not v:
                        fm = fullmask(m, h)
                extra("lw", s, d.hex(), fm.hex(), rng.randrange(128))
                self.lw(m, ops[-1])
            elif k == "raw":
                if g.usertags():
                    g.rawwrite(1)
            elif k == "obs":
                ts = g.usertags(lambda t: t.queue is None)
                if ts:
                    t = g.pick(ts)
                    g.emit("rr", 1, ["i", t.idx], 0, min(t.size if t.type != BOOL else (t.count + 7) // 8, 4000))
            elif k == "misuse":
                s = g.some_handle(0)
                if s is not None:
                    extra("lx", s, rng.randrange(1 << 16))
            elif k == "tag":
                self.newtag(g)
            elif k == "cdt":
                g.cdt(0, valid=rng.random() < 0.8)
            elif k == "get":
                if rng.random() < 0.5:
                    g.emit("byname", 0, rng.choice([t.name for t in m.tags[11:]] + ["nosuch", "_tagcount"]))
                else:
                    g.emit("byidx", 0, ["i", rng.randrange(len(m.tags) + 1)])
            elif k == "at":
                s = g.some_handle(0)
                if s is not None and m.h[s].size < 1500:
                    self.luaemit(g, lambda: g.atomic(0, s))
            elif k == "ov":
                s = g.some_handle(0)
                if s is not None and m.h[s].size < 500:
                    self.luaemit(g, lambda: g.override(0, s))
            elif k == "map":
                x = g.live_maps()
                if x and rng.random() < 0.4:
                    g.emit(rng.choice(["md", "mg", "mg"]), 0, g.pick(x))
                else:
                    g.map(0)
            elif k == "ev":
                x = g.live_events(0)
                if x and rng.random() < 0.2:
                    g.emit("ed", 0, g.pick(x))
                else:
                    ok = [s for s, h in m.h.items() if m.get(h.index) is not None and any(o[0] in ("hnd", "add") and o[1] == 0 and o[2] == s for o in ops)]
                    if ok:
                        self.luaemit(g, lambda: g.event(0, g.pick(ok)))
            elif k == "delete":
                ts = g.usertags()
                if ts:
                    g.emit("del", rng.choice([0, 0, 1]), ["i", g.pick(ts).idx])
            elif k == "grow":
                g.grow(rng.choice([0, 1]))
            elif k == "queue":
                T = "q" + rng.choice(["INT", "DINT", "LREAL", "BYTE"])
                g.tag(0, T=T, count=rng.choice([1, 1, 3]))
            if len(m.clients[0]["pending"]) >= 4:
                g.emit("ep", 0)
        g.emit("ep", 0)
        for t in g.usertags(lambda t: t.queue is None):
            n = t.size if t.type != BOOL else (t.count + 7) // 8
            if n <= 1500 and t.count <= 300:
                g.emit("rr", 1, ["i", t.idx], 0, n)
                s = g.nh
                g.nh += 1
                if g.emit("hnd", 0, s, t.name, 0) and s in m.h:
                    extra("lr", s, False)
        return ops

    def newtag(self, g):
        n = len(g.m.tags)
        g.tag(0 if g.r.random() < 0.75 else 1, cdt=0.35)
        if g.ops[-1][1] == 1 and len(g.m.tags) > n:
            g.nh += 1
            g.emit("hnd", 0, g.nh - 1, g.m.tags[-1].name, 0)

    def luaemit(self, g, f):
        """generate with a function of Gen, drop what Lua cannot say"""
        n = len(g.ops)
        f()
        # NaN operands and overrides of bits between members are settled when the program runs
        return g.ops[n:]

    def lw(self, m, op):
        """step of a write by the script"""
        _, s, d, mask, style = op
        h = m.h.get(s)
        if h is None:
            return None
        d, mk = m._fit(d, h.size), m._fit(mask, h.size)
        if all(x == 255 for x in mk):
            return m.step(["tw", 0, s, d.hex()])
        return m.step(["tm", 0, s, d.hex(), mk.hex()])

    def peek(self, m, h):
        t = m.get(h.index)
        if t is None:
            return ERR
        if t.queue is not None:
            return t.queue[0] if h.byte == 0 and h.size == t.qsize and t.queue else ERR
        r = m.srv_read(0, h.index, h.byte, h.size)
        return r if r is ERR else h.extract(r)

    def run(self, b, cwd, case):
        srv = Server(b, cwd)
        lua = drv = None
        self.stat = {}
        try:
            lua = Driver(b, cwd, "lua", b.luadrv)
            drv = Driver(b, cwd)
            fail = None
            try:
                fail = self.play(srv, lua, drv, case)
            except Died as e:
                fail = Fail("died", "%s\n%s" % (e.what, e.detail))
            if not settle(srv):
                fail = Fail("crash", "tag server died: " + tail(srv.log))
            return Outcome(fail, self.stat)
        finally:
            for x in (lua, drv):
                if x:
                    x.close()
            srv.stop()

    def play(self, srv, lua, drv, case):
        m = Model(srv.sock, srv.port)
        L = Lua(m)
        st = self.stat = m.stat
        st["lw"] = st["lr"] = st["lx"] = 0
        a = lua.ask([PRELUDE])[0]
        if a != "ok done":
            raise Exception("prelude: " + a)
        for i, op in enumerate(case):
            op = list(op)
            k = op[0]

            def bad(msg, ch):
                return Fail("op:" + k, "operation %d %s: %s\n  Lua: %s" % (i, json.dumps(op)[:300], msg, ch[:600]), i)
            # handles the script does not have
            hs = {"lw": op[1:2], "lr": op[1:2], "lx": op[1:2], "at": op[2:3], "oa": op[2:3], "od": op[2:3], "os": op[2:3], "oc": op[2:3], "ma": op[3:5],
                  "ea": op[3:4]}.get(k, []) if k[0] == "l" or op[1] == 0 else []
            if any(s not in L.ref for s in hs):
                continue
            if k == "lw":
                h = m.h.get(op[1])
                if h is None:
                    continue
                if m.get(h.index) is not None:
                    m._seen(0, m.get(h.index))
                d, mk = m._fit(op[2], h.size), m._fit(op[3], h.size)
                v = literal(m, h.type, h.count, d, mk, op[4])
                if v is None:
                    v = "{}"
                ch = "dax.tag_write(H[%d],%s) return '0'" % (op[1], v)
                r = L.ref.get(op[1])
                h2 = m.resolve(r[0], r[1]) if r[1] == 0 else ERR
                tn = re.split(r"[.\[]", r[0])[0]
                if op[4] % 5 == 0 and h2 is not ERR and h2.tup() == h.tup() and tn not in m.clients[0]["stale"]:
                    ch = "dax.%s(%s,%s) return '0'" % ("write" if op[4] % 2 else "tag_write", q(r[0]), v)
                chk = self.lw(m, op)
                if chk is None:
                    continue
                a = lua.ask([ch])[0]
                st["lw"] += 1
                msg = chk[1]([a[3:] if a.startswith("ok") else "-1"])
                if msg:
                    return bad("%s (%s)" % (msg, a[:300]), ch)
            elif k == "lr":
                h = m.h.get(op[1])
                if h is None:
                    continue
                t = m.get(h.index)
                ch = "return ser(dax.tag_read(H[%d]))" % op[1]
                r = L.ref.get(op[1])
                if op[2] and r:
                    if re.split(r"[.\[]", r[0])[0] in m.clients[0]["stale"]:
                        continue
                    ch = "return ser(dax.%s(%s,%d))" % ("read" if h.size % 2 else "tag_read", q(r[0]), r[1])
                    # the text can mean something else by now
                    h2 = m.resolve(r[0], r[1])
                    if h2 is ERR or h2.tup() != h.tup():
                        continue
                exp = self.peek(m, h)
                if t is not None:
                    m._seen(0, t)
                if m.step(["tr", 0, op[1]]) is None:
                    continue
                a = lua.ask([ch])[0]
                st["lr"] += 1
                if exp is ERR:
                    if not a.startswith("er "):
                        return bad("the read succeeded with %s, should raise an error" % a[:200], ch)
                    continue
                want = decode(m, h.type, h.count, exp)
                if not a.startswith("ok "):
                    return bad("the read failed with %s, should return %s" % (a[:200], str(want)[:300]), ch)
                got = parse(a[3:])
                if not same(got, want):
                    return bad("Lua read %s, should be %s" % (str(got)[:500], str(want)[:500]), ch)
            elif k == "lx":
                h = m.h.get(op[1])
                if h is None:
                    continue
                t = m.get(h.index)
                if t is None:
                    continue
                m._seen(0, t)
                ch = misuse(m, h, t.name, op[2]).replace("%h", "H[%d]" % op[1]).replace("%r", q(t.name))
                a = lua.ask([ch])[0]
                st["lx"] += 1
                if not a.startswith("er "):
                    return bad("accepted (%s), should raise an error" % a[:100], ch)
            elif k in LK and op[1] == 0:
                ch = L.chunk(op)
                if ch is None:
                    continue
                if k == "ea" and op[3] in m.h and m.get(m.h[op[3]].index) is not None:
                    m._seen(0, m.get(m.h[op[3]].index))
                tag = None
                if k in ("byname", "byidx"):
                    name = op[2] if k == "byname" else None
                    vague = name in m.clients[0]["stale"] if name is not None else op[2][1] in m.clients[0]["staleidx"]
                    tag = m.byname.get(name) if k == "byname" else m.get(op[2][1])
                r = m.step(op)
                if r is None:
                    continue
                a = lua.ask([ch])[0]
                if k in ("byname", "byidx"):
                    if vague:
                        continue
                    want = "ok %s %s %d" % (tag.name, m.typename(tag.type & ~QUEUE), tag.count) if tag is not None else "er"
                    if tag is not None and tag.type & QUEUE:
                        want = "ok " + tag.name
                    if not a.startswith(want):
                        return bad("answered '%s', should be '%s'" % (a[:200], want), ch)
                    continue
                ans = a[3:] if a.startswith("ok ") else "-1"
                msg = r[1]([ans])
                if msg:
                    return bad("%s (%s)" % (msg, a[:300]), ch)
            elif op[1] == 0:
                continue               # not available in Lua
            else:
                r = m.step(op)
                if r is None:
                    continue
                # slots of the script mean nothing to the driver
                ls = [" ".join("%s%x" % (x[0] if x[0] == "q" else "", m.t[int(x.lstrip("qt"))]) if re.match(r"q?t\d+$", x)
                               else str(m.h[int(x[1:])].index) if re.match(r"h\d+$", x) else x for x in l.split(" ")) for l in r[0]]
                try:
                    msg = r[1](drv.ask(ls))
                except (ValueError, IndexError) as e:
                    msg = "unintelligible answer"
                if msg:
                    return bad(msg, "")
        return None

    def shrinks(self, case, fail):
        if fail.at is not None and fail.at + 1 < len(case):
            yield case[:fail.at + 1]
        yield from list_shrinks(case)

    def nontrivial(self, case, stat):
        return stat.get("lw", 0) >= 5 and stat.get("lr", 0) >= 5


if __name__ == "__main__":
    sys.exit(main(C21()))
