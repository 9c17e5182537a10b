"""Resource types: the type class, the storage and the image index that the interpreter
derives from a resource type name, by constant propagation over every valid name; and the
split of abstract states by type class that those facts justify."""
import ir, absint
from common import Broken
from dom import *
from absint import Region, State
from driver import Budget

CLASSES = ("PRG", "CHR", "SCR", "GRP", "MEM", "COL")

def find(M, name):
    return [f for n, f in M.m.funcs.items() if ir.base(n) == name and not f.decl]

def names(M):
    """every resource type name the table of valid types admits"""
    try: tab = [t for t in M.strtab("valid_resource_types") if t]
    except Exception: raise Broken("table valid_resource_types not found")
    out = []
    for t in tab:
        out.append(t[:3])
        if len(t) > 3:
            for i in range(ord('0'), ord(t[3]) + 1):
                b = t[:3] + chr(i)
                out.append(b)
                pg = "LU" if len(t) < 5 or t[4] == 'P' else t[4]
                out += [b + p for p in pg]
    return out

class G0:
    pass

def const_region(M, data, name):
    g = ir.Global(); g.name = name; g.ty = ('arr', len(data), ('i', 8)); g.init = ('bytes', list(data)); g.const = True; g.ext = False
    r = Region(name, len(data), g.ty, "global", M.m, False, None, g)
    return r

def quiet(M, f, args, st):
    it = M.it
    rec, it.rec = it.rec, 0
    hooks = (it.on_write, it.on_load); it.on_write = it.on_load = None
    it.steps = 0; it.entry = ("resource types", "")
    it.exact = absint.EXACT = True
    try: return it.call_fn(f, args, st)
    finally: it.exact = absint.EXACT = False; it.rec = rec; it.on_write, it.on_load = hooks

def storage(M):
    """distinct storage objects: [(region, class, index)] and a state whose tables point to them"""
    st = State(); d = M.it.wr(st, M.ptc); objs = {}
    for n in ("chr", "scr", "grp", "col"):
        o, z = M.member("ptc", "res." + n)
        for i in range(z // 8):
            r = Region("%s bank %d" % (n, i), None, None, "data", M.m)
            d[o + 8 * i] = (8, PT((Loc(r, 0),))); objs[r] = (n.upper(), i)
    r = Region("program text", None, None, "data", M.m)
    d[M.member("ptc", "exec.prg.data")[0]] = (8, PT((Loc(r, 0),))); objs[r] = ("PRG", 0)
    return st, objs

def table(M):
    """[(name, page, class or None, (storage class, index) or None, image index or None, where)]"""
    fp = find(M, "get_resource_ptr"); ft = find(M, "get_resource_type"); fi = find(M, "get_chr_index")
    if not (fp and ft): raise Broken("get_resource_ptr or get_resource_type not found")
    kinds = {}
    for c in CLASSES:
        v = M.m.enum("TYPE_" + c)
        if v is not None: kinds[v] = c
    mo, mz = M.member("ptc", "res.mem")
    out = []
    sel = [M.member("ptc", n) for n in ("background.page", "sprites.page", "graphics.screen")]
    for nm in names(M):
        cs = PT((Loc(const_region(M, nm.encode() + b"\0", "resource type name"), 0),))
        ss = PT((Loc(const_region(M, b"S" + bytes([len(nm)]) + nm.encode(), "resource type string"), 0),))
        for page in (0, 1):
            st, objs = storage(M)
            d = M.it.wr(st, M.ptc)
            for o, z in sel: d[o] = (z, C(page, 8 * z))
            p = PT((Loc(M.ptc, 0),))
            cls = set(); obj = set(); idx = set()
            for f in ft:
                for v, o in quiet(M, f, [ss], st.copy()): cls.add(kinds.get(v.lo, "none") if v.__class__ is I and v.const else "?")
            for f in fp:
                for v, o in quiet(M, f, [p, cs], st.copy()):
                    if v.__class__ is PT and len(v.t) == 1 and not v.t[0].ds and not v.null and not v.unk:
                        l = v.t[0]
                        if l.r is M.ptc and mo <= l.off < mo + mz: obj.add(("MEM", l.off - mo))
                        elif l.r in objs and l.off == 0: obj.add(objs[l.r])
                        else: obj.add(("?", 0))
                    else: obj.add(("?", 0))
            for f in fi:
                if cls == {"CHR"}:
                    for v, o in quiet(M, f, [p, cs], st.copy()): idx.add(v.lo if v.__class__ is I and v.const else "?")
            out.append((nm, page, cls, obj, idx))
    return out

def agree(rep, M):
    """class, storage and image index agree for every valid name"""
    t = table(M); n = 0
    for nm, page, cls, obj, idx in t:
        n += 1
        c = next(iter(cls)) if len(cls) == 1 else None
        o = next(iter(obj)) if len(obj) == 1 else None
        where = "resource type %s with screen %d selected" % (nm, page)
        if c in (None, "?", "none"):
            rep.violation("type|%s" % nm, "get_resource_type: %s has type class %s" % (where, ", ".join(map(str, sorted(cls)))))
        elif o is None or o[0] == "?":
            rep.violation("storage|%s" % nm, "get_resource_ptr: %s does not designate one resource (%s)" % (where, ", ".join(map(str, sorted(obj)))))
        elif o[0] != c:
            rep.violation("class|%s" % nm, "get_resource_ptr: %s is of type %s but designates %s storage" % (where, c, o[0]))
        elif c == "CHR" and idx and idx != {o[1]}:
            rep.violation("index|%s" % nm, "get_chr_index: %s is stored in character bank %d but bank %s is marked for redrawing" % (where, o[1], ", ".join(map(str, sorted(idx, key=str)))))
    rep.cov["resource type names x selected screen"] = n
    rep.need("resource type names x selected screen", n, 40)
    return t

class Split:
    """partition states by the type class of the resource in use: get_resource_type decides
    the class, and the get_resource_ptr call of the same function then yields storage of
    that class (justified by agree())"""
    def __init__(s, M, only=None):
        s.M = M; s.only = only
        it = M.it
        ft = find(M, "get_resource_type"); fp = find(M, "get_resource_ptr")
        s.kinds = {M.m.enum("TYPE_" + c): c for c in CLASSES if M.m.enum("TYPE_" + c) is not None}
        s.reg = {}
        for n, z in (("chr", None), ("scr", None), ("grp", None), ("col", None)):
            o, zz = M.member("ptc", "res." + n); rs = []
            for (pid, off), (y, v) in it.inv.items():
                if pid == M.ptc.pid and o <= off < o + zz and v.__class__ is PT: rs += [l.r for l in v.t if l.r not in rs and l.r is not M.ptc]
            s.reg[n.upper()] = rs
        o, z = M.member("ptc", "exec.prg.data")
        v = it.inv.get((M.ptc.pid, o))
        s.reg["PRG"] = [l.r for l in v[1].t] if v and v[1].__class__ is PT else []
        s.mem = M.member("ptc", "res.mem")[0]; s.reg["MEM"] = [M.ptc]
        s.on = bool(ft and fp and len(s.kinds) == len(CLASSES) and all(s.reg.values()))
        if not s.on: return
        for f in ft: it.models[f.name] = s.typ
        for f in fp: it.models[f.name] = s.ptr
    def typ(s, it, ins, args, st):
        f = s.M.m.funcs[ins.x[1]]
        if it.initphase or s.only is not None and (not it.entry or it.entry[0].split()[-1] not in s.only): return None
        out = []
        for v, o in it.call_fn(f, args, st):
            if v.__class__ is I and v.const: o.setg("rt", (s.kinds.get(v.lo),))
            else: o.setg("rt", None)
            if it.errkey(o) == 'N': o.setg("rt", None)
            if v.__class__ is I and v.const and v.lo not in s.kinds: continue    # agree(): no valid name is of no class
            out.append((v, o))
        return out
    def ptr(s, it, ins, args, st):
        import libmodel
        f = s.M.m.funcs[ins.x[1]]
        if it.initphase or s.only is not None and (not it.entry or it.entry[0].split()[-1] not in s.only): return None
        k = st.ghost("rt")
        outs = it.call_fn(f, args, st)
        if not k or k[0] not in s.reg or libmodel.known_bytes(it, st, args[1], 3)[0]: return outs
        res = None
        for v, o in outs:
            if res is None: res = o
            else: res = it.jstate(res, o, set())
        if res is None: return outs
        t = []
        for r in s.reg[k[0]]:
            w = {"CHR": 8192, "COL": 512}.get(k[0])
            if k[0] in ("CHR", "COL") and r.size and r.size > w: t.append(Loc(r, 0, (D(w, 0, r.size // w - 1, r.size // w, True, True),)))
            elif k[0] == "MEM": t.append(Loc(r, s.mem))
            else: t.append(Loc(r, 0))
        return [(PT(tuple(t), 0, True), res)]
