"""File operations: streams opened and closed, success reported, names checked, and the
layout that saving and loading agree on."""
import ir, cfg, common, groups, restype, libmodel
from common import Broken
from groups import ir_base
from dom import *
from absint import State, Region
from ghost import Base, report, run, ASSUME2, locs

OPEN = ("fopen", "opendir", "fdopen", "freopen", "tmpfile", "popen")
USE = {"fread": 3, "fwrite": 3, "fseek": 0, "ftell": 0, "ferror": 0, "feof": 0, "rewind": 0, "readdir": 0, "fgets": 2, "getc": 0,
       "fgetc": 0, "fputs": 1, "fputc": 1, "putc": 1, "fprintf": 0, "fscanf": 0, "__isoc99_fscanf": 0, "fflush": 0, "ungetc": 1, "clearerr": 0}

class Files(Base):
    """ghost 'open': streams that are open; 'bad': an operation on a file failed; 'touched':
    a file was named; 'set': RESULT was stored; 'moved': a complete transfer took place;
    'match': a mark read from a file was accepted"""
    result = True
    def setup(s, M):
        s.ids = {}
        it = M.it
        for n in OPEN: s.wrap(n, s.open)
        for n in USE: s.wrap(n, s.use)
        for n in ("fclose", "closedir", "pclose"): s.wrap(n, s.close)
        for n in ("strncmp", "memcmp", "strcmp"): s.wrap(n, s.compare)
        s.ores, s.zres = M.member("ptc", "res.result")
        old = it.icmp
        def icmp(pred, a, b):
            for x, y, sw in ((a, b, False), (b, a, True)):
                if x.__class__ is not I or y.__class__ is not I: continue
                for t in x.org:
                    if t[0] == "xfer" and t[3] and y.org == t[3]:
                        p = pred if pred in ("eq", "ne") else pred[1:]
                        if t[1] == "full": return 1 if p in ("eq", "le", "ge") else 0
                        if p == "eq": return 0
                        if p == "ne": return 1
                        return 1 if (p[0] == 'l') != sw else 0
            return old(pred, a, b)
        it.icmp = icmp
    def stream(s, p):
        """-> (ids of the streams p may be, may be null)"""
        if p.__class__ is I: return [], True
        return [s.ids.get(l.r) for l in locs(p)], bool(p.__class__ is PT and p.null)
    def open(s, it, ins, args, st, outs):
        if outs is None: return
        out = []
        name = ir_base(ins.x[1])
        st.setg("touched", 1)
        for v, o in outs:
            o.setg("touched", 1)
            if v.__class__ is PT and v.null == 2:
                if name == "fopen": o.setg("bad", "open")
            elif v.__class__ is PT and len(v.t) == 1:
                i = s.ids.setdefault(v.t[0].r, len(s.ids))
                h = o.ghost("open", ())
                s.ob("stream", "viol" if i in h else "ok", "opens a file that is still open from the previous round", ins)
                m = libmodel.cstring(it, args[1], "") if name == "fopen" else ""
                o.setg("open", tuple(sorted(set(h) | {i})))
                if "w" in m or "a" in m or "+" in m: o.setg("writing", tuple(sorted(set(o.ghost("writing", ())) | {i})))
            out.append((v, o))
        return out
    def check(s, st, ins, p, name):
        ids, null = s.stream(p)
        h = st.ghost("open", ())
        if null: s.ob("stream", "viol", "%s is used on a file that could not be opened" % name, ins)
        for i in ids:
            if i is None: continue
            s.ob("stream", "ok" if i in h else "viol", "%s is used on a file that is not open" % name, ins)
        return [i for i in ids if i is not None]
    def use(s, it, ins, args, st, outs):
        name = ir_base(ins.x[1]); k = USE[name]
        if outs is None:
            if k < len(args): s.check(st, ins, args[k], name)
            s.before = None
            if name == "fread": s.before = s.lastbyte(it, st, args)
            return
        if name in ("fread", "fwrite"): return s.transfer(it, ins, name, args, outs)
        out = []
        for v, o in outs:
            err = o.ghost("err")
            if name == "ferror":
                if err == "w": v = I(1, 255, 32, False, False)
                elif err is None or err == "ok": v = C(0, 32)
                out.append((v, o))
                continue
            if name == "fseek":
                q = o.copy(); q.setg("bad", "seek")
                out += [(C(0, 32), o), (C(-1, 32), q)]
                continue
            out.append((v, o))
        return out
    def lastbyte(s, it, st, args):
        """a short read leaves the last byte of its destination unchanged"""
        a, b = as_int(args[1], 64), as_int(args[2], 64); p = args[0]
        if not (a.const and b.const) or not 0 < a.lo * b.lo <= 64 or p.__class__ is not PT or len(p.t) != 1 or p.t[0].ds or p.null or p.unk: return
        l = p.t[0]
        if l.r.kind != "alloca" or not l.r.size or l.off + a.lo * b.lo > l.r.size: return
        loc = Loc(l.r, l.off + a.lo * b.lo - 1, ())
        return loc, it.load_loc(st, loc, 1, ('i', 8))
    def transfer(s, it, ins, name, args, outs):
        out = []
        for v, o in outs:
            c = as_int(args[2], 64); w = 64
            org = c.org if c.org and not c.const else E
            if c.uview()[1] == 0: out.append((v, o)); continue
            q = o.copy()
            full = C(c.lo, 64) if c.const else I(c.lo, c.hi, 64, c.ql, c.qh, c.org | {("xfer", "full", ins.sn, org)} if org else c.org, c.s)
            o.setg("err", "ok"); o.setg("moved", 1)
            if s.result and name == "fread": o.setg("how", None)
            out.append((full, o))
            hi = c.uview()[1]
            if hi >= 1:
                short = I(0, hi - 1, 64, True, c.qh, org | {("xfer", "short", ins.sn, org)} if org else E)
                if hi == 1: short = C(0, 64)
                if s.before is not None: it.store_loc(q, s.before[0], 1, s.before[1], False)
                q.setg("err", "w" if name == "fwrite" else "r")
                if c.const or org: q.setg("bad", "short")
                out.append((short, q))
        return out
    def close(s, it, ins, args, st, outs):
        name = ir_base(ins.x[1])
        if outs is None:
            ids, null = s.stream(args[0])
            h = st.ghost("open", ())
            if null: s.ob("stream", "viol", "%s is used on a file that could not be opened" % name, ins)
            for i in ids:
                if i is None: continue
                s.ob("stream", "ok" if i in h else "viol", "%s is used on a file that is not open (closed twice)" % name, ins)
            s.pend = set(ids)
            return
        out = []
        for v, o in outs:
            h = tuple(x for x in o.ghost("open", ()) if x not in s.pend)
            wr = o.ghost("writing", ())
            o.setg("open", h or None); o.setg("err", None)
            if s.pend & set(wr):
                o.setg("writing", tuple(x for x in wr if x not in s.pend) or None)
                q = o.copy(); q.setg("bad", "close")
                out += [(C(0, 32), o), (C(-1, 32), q)]
            else: out.append((v, o))
        return out
    def compare(s, it, ins, args, st, outs):
        if outs is None: return
        if not any(libmodel.cstring(it, a, None) is not None or (a.__class__ is PT and any(l.r.kind == "global" for l in a.t)) for a in args[:2]): return outs
        if not st.ghost("open") and not st.ghost("moved"): return outs
        for v, o in outs:
            if v.__class__ is I and v.const and v.lo == 0: o.setg("match", 1)
        return outs
    def on_write(s, it, st, l, size, v):
        if l.r is s.M.ptc and size <= 8 and l.off <= s.ores < l.off + size: st.setg("set", 1)
    def on_exit(s, it, e, desc, v, st):
        h = st.ghost("open", ())
        it.ob("stream", s.last(e), "viol" if h else "ok", "returns with a file still open")
        if not st.ghost("touched"): return
        it.extra["touched"] = (s.last(e), (), "")
        if e.name not in RESULT: return
        it.ob("result", s.last(e), "ok" if st.ghost("set") else "viol", "returns without having set RESULT")
        r = it.load_loc(st, Loc(s.M.ptc, s.ores, ()), s.zres, ('i', 8 * s.zres))
        zero = r.__class__ is I and r.const and r.lo == 0
        non = r.__class__ is I and not has(r, 0)
        b = st.ghost("bad")
        if b and not zero: it.ob("result", s.last(e), "viol", "can report success although %s failed" % WHAT[b])
        elif not b and not zero:
            it.extra["success"] = (s.last(e), (), "")
            it.ob("result", s.last(e), "ok" if st.ghost("moved") else "viol", "can report success although nothing was transferred")
            if e.name != "SAVE": it.ob("result", s.last(e), "ok" if st.ghost("match") else "viol", "can report success although no type mark of the file was accepted")
        else: it.ob("result", s.last(e), "ok")

RESULT = ("LOAD", "SAVE", "EXEC", "APPEND")
WHAT = {"open": "opening the file", "short": "a read or write", "seek": "positioning in the file", "close": "writing out the file"}

def filefns(M):
    m = M.m
    cg = cfg.callgraph(m)
    prims = (set(OPEN) | set(USE) | {"fclose", "closedir"}) & set(m.funcs)
    return cg, cfg.reaching(m, prims, cg), {f.name for f in cfg.funcs(m) if any(i.op == "call" and i.x[0] == 'g' and ir_base(i.x[1]) in OPEN for b in f.blocks for i in b.ins)}

# one text variant of any length stands for all others where the name is only copied
def variants(e, desc):
    return not (e.name in ("LOAD", "EXEC") and desc != "S/sNone")

def r01(rep):
    h = Files(rep); h.on_entry = lambda it, e, desc, args, st: variants(e, desc)
    M, g = run(rep, h, None, [], 4, maxrounds=1, only=lambda e: e.name in touching(h.M))
    report(rep, M, g, ("stream",))
    rep.cov["statements that open files"] = sorted(i for i, x in g.extra.items() if "touched" in x)
    rep.need("statements that open files", len(rep.cov["statements that open files"]), 5)
    cg, reach, opens = filefns(M)
    rest = sorted(opens - g.fns)
    for n in rest: lone(rep, h, M, n, reach)
    rep.cov["functions that open files"] = sorted(ir_base(x) for x in opens)
    rep.need("functions that open files", len(opens), 2)
    rep.assume += ASSUME2

def touching(M):
    import entries
    if not hasattr(M, "_touch"):
        cg, reach, opens = filefns(M)
        # the dispatcher runs every statement: entries that run programs are not file operations
        disp = {f.name for f in cfg.funcs(M.m) if any(i.op == "call" and i.x[0] == 'r' for b in f.blocks for i in b.ins)}
        cg2 = {k: v for k, v in cg.items() if k not in disp}
        reach = cfg.reaching(M.m, opens, cg2)
        M._touch = {e.name for e in entries.enumerate_entries(M) if M.fn(e.fn).name in reach}
    return M._touch

def lone(rep, h, M, name, reach):
    """a function outside the statements (loading configuration, benchmark, tools): its own
    calls are analysed with everything that does not concern files left open"""
    it = M.it; m = M.m; f = m.funcs[name]
    saved = dict(it.models)
    for g in m.funcs.values():
        if g.decl or g.name == name: continue
        b = ir_base(g.name)
        it.models[b] = lambda it, ins, args, st, g=g: [(it.unknown(g.ret) if g.ret[0] != 'v' else None, st)]
    it.obs = {}; it.rec = 1; it.steps = 0; it.budget = []; it.extra = {}; it.entry = (ir_base(name), "any"); it.reads = set(); it.tainted = []; it.cmpth = {}; it.fnset = set()
    for k in ("exit",): it.models[k] = lambda it, ins, args, st: []
    try:
        outs = it.call_fn(f, [it.unknown(t) for t in f.argtys] if hasattr(f, "argtys") else [UNKP] * len(f.args), State())
    finally: it.models = saved
    n = 0
    for v, o in outs:
        hd = o.ghost("open", ())
        if hd: rep.violation("%s|stream|open at return" % ir_base(name), "%s: returns with a file still open" % ir_base(name))
    for (k, ins), ob in it.obs.items():
        if k != "stream": continue
        n += 1
        if ob.st == 2: rep.violation("%s|stream|%s" % (ir_base(name), common.numless(ob.msg)), "%s: %s (%s)" % (M.m.where(ins), ob.msg, ir_base(name)))
    rep.cov["obligations in %s" % ir_base(name)] = n
    if not n: raise Broken("no file operation analysed in %s" % name)

def r03(rep):
    h = Files(rep); h.on_entry = lambda it, e, desc, args, st: variants(e, desc)
    M, g = run(rep, h, list(RESULT), [], len(RESULT), maxrounds=1, pre=lambda M: restype.Split(M, ("APPEND",)))
    report(rep, M, g, ("result",))
    ok = sorted(i.split()[-1] for i, x in g.extra.items() if "success" in x)
    rep.cov["statements with an analysed way to success"] = ok
    rep.need("statements with an analysed way to success", len(ok), 4)
    rep.assume += ASSUME2

# ---------------------------------------------------------------- R04 layouts
class Layout(Files):
    """every way through a file operation as a sequence of transfers at known positions"""
    def setup(s, M):
        Files.setup(s, M); s.result = False
    def open(s, it, ins, args, st, outs):
        r = Files.open(s, it, ins, args, st, outs)
        if outs is not None:
            for v, o in r: o.setg("pos", 0); o.setg("tr", None)
        return r
    def where(s, it, p):
        c = libmodel.cstring(it, p, None)
        if c is not None: return ("text", c)
        if p.__class__ is PT and len(p.t) == 1 and not p.unk: return ("at" if not p.t[0].ds else "in", p.t[0].r.name, p.t[0].off)
        return ("?",)
    def add(s, st, e):
        tr = st.ghost("tr", ())
        if tr and tr[-1][0] == "r" and (tr[-1][2] is None or tr[-1][2] > 64): return    # what follows the data (packages)
        st.setg("tr", tr + (e,))
    def transfer(s, it, ins, name, args, outs):
        outs = Files.transfer(s, it, ins, name, args, outs)
        for v, o in outs:
            if o.ghost("bad"): continue
            a, b = as_int(args[1], 64), as_int(args[2], 64)
            n = a.lo * b.lo if a.const and b.const else None
            by = ()
            p = args[0]
            if name == "fwrite" and n is not None and n <= 64 and p.__class__ is PT and len(p.t) == 1 and not p.t[0].ds and p.t[0].r.kind == "alloca":
                l = p.t[0]
                x = [it.load_loc(o, Loc(l.r, l.off + i, ()), 1, ('i', 8)) for i in range(n)]
                by = tuple(y.lo & 255 if y.__class__ is I and y.const else None for y in x)
            pos = o.ghost("pos")
            org = tuple(sorted((t[1], t[2]) for t in b.org if t[0] == "io")) if n is None else ()
            s.add(o, ("w" if name == "fwrite" else "r", pos, n, s.where(it, p), by, org))
            o.setg("pos", pos + n if n is not None and pos is not None else None)
        return outs
    def use(s, it, ins, args, st, outs):
        name = ir_base(ins.x[1])
        r = Files.use(s, it, ins, args, st, outs)
        if outs is not None and name in ("fseek", "rewind"):
            for v, o in r:
                p = o.ghost("pos")
                if name == "rewind": o.setg("pos", 0); continue
                a, w = as_int(args[1], 64), as_int(args[2], 32)
                o.setg("pos", a.lo if a.const and w.const and w.lo == 0 else p + a.lo if a.const and w.const and w.lo == 1 and p is not None else None)
        return r
    def compare(s, it, ins, args, st, outs):
        r = Files.compare(s, it, ins, args, st, outs)
        for v, o in r or ():
            if v.__class__ is I and v.const and v.lo == 0 and len(args) > 2:
                n = as_int(args[2], 64); w = [s.where(it, a) for a in args[:2]]
                t = [x[1] for x in w if x[0] == "text"]; f = [x for x in w if x[0] == "at"]
                if len(t) == 1 and len(f) == 1 and n.const: s.add(o, ("m", f[0], t[0][:n.lo], n.lo))
        return r
    def on_exit(s, it, e, desc, v, st): s.finals.append((e.name, it.errkey(st), it.load_loc(st, Loc(s.M.ptc, s.ores, ()), s.zres, ('i', 8 * s.zres)), st.ghost("tr") or (), st.ghost("bad")))

def filepos(tr, k, reg, off):
    """file position of the byte at reg+off as of event k"""
    for e in reversed(tr[:k]):
        if e[0] == "r" and e[3][0] == "at" and e[3][1] == reg and e[2] is not None and e[3][2] <= off < e[3][2] + e[2] and e[1] is not None: return e[1] + off - e[3][2]

def summary(tr):
    """(matches [(position, text)], payload (position, bytes, place), position of the length field)"""
    ms = []; pay = None; lenpos = None
    for k, e in enumerate(tr):
        if e[0] == "m": ms.append((filepos(tr, k, e[1][1], e[1][2]), e[2]))
        elif e[0] == "r":
            big = e[2] is None or e[2] > 64
            if pay is None and big:
                pay = (e[1], e[2], e[3])
                ps = {filepos(tr, k, r, o) for r, o in e[5]}
                lenpos = next(iter(ps)) if len(ps) == 1 else None
    return ms, pay, lenpos

def r04(rep):
    import driver, entries
    h = Layout(rep); h.finals = []
    M = common.machine(); it = M.it; m = M.m
    t = restype.agree(rep, M)
    size = {c: set() for c in restype.CLASSES}
    h.attach(M)
    g = driver.Group(M, [], [], 1); g.prepare()
    def call(fn, args, st=None):
        it.entry = (fn, ""); it.steps = 0; it.obs = {}; it.rec = 1; it.reads = set(); it.budget = []; it.tainted = []; it.cmpth = {}; it.extra = {}; it.fnset = set()
        fs = restype.find(M, fn)
        if not fs: return None
        out = {}
        for v, o in it.call_fn(fs[0], args, st or State()):
            if o.ghost("bad"): continue
            ok = not (v.__class__ is I and v.const and v.lo == 0)
            out.setdefault((ok, o.ghost("tr") or ()), v)
        return [k[1] for k in out if k[0]]
    text = lambda x: PT((Loc(restype.const_region(M, x.encode() + b"\0", "text " + x), 0),))
    dst = Region("destination", None, None, "data", m)
    prg = M.member("ptc", "exec.prg")[0]
    kind = {c: m.enum("TYPE_" + c) for c in restype.CLASSES}
    n = 0
    saved = {}
    for c in restype.CLASSES:
        if kind[c] is None: raise Broken("no type number for %s" % c)
        if c == "PRG":
            st = State(); M.it.wr(st, M.ptc)[M.member("ptc", "exec.prg.size")[0]] = (4, C(0x010203, 32))
            tr = call("check_save_res", [PT((Loc(M.ptc, prg),)), text("programs/"), text("NAME"), C(kind[c], 32)], st)
        else: tr = call("check_save_res", [PT((Loc(dst, 0),)), text("programs/"), text("NAME"), C(kind[c], 32)])
        if tr is None: raise Broken("check_save_res not found")
        if not tr: rep.violation("save|%s" % c, "check_save_res: saving a resource of type %s never succeeds" % c); continue
        for x in tr:
            n += 1
            by = {}; pay = None; bad = None
            for e in x:
                if e[0] != "w": continue
                if e[1] is None: bad = "writes at an unknown position"; continue
                if e[3][0] == "text" and e[2] is not None:
                    for i, ch in enumerate((e[3][1] + "\0" * 64)[:e[2]]): by[e[1] + i] = ord(ch)
                elif e[4]:
                    for i, b in enumerate(e[4]): by[e[1] + i] = b
                elif pay is None: pay = (e[1], e[2], e[3])
                else: bad = "writes the data twice"
            if pay is None: bad = bad or "writes no data"
            elif c != "PRG" and pay[2] != ("at", "destination", 0): bad = bad or "does not write the resource from its start"
            if bad: rep.violation("save|%s|%s" % (c, bad), "check_save_res: saving a resource of type %s %s" % (c, bad)); continue
            saved.setdefault(c, []).append((by, pay))
            if c != "PRG" and pay[1] is not None: size[c].add(pay[1])
    # the bytes of a saved resource are all of that resource
    want = {}
    for nm, page, cls, obj, idx in t:
        for k, o in obj: want.setdefault(k, set()).add(o)
    for c, n_, msz in (("CHR", "res.chr", None), ("SCR", "res.scr", None), ("GRP", "res.grp", None), ("COL", "res.col", None)):
        o, z = M.member("ptc", n_)
        regs = {l.r for (pid, off), (y, v) in it.inv.items() if pid == M.ptc.pid and o <= off < o + z and v.__class__ is PT for l in v.t}
        tot = sum(r.size or 0 for r in regs)
        if not regs or not all(r.size for r in regs): raise Broken("storage of type %s not found" % c)
        per = tot // (z // 8)
        # banks carved out of one allocation, or one allocation per page
        full = {per} | {r.size for r in regs if r.size < 65536}
        if len(want.get(c, ())) and size[c] and not size[c] <= full:
            rep.violation("size|%s" % c, "check_save_res: a resource of type %s has %s bytes but %s are saved" % (c, sorted(full), sorted(size[c])))
    o, z = M.member("ptc", "res.mem")
    if size["MEM"] and size["MEM"] != {z}: rep.violation("size|MEM", "check_save_res: MEM has %d bytes but %s are saved" % (z, sorted(size["MEM"])))
    marks = {}
    def fits(by, ms):
        return all(p is not None and all(by.get(p + i) == ord(ch) for i, ch in enumerate(x)) for p, x in ms)
    formats = {}
    for c in restype.CLASSES:
        for by, pay in saved.get(c, ()):
            # type test
            ok = call("verify_file_type", [text("programs/NAME.PTC"), C(kind[c], 32)])
            if ok is None: raise Broken("verify_file_type not found")
            sums = [summary(x) for x in ok]
            acc = [s_ for s_ in sums if fits(by, s_[0])]
            n += len(sums)
            if not acc: rep.violation("verify|%s" % c, "verify_file_type: a saved resource of type %s is not recognised as such" % c)
            for s_ in sums:
                mk = [(p, x) for p, x in s_[0] if p is not None and len(x) >= 12]
                if not mk: rep.violation("mark|%s" % c, "verify_file_type: a file is accepted as type %s without its type mark having been compared" % c)
                for p, x in mk:
                    if not any(all(b2.get(i) == ord(ch) for i, ch in enumerate(x)) for b2, p2 in saved[c]):
                        rep.violation("mark|%s|text" % c, "verify_file_type: files of type %s are recognised by %r, which saving does not write" % (c, x))
                    first = next((y for q, y in s_[0] if q == 0 and len(y) == 4), None)
                    if first: formats.setdefault(first, {}).setdefault("mark", set()).add(p)
                    marks.setdefault(x, set()).add(c)
            # another type's saved file is not accepted
            for c2 in restype.CLASSES:
                if c2 == c: continue
                for by2, p2 in saved.get(c2, ()):
                    if any(fits(by2, s_[0]) for s_ in sums): rep.violation("verify|%s|%s" % (c, c2), "verify_file_type: a saved resource of type %s is accepted as type %s" % (c2, c))
            # loading
            if c == "PRG":
                ld = call("check_load_res", [PT((Loc(M.ptc, 0),)), text("programs/"), text("NAME"), C(kind[c], 32)])
            else: ld = call("check_load_res", [PT((Loc(dst, 0),)), text("programs/"), text("NAME"), C(kind[c], 32)])
            if ld is None: raise Broken("check_load_res not found")
            ls = [summary(x) for x in ld]; n += len(ls)
            acc = [s_ for s_ in ls if fits(by, [q for q in s_[0] if q[0] == 0])]
            if not acc: rep.violation("load|%s" % c, "check_load_res: a saved resource of type %s cannot be loaded" % c)
            for ms, pl, lp in ls:
                first = next((y for q, y in ms if q == 0 and len(y) == 4), None)
                if first and pl: formats.setdefault(first, {}).setdefault("data " + c, set()).add((pl[0], lp))
            for ms, pl, lp in acc:
                if pl is None: rep.violation("load|%s|none" % c, "check_load_res: loading type %s reads no data" % c); continue
                if pl[0] != pay[0]: rep.violation("offset|%s" % c, "check_load_res: data of type %s is saved at offset %s but loaded from offset %s" % (c, pay[0], pl[0]))
                if c != "PRG":
                    if pl[1] != pay[1]: rep.violation("length|%s" % c, "check_load_res: %s bytes of type %s are saved but %s are loaded" % (pay[1], c, pl[1]))
                    if pl[2] != ("at", "destination", 0): rep.violation("place|%s" % c, "check_load_res: data of type %s is not loaded to the start of the resource" % c)
                else:
                    if lp is None: rep.violation("lenfield|%s" % c, "load_program: the number of program bytes does not come from the file header")
                    elif [by.get(lp + i) for i in range(4)] != [3, 2, 1, 0]: rep.violation("lenfield|%s" % c, "check_save_res: the program length is not stored at offset %s, where loading reads it" % lp)
    # appending reads the same layout as loading
    ents = [e for e in entries.enumerate_entries(M) if e.name == "APPEND"]
    if not ents: raise Broken("APPEND not found")
    k0 = len(h.finals)
    sp = restype.Split(M)
    for e in ents:
        for desc, args, st in entries.variants(M, e):
            if desc != "S/sNone": continue
            it.entry = (e.id, desc); it.steps = 0; it.obs = {}; it.rec = 1
            for v, o in it.call_fn(M.fn(e.fn), args or [PT((Loc(M.ptc, 0),))], st): h.on_exit(it, e, desc, v, o)
    app = 0
    for nm, k, res, tr, bad in h.finals[k0:]:
        if bad or k == 'N' or res.__class__ is I and res.const and res.lo == 0: continue
        ms, pl, lp = summary(tr); n += 1; app += 1
        first = next((y for q, y in ms if q == 0 and len(y) == 4), None)
        if first is None or pl is None: rep.violation("append|format", "cmd_append: appends without having recognised the file format"); continue
        formats.setdefault(first, {}).setdefault("data PRG", set()).add((pl[0], lp))
    rep.need("ways APPEND succeeds", app, 2)
    # one layout per format: data follows the type mark by the same distance as in saved files
    for f, d in sorted(formats.items()):
        for c in restype.CLASSES:
            v = d.get("data " + c)
            if not v: continue
            if len(v) > 1: rep.violation("format|%s|%s" % (f, c), "files of format %s: type %s is read from different offsets (data, length field): %s" % (f, c, sorted(v, key=str)))
            mk = d.get("mark")
            if mk is None: continue
            if len(mk) > 1: rep.violation("format|%s|mark" % f, "files of format %s: the type mark is looked for at different offsets %s" % (f, sorted(mk)))
            for by, pay in saved.get(c, ()):
                for p, lp in v:
                    if p is not None and p - min(mk) != pay[0]: rep.violation("format|%s|%s|gap" % (f, c), "files of format %s: type %s is read %s bytes after the type mark, saved files have it %s bytes after" % (f, c, p - min(mk), pay[0]))
    for x, cs in marks.items():
        if len(cs) > 1: rep.violation("mark|shared", "type mark %r stands for types %s" % (x, ", ".join(sorted(cs))))
    # the loaders for images and palettes use the size of the type
    for fn, c in (("load_chr", "CHR"), ("load_col", "COL"), ("load_scr", "SCR"), ("load_grp", "GRP")):
        r = call(fn, [PT((Loc(dst, 0),)), text("resources/"), text("NAME")])
        for x in r or ():
            ms, pl, lp = summary(x)
            if pl and pl[1] is not None and pl[1] not in size[c]: rep.violation("%s|size" % fn, "%s: reads %d bytes, resources of type %s have %s" % (fn, pl[1], c, sorted(size[c])))
    packages(rep, M, call, t)
    rep.cov["file layouts compared (ways through saving, testing, loading, appending)"] = n
    rep.need("file layouts compared (ways through saving, testing, loading, appending)", n, 30)
    rep.cov["formats"] = {f: {k: sorted(map(str, v)) for k, v in d.items()} for f, d in formats.items()}
    rep.assume += ASSUME2

def packages(rep, M, call, t):
    """every packaged resource name is a valid resource type with a size"""
    g = M.m.globals.get("package_resources")
    if g is None or g.init is None or g.init[0] != 'bytes': raise Broken("package_resources not found")
    data = bytes(g.init[1])
    cls = {}
    for nm, page, c, obj, idx in t: cls.setdefault(nm, set()).update(c)
    names = []
    for i in range(0, len(data) - 4, 5):
        names.append(data[i:i + 5].split(b"\0")[0].decode("latin-1"))
    ft = restype.find(M, "verify_resource_type_str")
    if not ft: raise Broken("verify_resource_type_str not found")
    n = 0
    for i, nm in enumerate(names):
        n += 1
        s_ = PT((Loc(restype.const_region(M, b"S" + bytes([len(nm)]) + nm.encode("latin-1"), "resource type string"), 0),))
        bad = [v for v, o in restype.quiet(M, ft[0], [s_], State()) if not (v.__class__ is I and not has(v, 0))]
        if bad: rep.violation("package|%s" % nm, "package_resources: entry %d (%r) is not accepted as a resource type" % (i, nm))
        if nm not in cls: rep.violation("package|%s|list" % nm, "package_resources: entry %d (%r) is not in the list of valid resource types" % (i, nm))
        elif cls[nm] & {"PRG"}: rep.violation("package|%s|prg" % nm, "package_resources: entry %d (%r) has no fixed size" % (i, nm))
    if len(set(names)) != len(names): rep.violation("package|twice", "package_resources: an entry occurs twice: %s" % sorted(x for x in names if names.count(x) > 1))
    rep.cov["packaged resources"] = n
    rep.need("packaged resources", n, 40)
    # every valid name is accepted as well
    for nm in restype.names(M):
        s_ = PT((Loc(restype.const_region(M, b"S" + bytes([len(nm)]) + nm.encode("latin-1"), "resource type string"), 0),))
        bad = [v for v, o in restype.quiet(M, ft[0], [s_], State()) if not (v.__class__ is I and not has(v, 0))]
        if bad: rep.violation("valid|%s" % nm, "verify_resource_type: %r is listed as valid but not accepted" % nm)
