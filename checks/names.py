"""File names: what the name check accepts, and which text reaches the file system."""
import restype, common, ir
from common import Broken
from groups import ir_base
from dom import *
from absint import State
from ghost import Base, report, run, ASSUME2, locs
import libmodel, files

CHECKS = ("verify_resource_name", "verify_resource_type", "verify_resource_type_str")
OPENS = {"fopen": 0, "opendir": 0, "freopen": 0, "open": 0, "openat": 1, "remove": 0, "unlink": 0, "rename": 0, "mkdir": 0, "rmdir": 0, "creat": 0, "chdir": 0, "system": 0, "popen": 0, "stat": 0, "access": 0}
COPIES = {"strcpy": 1, "strncpy": 1, "strcat": 1, "strncat": 1, "memcpy": 1, "memmove": 1, "stpcpy": 1}
LETTERS = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_")

class Prov(Base):
    """ghost 'pv': where the text of each buffer comes from: "v" accepted by the name check,
    "u" anything else a program can choose; absent: constants of the interpreter"""
    def setup(s, M):
        it = M.it; s.sites = {}
        for n in OPENS: s.wrap(n, s.open)
        for n in COPIES: s.wrap(n, s.copy)
        for n in list(M.m.funcs):
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"): s.wrap(n, s.copy)
        for n in ("sprintf", "snprintf"): s.wrap(n, s.fmt)
        s.checks = [f for c in CHECKS for f in restype.find(M, c)]
        for f in s.checks: it.models[f.name] = s.check
        s.ld = {}
        for n, t in (("str_comp", True), ("strcmp", False)):
            for f in restype.find(M, n) or ([None] if n in M.m.funcs else []):
                def m(it, ins, args, st, f=f, t=t, n=n):
                    outs = it.call_fn(f, args, st) if f else libmodel.external(it, ins, n, args, st)
                    s.eqtrue = t
                    return s.same(it, ins, args, st, outs)
                it.models[n] = m
        it.on_load = s.load; it.on_write = s.store; it.on_call = s.called; s.ca = {}
    def tags(s, st, r):
        """'' const, otherwise letters"""
        if r.const is not None and getattr(r.const, "const", True) and r.kind == "global": return ""
        t = dict(st.ghost("pv", ()))
        if r.sn in t: return t[r.sn]
        if r.kind == "alloca": return ""
        return "u"
    def prov(s, st, p):
        if p.__class__ is not PT: return "" if p.__class__ is I and p.const and p.lo == 0 else "u"
        o = set()
        for l in p.t: o |= set(s.tags(st, l.r))
        if p.unk: o.add("u")
        return "".join(sorted(o))
    def put(s, st, r, t):
        d = dict(st.ghost("pv", ()))
        d[r.sn] = t
        st.setg("pv", tuple(sorted(d.items())))
    def into(s, st, p, t, fresh):
        for l in locs(p):
            if l.r.kind == "alloca":
                old = s.tags(st, l.r)
                new = t if fresh and l.off == 0 and not l.ds and len(p.t) == 1 else "".join(sorted(set(old) | set(t)))
                s.put(st, l.r, new)
    def copy(s, it, ins, args, st, outs):
        if outs is None:
            s.src = s.prov(st, args[1]); return
        if it.initphase: return outs
        n = ir_base(ins.x[1])
        src = s.src
        for v, o in outs: s.into(o, args[0], src, n in ("strcpy", "stpcpy"))
        return outs
    def fmt(s, it, ins, args, st, outs):
        if outs is None:
            t = set()
            for a in args[1:]:
                if a.__class__ is PT: t |= set(s.prov(st, a))
            s.src = "".join(sorted(t)); return
        for v, o in outs: s.into(o, args[0], s.src, True)
        return outs
    def load(s, it, ins, p, st):
        if it.m.size(ins.ty) <= 2: s.ld[ins.sn] = s.prov(st, p)
    def called(s, it, ins, n, args, st):
        if ins.res is not None: s.ca[ins.sn] = [s.prov(st, a) if a.__class__ is PT else None for a in args]
    def val(s, it, st, f, v, depth, seen):
        """where a stored character comes from, following the computation of its value"""
        if v[0] != 'r': return ""
        if (f.name, v[1]) in seen: return ""
        seen.add((f.name, v[1]))
        d = f.defs.get(v[1])
        if d is None:
            # a parameter: what the caller passes
            k = [i for i, a in enumerate(f.args) if a == v[1] or (isinstance(a, (tuple, list)) and v[1] in a)]
            if k and depth > 0:
                c = it.chain[depth - 1]
                if c is not None and c.op == "call" and k[0] < len(c.a): return s.val(it, None, c.fn, c.a[k[0]][1], depth - 1, seen)
            return "u"
        if d.op == "load": return s.ld.get(d.sn, "u")
        if d.op in ("icmp", "fcmp"): return ""
        o = set()
        if d.op == "call":
            for (ty, a), t in zip([(y[0], y[1]) for y in d.a], s.ca.get(d.sn) or ["u"] * len(d.a)):
                if ty[0] == 'p': o |= set(t or "") if a[0] == 'r' else set()
                else: o |= set(s.val(it, st, f, a, depth, seen))
            return "".join(sorted(o))
        for x in ([y[0] for y in d.x] if d.op == "phi" else [y[1] for y in d.a if isinstance(y, tuple) and len(y) > 1]):
            if isinstance(x, tuple): o |= set(s.val(it, st, f, x, depth, seen))
        return "".join(sorted(o))
    def same(s, it, ins, args, st, outs):
        """text that equals a constant is a constant"""
        out = []
        for v, o in outs:
            if v.__class__ is I and not v.const and has(v, 0): pr = [(C(0, v.w), o.copy()), (v if not s.eqtrue else C(1, v.w), o)]
            else: pr = [(v, o)]
            for w, q in pr:
                if w.__class__ is I and (w.const or not has(w, 0)) and (has(w, 0) != s.eqtrue):
                    for a, b in ((0, 1), (1, 0)):
                        if s.prov(q, args[a]) == "": s.mark(it, q, args[b])
                out.append((w, q))
        return out
    def mark(s, it, o, p):
        for l in locs(p)[:1] if len(locs(p)) == 1 else ():
            if l.off or l.ds: continue
            s.put(o, l.r, "v")
            for off, (z, x) in (o.mem.get(l.r) or {}).items() if l.r.kind != "alloca" else ():
                for k in locs(x): s.put(o, k.r, "v")      # the characters of a string object
    def store(s, it, st, l, size, v):
        i = it.curins
        if it.initphase or l.r.kind != "alloca" or i is None or i.op != "store": return
        if size != 1 or v.__class__ is not I or v.const: return
        lo, hi = v.uview()[:2]
        if hi - lo < 256 and all(x & 255 in LETTERS or x == 0 for x in (v.s or range(lo, hi + 1))): return
        t = s.val(it, st, i.fn, i.a[0][1], len(it.chain), set())
        s.put(st, l.r, "".join(sorted(set(s.tags(st, l.r)) | set(t))))
    def check(s, it, ins, args, st):
        out = []
        for v, o in it.call_fn(s.M.m.funcs[ins.x[1]], args, st):
            p = args[0]
            if v.__class__ is not I or has(v, 0) and not (v.const): 
                q = o.copy(); out.append((C(0, v.w if v.__class__ is I else 1), q)); v = C(1, v.w if v.__class__ is I else 1)
            if not (v.const and v.lo == 0) and p.__class__ is PT and len(p.t) == 1 and p.t[0].off == 0 and not p.t[0].ds:
                s.mark(it, o, p)
            out.append((v, o))
        return out
    def open(s, it, ins, args, st, outs):
        if outs is not None: return
        n = ir_base(ins.x[1]); k = OPENS[n]
        if k >= len(args): return
        t = s.prov(st, args[k])
        s.sites[ins] = 1
        s.ob("name", "viol" if "u" in t else "ok", "%s is given a name that contains text no name check has accepted" % n, ins)

def accepted(M, f, text):
    r = set()
    for v, o in restype.quiet(M, f, [PT((Loc(restype.const_region(M, text + b"\0", "file name"), 0),))], State()):
        r |= {bool(v.lo)} if v.__class__ is I and v.const else {True, False}
    return r

def cases(M):
    """(text, must it be accepted) over every character, length and type prefix"""
    for n in range(0, 13): yield b"A" * n, 1 <= n <= 8
    for c in range(1, 256):
        b = bytes([c])
        if c == ord(':'): continue
        for t in (b, b + b"AB", b"A" + b + b"B", b"AB" + b, b"ABCDEFG" + b, b"PRG:" + b + b"A", b"PRG:A" + b):
            yield t, c in LETTERS
    nm = restype.names(M)
    for t in nm:
        t = t.encode("latin-1")
        yield t + b":A", True
        yield t + b":ABCDEFGH", True
        yield t + b":", False
        yield t + b":ABCDEFGHI", False
        yield t + b":A:B", False
        yield t + b":../A", False
    for t in (b":A", b"A:A", b"XYZ:A", b"../A", b"A/B", b"/A", b"..", b".", b"~A", b"A.PTC", b"PRG:PRG:A", b"prg:A", b"../:A", b"BGU0X:A", b"C:\\A"): yield t, False

STAT = ("LOAD", "SAVE", "EXEC", "APPEND")
def statements(rep, M, h):
    """each statement with constant names: the path that is opened"""
    import entries
    it = M.it; n = 0; got = []
    def fopen(it, ins, args, st):
        got.append(libmodel.known_bytes(it, st, args[0], 64))
        return None
    old = it.models.get("fopen")
    def m(it, ins, args, st):
        fopen(it, ins, args, st)
        return old(it, ins, args, st) if old else libmodel.external(it, ins, "fopen", args, st)
    it.models["fopen"] = m
    good = [b"A", b"ABCDEFGH", b"a_0", b"PRG:Z9", b"GRP1:_"]
    bad = [b"", b"ABCDEFGHI", b"A/B", b"../A", b"..", b"/A", b"A.B", b"PRG:../A", b"PRG:/A", b"GRP0:A/B", b"PRG:", b":A", b"XXX:A", b"PRG:A:B", b"A" * 40, b"..\\A", b"\xc1"]
    for e in entries.enumerate_entries(M):
        if e.name not in STAT or e.kind != "cmd": continue
        for t in good + bad:
            st = M.entry_state(["S"], 0, 1, (min(len(t), 200),), "S")
            d = it.wr(st, M.ptc)
            d[M.o_ent + 8] = (8, PT((Loc(restype.const_region(M, b"S" + bytes([len(t)]) + t, "file name"), 0),)))
            del got[:]
            try: outs = restype.quiet(M, M.fn(e.fn), [PT((Loc(M.ptc, 0),))], st)
            except Exception as x:
                if x.__class__.__name__ != "Budget": raise
                outs = []
                if not got: rep.notes.append("%s %r: beyond the step budget" % (e.name, t))
            n += 1
            base = t.split(b":")[-1]
            for b, full in got:
                if t in bad: rep.violation("%s|%s|opened" % (e.name, t.decode("latin-1")), "%s: %s %r opens the file %r" % (ir_base(M.fn(e.fn).name), e.name, t.decode("latin-1"), b.decode("latin-1")))
                elif not full: rep.violation("%s|%s|path" % (e.name, t.decode("latin-1")), "%s: %s %r opens a file whose path is not determined by the name (%r...)" % (ir_base(M.fn(e.fn).name), e.name, t.decode("latin-1"), b.decode("latin-1")))
                else:
                    p = b.rstrip(b"\0").decode("latin-1")
                    if not p.startswith("programs/") or "/" in p[9:] or base.decode("latin-1") not in p[9:]:
                        rep.violation("%s|%s|path" % (e.name, t.decode("latin-1")), "%s: %s %r opens %r" % (ir_base(M.fn(e.fn).name), e.name, t.decode("latin-1"), p))
            if t in bad:
                for v, o in outs:
                    if it.errkey(o) != 'N': rep.violation("%s|%s|silent" % (e.name, t.decode("latin-1")), "%s: %s accepts the name %r" % (ir_base(M.fn(e.fn).name), e.name, t.decode("latin-1"))); break
    if old: it.models["fopen"] = old
    else: it.models.pop("fopen", None)
    rep.cov["statements x constant names"] = n
    rep.need("statements x constant names", n, 60)

def r02(rep):
    h = Prov(rep)
    M = common.machine()
    fs = restype.find(M, CHECKS[0])
    n = 0
    if not fs: rep.notes.append("name check not found by name; the statements are checked instead")
    for f in fs:
        bad = 0
        for t, want in dict.fromkeys(cases(M)):
            n += 1
            g = accepted(M, f, t)
            if g != {want} and bad < 8:
                bad += 1
                rep.violation("check|%s" % t.decode("latin-1"), "%s: the name %r is %s" % (ir_base(f.name), t.decode("latin-1"), ("not rejected" if True in g else "rejected")))
    rep.cov["names decided by the name check"] = n
    statements(rep, M, h)
    h.on_entry = lambda it, e, desc, args, st: files.variants(e, desc)
    M2, g = run(rep, h, None, [], 4, maxrounds=1, only=lambda e: e.name in files.touching(h.M))
    if fs:
        k = report(rep, M2, g, ("name",))
        rep.need("places where statements hand a name to the file system", k, 2)
    rep.assume += ASSUME2
