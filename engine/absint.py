"""Interprocedural (inlining) abstract interpreter over the IR of ir.py.

States are partitioned by the status of the interpreter's error cell and by the
constants reaching non-loop phis.  Loops are widened to thresholds and then narrowed.
Obligations (memory bounds, null use, assertion/abort reachability, division, wide to
narrow stores, float to int) are recorded only in the final stable pass."""
import ir
from dom import *
import math, struct, struct

class Region:
    __slots__ = ("name", "size", "ty", "kind", "mod", "fresh", "dflt", "user", "cache", "const", "esc", "pid", "mem", "sn")
    count = 0
    def __init__(s, name, size, ty=None, kind="mem", mod=None, fresh=False, dflt=None, const=None):
        s.sn = Region.count = Region.count + 1
        s.name, s.size, s.ty, s.kind, s.mod, s.fresh, s.dflt = name, size, ty, kind, mod, fresh, dflt
        s.user = None; s.cache = {}; s.const = const; s.esc = False; s.pid = None; s.mem = None
    def __hash__(s): return s.sn
    def label(s, off):
        """how messages name the object at an offset"""
        for o, z, n, t in s.mem or ():
            if o <= off < o + z: return "ptc." + n
        if s.name.startswith("allocation") and s.size: return "%s <%s bytes>" % (s.name, "".join(chr(ord('a') + int(c)) for c in str(s.size)))
        return s.name
    def __repr__(s): return s.name
    def fresh_like(s): return True
    def precise(s, t, n, path):
        """is array type (n x t) at type path kept element-precise?"""
        if s.kind == "alloca" or s.kind == "global": return n <= 64
        return n <= 4 or path in PRECISE_PATHS or (n <= 64 and t[0] == 'p')

PRECISE_PATHS = set()
EXACT = False      # constant propagation: every element of local memory has its own cell

def keep(d, o, c, lo, hi):
    """the constant bytes of an overwritten cell outside lo..hi stay known"""
    x = c[1].lo & ((1 << 8 * c[0]) - 1)
    for a, b in ((o, min(lo, o + c[0])), (max(hi, o), o + c[0])):
        while a < b:
            z = 4 if b - a >= 4 else 1
            d[a] = (z, C((x >> 8 * (a - o)) & ((1 << 8 * z) - 1), 8 * z)); a += z

def norm(r, off, ds):
    """-> list of (key offset, strong) for an access, or None if not expressible.
    Walks the region type; smashed arrays drop their index."""
    if EXACT and r.pid is None and r.kind in ("alloca", "heap", "global") and all(d.lo == d.hi for d in ds): return [(off + sum(d.lo * d.st for d in ds), True)]
    key = (off, ds)
    c = r.cache.get(key)
    if c is not None: return c
    res = None
    if r.ty is None:
        if not ds: res = [(off, r.fresh)]
        else: res = None
    else:
        res = _norm(r, r.ty, off, list(ds), 0, True, ())
    if len(r.cache) < 20000: r.cache[key] = res if res is not None else ()
    return res if res is not None else ()

def _norm(r, t, off, ds, base, strong, path):
    m = r.mod
    while t[0] == 'ns':
        path = path + (t[1],)
        t = m.structs[t[1]]
    k = t[0]
    if k == 'arr':
        es = m.size(t[2])
        if es == 0: return None
        own = [d for d in ds if d.st % es == 0]
        inner = [d for d in ds if d.st % es != 0]
        if not r.precise(t[2], t[1], path):
            o = off % es
            return _norm(r, t[2], o, inner, base, strong and t[1] == 1, path + ("[]",))
        if any(d.st != es and d.st % es == 0 for d in own) and len(own) > 1:
            pass
        lo = off // es; hi = lo
        for d in own:
            f = d.st // es
            lo += d.lo * f; hi += d.hi * f
        o = off % es
        if lo == hi:
            if lo < 0 or lo >= t[1]: return None
            return _norm(r, t[2], o, inner, base + lo * es, strong, path + ("[]",))
        lo = max(lo, 0); hi = min(hi, t[1] - 1)
        if hi - lo > 512: return None
        out = []
        for i in range(lo, hi + 1):
            x = _norm(r, t[2], o, inner, base + i * es, False, path + ("[]",))
            if x is None: return None
            out += x
        return out
    if k == 'st':
        lay = m.lay(t)
        offs = lay[2]
        if off < 0 or off >= max(lay[0], 1): return None
        i = 0
        for j, o in enumerate(offs):
            if o <= off: i = j
        # skip zero-sized
        return _norm(r, t[1][i], off - offs[i], ds, base + offs[i], strong, path + (i,))
    if ds:
        return [(base, False)] if off == 0 or True else None
    return [(base + off, strong)]

class State:
    __slots__ = ("env", "mem", "own", "pq", "eq", "rel", "jt", "gh")
    def __init__(s):
        s.env = {}; s.mem = {}; s.own = set(); s.pq = True; s.eq = {}; s.rel = E; s.jt = E; s.gh = ()
    # ghost facts of the running check; states with different facts are never joined
    def ghost(s, name, dflt=None):
        for k, v in s.gh:
            if k == name: return v
        return dflt
    def setg(s, name, val):
        g = [x for x in s.gh if x[0] != name]
        if val is not None: g.append((name, val))
        s.gh = tuple(sorted(g, key=lambda x: x[0]))
    def copy(s):
        n = State.__new__(State)
        n.env = dict(s.env); n.mem = dict(s.mem); n.own = set(); s.own = set()
        n.pq = s.pq; n.eq = dict(s.eq); n.rel = s.rel; n.jt = s.jt; n.gh = s.gh
        return n

class Ob:
    """one proof obligation, merged over contexts"""
    __slots__ = ("kind", "ins", "st", "msg", "n", "entry", "chain", "tag")
    def __init__(s, kind, ins):
        s.kind, s.ins, s.st, s.msg, s.n, s.entry, s.chain = kind, ins, 0, None, 0, None, (); s.tag = None
RANK = {"ok": 0, "und": 1, "viol": 2}

FMAX = {32: 3.4028234663852886e38, 64: 1.7976931348623157e308}
def fnext(x, up, w):
    """the neighbour of x in the float format of w bits"""
    if x != x or x in (INF, -INF): return FMAX[w] * (1 if x > 0 else -1) if (x > 0) != up else x
    if w == 64: return math.nextafter(x, INF if up else -INF)
    if abs(x) >= FMAX[32]: return x
    if x == 0: return 1.401298464324817e-45 * (1 if up else -1)
    b = struct.unpack("<i", struct.pack("<f", x))[0]
    return struct.unpack("<f", struct.pack("<i", b + (1 if (x > 0) == up else -1)))[0]
def fpclass(a, m, fm):
    """the part of the float interval a whose class is in the llvm.is.fpclass mask m"""
    nan = a.nan and bool(m & 3)
    lo, hi = a.lo, a.hi
    if not m & 0x3fc: return F(lo, hi, True, a.ex, a.org) if nan else None
    if not m & 0x200: hi = min(hi, fm)
    if not m & 0x4: lo = max(lo, -fm)
    if not m & 0x3c0: hi = min(hi, 0.0)
    if not m & 0x3c: lo = max(lo, 0.0)
    if m & 0x3fc == 0x60: lo, hi = max(lo, 0.0), min(hi, 0.0)
    if m & 0x3fc == 0x200: lo = max(lo, INF)
    if m & 0x3fc == 0x4: hi = min(hi, -INF)
    if lo > hi: return F(a.lo, a.hi, True, a.ex, a.org) if nan else None
    return F(lo, hi, nan, a.ex, a.org)
def fpcall(d):
    n = str(d.x[1]) if d.x and d.x[0] == 'g' else ""
    return n.startswith("llvm.is.fpclass") or n.startswith("llvm.fabs") or n in ("fabs", "fabsf")
class Stop(Exception): pass

class Budget(Exception): pass

class Interp:
    def __init__(s, mod):
        s.cmpth = {}
        s.m = mod
        s.greg = {}
        s.obs = {}
        s.rec = 0
        s.inv = {}            # (region,key off) -> (size, V): invariant contents of persistent regions
        s.entry = None
        s.stack = []; s.exact = False
        s.chain = []
        s.models = {}
        s.opaque = set()
        s.live = {}
        s.thr = {}
        s.errcell = None      # (region, off)
        s.writes = None       # optional: collector of writes for effect analysis
        s.heap = {}
        s.reads = set()       # persistent cells whose invariant was used
        s.steps = 0
        s.maxsteps = 4000000
        s.fnset = set()
        s.on_call = None      # hook(interp, ins, name, args, state)
        s.on_store = None
        s.on_load = None
        s.on_ret = None
        s.on_write = None; s.on_exit = None; s.curins = None
        s.maxdepth = 24
        s.initphase = False; s.direct = None; s.path_tag = None
        s.invo = {}; s.invstruct = None

    # ------------------------------------------------------------ regions
    def greg_of(s, name):
        r = s.greg.get(name)
        if r is None:
            g = s.m.globals.get(name)
            if g is None: return None
            r = Region("@" + name, s.m.size(g.ty), g.ty, "global", s.m, fresh=True, const=g)
            s.greg[name] = r
        return r
    def new_region(s, name, size, ty=None, kind="heap", fresh=False, dflt=None):
        return Region(name, size, ty, kind, s.m, fresh, dflt)

    # ------------------------------------------------------------ values
    def cval(s, ty, v):
        """constant operand -> value"""
        k = v[0]
        if k == 'c': return C(v[1], ty[1]) if ty[0] == 'i' else (NULL if v[1] == 0 else UNKP)
        if k == 'null': return NULL
        if k == 'f': return F(v[1], v[1])
        if k == 'g':
            n = v[1]
            if n in s.m.funcs: return FN(frozenset((n,)))
            r = s.greg_of(n)
            return PT((Loc(r, 0),)) if r else UNKP
        if k == 'zero':
            if ty[0] == 'i': return C(0, ty[1])
            if ty[0] == 'p': return NULL
            if ty[0] == 'f': return F(0.0, 0.0)
            t = s.m.res(ty)
            if t[0] == 'st': return AG(tuple(s.cval(x, v) for x in t[1]))
            if t[0] == 'arr' and t[1] <= 64: return AG(tuple(s.cval(t[2], v) for _ in range(t[1])))
            return TOP
        if k == 'undef':
            return s.undef(ty)
        if k == 'agg':
            return AG(tuple(s.cval(t, x) for t, x in v[1]))
        if k == 'ce':
            if v[1] == 'gep':
                base = s.cval(v[3][0][0], v[3][0][1])
                return s.gep(base, v[2], [(t, s.cval(t, x)) for t, x in v[3][1:]])
            if v[1] in ('inttoptr', 'ptrtoint', 'bitcast'):
                return s.cval(*v[3][0])
            if v[1] in ('trunc', 'zext', 'sext'):
                return s.cast(v[1], s.cval(*v[3][0]), v[2])
        return s.unknown(ty)
    def undef(s, ty):
        if ty[0] == 'i': return full(ty[1], False)
        return s.unknown(ty)
    def unknown(s, ty, ex=False, org=E):
        if ty[0] == 'i': return full(ty[1], ex, org)
        if ty[0] == 'p': return UNKP
        if ty[0] == 'f': return ftop(ex, org)
        t = s.m.res(ty)
        if t[0] == 'st': return AG(tuple(s.unknown(x, ex, org) for x in t[1]))
        return TOP
    def ev(s, st, ty, v):
        if v[0] == 'r':
            x = st.env.get(v[1])
            if x is None:
                return s.undef(ty)
            if st.jt and (x.__class__ is not I or x.org) and (vorg(x) & st.jt): return suborg(deg(x), st.jt)
            return x
        return s.cval(ty, v)

    # ------------------------------------------------------------ memory
    def wr(s, st, r):
        d = st.mem.get(r)
        if d is None:
            d = {}; st.mem[r] = d; st.own.add(r)
        elif r not in st.own:
            d = dict(d); st.mem[r] = d; st.own.add(r)
        return d

    def default(s, r, off, size, ty):
        """contents of a never-written cell"""
        if r.dflt is not None:
            v = r.dflt(s, r, off, size, ty)
            if v is not None: return v
        if r.pid is not None:
            s.reads.add((r.pid, off))
            if r.esc: return s.unknown(ty, False)
            x = s.inv.get((r.pid, off))
            if x is not None:
                v = s.adapt(x[0], x[1], size, ty)
                if v.__class__ is I and not v.const:
                    v = I(v.lo, v.hi, v.w, v.ql, v.qh, s.invorg(r, off), v.s, v.xs)
                return v
        if r.kind == "global" and r.const is not None and r.const.init is not None and (r.const.const or not r.esc):
            v = s.ginit(r, off, size, ty)
            if v is not None: return v
        if r.kind == "alloca": return s.undef(ty)
        if r.kind == "zeroheap" or r.kind == "ptc0":
            if ty[0] == 'i': return C(0, ty[1]) if not s.initphase else I(0, 0, ty[1], False, False, E, frozenset((0,)))
            if ty[0] == 'p': return NULL if not s.initphase else PT((), 2, False)
            if ty[0] == 'f': return F(0.0, 0.0)
        if r.kind == "data":     # plain user data: any value of the type is possible
            return s.unknown(ty, True, frozenset((("d", r.name, off),)))
        return s.unknown(ty, False)

    def invorg(s, r, off):
        k = (r.pid, off)
        o = s.invo.get(k)
        if o is None:
            o = s.invo[k] = frozenset((("inv", r.pid, off), ("j", ("inv", r.pid, s.invstruct(r, off) if s.invstruct else 0))))
        return o

    def ginit(s, r, off, size, ty):
        g = r.const
        t, v = g.ty, g.init
        base = 0
        while True:
            t = s.m.res(t)
            if v[0] == 'zero':
                return s.cval(ty, v) if ty[0] in 'ipf' else None
            if v[0] == 'bytes':
                if size == 1 and 0 <= off < len(v[1]): return C(v[1][off], 8)
                if off + size <= len(v[1]) and ty[0] == 'i':
                    return C(int.from_bytes(v[1][off:off + size], 'little'), ty[1])
                return None
            if v[0] == 'agg':
                if t[0] == 'arr':
                    es = s.m.size(t[2])
                    i = off // es
                    if not (0 <= i < len(v[1])): return None
                    off -= i * es; t, v = v[1][i]; continue
                if t[0] == 'st':
                    offs = s.m.lay(t)[2]
                    i = 0
                    for j, o in enumerate(offs):
                        if o <= off: i = j
                    off -= offs[i]; t, v = v[1][i]; continue
                return None
            if off == 0 and s.m.size(t) == size:
                x = s.cval(t, v)
                return x if (ty[0] == t[0]) else None
            return None

    def compose(s, d, off, size, ty):
        """an integer read over several narrower constant cells"""
        x = 0; o = 0
        while o < size:
            c = d.get(off + o)
            if c is None or c[1].__class__ is not I or not c[1].const or o + c[0] > size: return full(ty[1], False)
            x |= (c[1].lo & ((1 << (8 * c[0])) - 1)) << (8 * o); o += c[0]
        return C(x, ty[1])

    def adapt(s, csize, v, size, ty):
        """read `size` bytes of type ty from a cell of csize bytes holding v (same offset)"""
        if ty[0] == 'i':
            w = ty[1]
            if v.__class__ is I:
                if v.w == w: return v
                if v.w > w: return s.cast("trunc", v, ty)
                if csize < size: return full(w, False)      # only the low part is known
                return I(v.lo, v.hi, w, v.ql, v.qh, v.org, v.s)
            if v.__class__ is PT or v.__class__ is FN:
                return v if size == 8 else full(w, False)
            return full(w, False)
        if ty[0] == 'p':
            if v.__class__ in (PT, FN): return v
            if v.__class__ is I:
                if v.const and v.lo == 0 and csize == 8: return NULL
                return v
            return UNKP
        if ty[0] == 'f':
            return v if v.__class__ is F else ftop(False)
        if v.__class__ is AG: return v
        return s.unknown(ty)

    def load_loc(s, st, loc, size, ty):
        r = loc.r
        if r.kind == "global" and r.const is not None and r.const.init is not None and (r.const.const or not r.esc) and r not in st.mem:
            k = ("T", loc.off, loc.ds, size, ty)
            v = r.cache.get(k)
            if v is None:
                v = r.cache[k] = s.table_load(r, loc, size, ty)
            return v
        keys = norm(r, loc.off, loc.ds)
        if not keys:
            if r.const is not None and r.kind == "global" and not (r in st.mem):
                return s.table_load(r, loc, size, ty)
            if r.kind == "data": return s.unknown(ty, True, frozenset((("d", r.name, -1),)))
            if r.dflt is not None:
                v = r.dflt(s, r, -1, size, ty)
                if v is not None: return v
            d = st.mem.get(r)
            if d and not loc.ds and r.ty is None:
                pass
            return s.unknown(ty, False)
        res = None
        d = st.mem.get(r)
        for off, strong in keys:
            v = None
            if d is not None:
                c = d.get(off)
                if c is not None:
                    v = s.compose(d, off, size, ty) if c[0] < size and ty[0] == 'i' else s.adapt(c[0], c[1], size, ty)
                else:
                    # partial overlap with an earlier wider cell?
                    for o in range(off - 1, off - 8, -1):
                        c = d.get(o)
                        if c is not None and o + c[0] > off:
                            v = s.unknown(ty, False)
                            if c[1].__class__ is I and ty[0] == 'i' and c[1].const:
                                v = C((c[1].lo >> (8 * (off - o))) & ((1 << ty[1]) - 1), ty[1])
                            break
            if v is None:
                v = s.default(r, off, size, ty)
            res = v if res is None else join(res, v)
        return res

    def table_load(s, r, loc, size, ty):
        """load at a variable index from a constant table: join all reachable entries"""
        cnt = 1
        lo = hi = 0
        offs = [loc.off]
        for d in loc.ds:
            l, h = d.lo, d.hi
            if d.n is not None: l, h = max(l, 0), min(h, d.n - 1)
            l = max(l, -(r.size // max(1, d.st))); h = min(h, r.size // max(1, d.st))
            if h < l: return s.unknown(ty)
            if (h - l + 1) * len(offs) > 1200: return s.unknown(ty, False)
            offs = [o + i * d.st for o in offs for i in range(l, h + 1)]
        res = None
        for o in offs:
            if o < 0 or o + size > r.size: continue
            v = s.default(r, o, size, ty)
            res = v if res is None else join(res, v)
        return res if res is not None else s.unknown(ty)

    def store_loc(s, st, loc, size, v, weak):
        r = loc.r
        if s.on_write: s.on_write(s, st, loc, size, v)
        if r.kind in ("data", "sink", "code"): return
        keys = norm(r, loc.off, loc.ds)
        if not keys:
            if r.kind == "alloca" or r.kind == "global":
                # unknown element: forget the region's cells
                d = s.wr(st, r)
                for o in list(d):
                    d[o] = (d[o][0], TOP if d[o][1].__class__ is not I else full(d[o][1].w, False))
            elif r.pid is not None or r.kind in ("heap", "zeroheap"):
                s.taint(r)
            return
        d = s.wr(st, r)
        for off, strong in keys:
            c = d.get(off)
            if strong and not weak and len(keys) == 1:
                # kill overlaps
                for o in range(off - 7, off + size):
                    if o != off:
                        c2 = d.get(o)
                        if c2 is not None and (o > off or o + c2[0] > off):
                            del d[o]
                            if EXACT and c2[1].__class__ is I and c2[1].const: keep(d, o, c2, off, off + size)
                if EXACT and c is not None and c[0] > size and c[1].__class__ is I and c[1].const: keep(d, off, c, off, off + size)
                d[off] = (size, v)
            else:
                if c is None:
                    ty = ('i', size * 8) if v.__class__ is I else ('p',) if v.__class__ in (PT, FN) else ('f', size * 8) if v.__class__ is F else None
                    if ty is None: continue
                    old = s.default(r, off, size, ty)
                else:
                    old = c[1] if c[0] == size else (s.adapt(c[0], c[1], size, ('i', size * 8)) if v.__class__ is I else TOP)
                d[off] = (size, join(old, v))
        # invalidate load equalities
        if st.eq:
            ks = {(r, o) for o, _ in keys}
            for n in [n for n, c in st.eq.items() if c[0] is r and any(c[1] < o + size and c[1] + c[2] > o for _, o in ks)]:
                del st.eq[n]

    def bump_eq(s, st, r, off, size):
        for n in [n for n, c in st.eq.items() if c[0] is r and c[1] < off + size and c[1] + c[2] > off]: del st.eq[n]
    def taint(s, r):
        if not r.esc:
            r.esc = True
            s.tainted = getattr(s, "tainted", [])
            s.tainted.append((r, tuple(s.stack)))
    def infer_type(s, p, bt):
        """attach a struct type to untyped heap regions from typed GEPs"""
        if bt[0] != 'ns': return
        for l in p.t:
            if l.r.ty is None and l.r.kind in ("heap", "zeroheap") and l.off == 0 and l.r.size:
                z = s.m.size(bt)
                if z and l.r.size % z == 0 and all(d.st % z == 0 for d in l.ds):
                    l.r.ty = ('arr', l.r.size // z, bt); l.r.cache.clear()

    # ------------------------------------------------------------ obligations
    def ob(s, kind, ins, status, msg=None, tag=None):
        if not s.rec: return
        key = (kind, ins)
        o = s.obs.get(key)
        if o is None:
            o = s.obs[key] = Ob(kind, ins)
        o.n += 1
        r = RANK[status]
        if r > o.st:
            o.st = r; o.msg = msg; o.entry = s.entry; o.chain = tuple(s.chain); o.tag = tag

    def check_access(s, st, ins, p, size, what):
        if p.__class__ is I:
            if p.const and p.lo == 0:
                s.ob("null", ins, "viol" if st.pq else "und", "%s through null pointer" % what)
            else:
                s.ob("bound", ins, "und", "%s through unknown pointer" % what)
            return
        if p.__class__ is not PT: 
            s.ob("bound", ins, "und", "%s through unknown pointer" % what); return
        if p.null:
            s.ob("null", ins, "viol" if (p.ex and st.pq) else "und", "%s through a pointer that can be null" % what, p.tag)
        else:
            s.ob("null", ins, "ok")
        if p.unk: s.ob("bound", ins, "und", "pointer not tracked")
        for l in p.t:
            s.check_loc(st, ins, l, size, what)

    def check_loc(s, st, ins, l, size, what, sizeq=True):
        r = l.r
        status = "ok"; msg = None
        lo = hi = l.off; qlo = qhi = True
        for i, d in enumerate(l.ds):
            dl, dh = d.lo * d.st, d.hi * d.st
            lo += dl; hi += dh
            qlo = qlo and d.ql; qhi = qhi and d.qh
            if d.n is not None:
                tl, th = d.lo * d.st, d.hi * d.st
                q1, q2 = d.ql, d.qh
                extra = False
                for e in l.ds[i + 1:]:
                    if e.n is None and e.st < d.st:
                        tl += e.lo * e.st; th += e.hi * e.st; extra = True
                        if e.lo: q1 = q1 and e.ql
                        if e.hi: q2 = q2 and e.qh
                lim = d.n * d.st
                if extra: bad_lo = tl < 0; bad_hi = th + size > lim
                else: bad_lo = d.lo < 0; bad_hi = d.hi >= d.n
                if bad_lo or bad_hi:
                    ex = (bad_lo and q1) or (bad_hi and q2)
                    stt = "viol" if (ex and st.pq and sizeq) else "und"
                    if RANK[stt] > RANK[status]:
                        status = stt
                        msg = "%s of %s: index %s..%s outside 0..%d" % (what, r.label(l.off), tl // d.st, th // d.st, d.n - 1)
        if r.size is not None and status != "viol":
            bl = lo < 0; bh = hi + size > r.size
            if (bl or bh) and not (lo == hi and l.ds and all(d.n is not None for d in l.ds) and status == "ok" and 0 <= lo and hi + size <= r.size):
                ex = (bl and qlo) or (bh and qhi)
                # interior bounded dims already proven: only the whole-region test remains
                if all(d.n is not None for d in l.ds) and l.ds and status == "ok" and r.ty is not None and l.off >= 0 and False:
                    pass
                stt = "viol" if (ex and st.pq and sizeq) else "und"
                if RANK[stt] >= RANK[status]:
                    status = stt
                    msg = "%s of %s: byte offset %d..%d (+%d) outside its %d bytes" % (what, r.label(l.off), lo, hi, size, r.size)
        elif r.size is None and status == "ok":
            status = "und"; msg = "region of unknown size"
        s.ob("bound", ins, status, msg)

    # ------------------------------------------------------------ pointer arithmetic
    def gep(s, p, bt, idx):
        if p.__class__ is I:
            return UNKP if not (p.const and p.lo == 0) else PT((), 2)
        if p.__class__ is not PT: return UNKP
        if not p.t: return p
        if bt[0] == 'ns': s.infer_type(p, bt)
        out = []
        tt = p.t; unk = p.unk
        if len(tt) > 1 and bt[0] == 'ns':
            # an object of this struct type does not fit at some of the merged targets:
            # those belong to another use of the same variable
            z = s.m.size(bt)
            tt = tuple(l for l in tt if l.ds or l.r.ty is None or l.r.size is None or l.off + z <= l.r.size)
            if not tt: tt = p.t
            elif len(tt) < len(p.t): unk = True
        for l in tt:
            off = l.off; ds = list(l.ds)
            t0, v0 = idx[0]
            sz = s.m.size(bt)
            v0 = as_int(v0, v0.w if v0.__class__ is I else 64)
            lo, hi, ql, qh, _ = v0.sview()
            if not (lo == 0 and hi == 0):
                s.add_dim(ds, sz, lo, hi, ql, qh, v0.org, l)
                if len(ds) and ds[-1].__class__ is tuple:
                    off += ds.pop()[1]
            t = bt
            for ty, v in idx[1:]:
                t = s.m.res(t)
                if t[0] == 'st':
                    off += s.m.lay(t)[2][v.lo]; t = t[1][v.lo]
                elif t[0] in ('arr', 'vec'):
                    v = as_int(v, v.w if v.__class__ is I else 64)
                    lo, hi, ql, qh, _ = v.sview()
                    es = s.m.size(t[2])
                    # same array re-indexed through decay
                    ds.append(D(es, lo, hi, t[1] if t[1] > 0 else None, ql, qh, v.org))
                    t = t[2]
                else:
                    return UNKP
            out.append(Loc(l.r, off, norm_ds(ds) if len(ds) > 1 else tuple(ds)))
        return PT(tuple(out), p.null, p.ex, unk, p.tag)

    def add_dim(s, ds, st, lo, hi, ql, qh, org, l):
        # merge with a dimension of the same stride (innermost first)
        for i in range(len(ds) - 1, -1, -1):
            d = ds[i]
            if d.st == st:
                cor = bool(org and d.org and (org & d.org)) and not (lo == hi or d.lo == d.hi)
                ds[i] = D(st, d.lo + lo, d.hi + hi, d.n, d.ql and ql and not cor, d.qh and qh and not cor, d.org | org)
                return
        if lo == hi:
            # constant displacement: multiples of a bounded dimension?
            for i in range(len(ds) - 1, -1, -1):
                d = ds[i]
                if d.n is not None and st % d.st == 0 and abs(lo) * st < d.n * d.st * 4:
                    k = lo * st // d.st
                    ds[i] = D(d.st, d.lo + k, d.hi + k, d.n, d.ql, d.qh, d.org); return
            ds.append(("c", lo * st)); return
        ds.append(D(st, lo, hi, None, ql, qh, org))

    # ------------------------------------------------------------ arithmetic
    def cast(s, op, v, ty):
        r = s.cast0(op, v, ty)
        if r.__class__ is I and v.__class__ is I and r is not v and v.org and op in ("trunc", "zext", "sext") and not r.const:
            m = (1 << ty[1]) - 1
            l, h = (v.uview()[:2] if op == "zext" else v.sview()[:2])
            if (r.lo - l) & m == 0 and (r.hi - h) & m == 0 and h - l == r.hi - r.lo: r.cid = corner(v)
        if r.__class__ is I and v.__class__ is I and r is not v:
            if v.sw: r.sw = v.sw
            if v.xs and not r.const and op in ("sext", "trunc", "zext"):
                l, h = v.sview()[:2]
                if op == "sext" or (op == "zext" and l >= 0) or (op == "trunc" and l >= -(1 << (r.w - 1)) and h < (1 << (r.w - 1))): r.xs = v.xs
                elif op == "zext" and 0 in v.xs: r.xs = frozenset((0,))
        return r
    def cast0(s, op, v, ty):
        if op in ("bitcast", "addrspacecast"): return v
        if op == "ptrtoint": return v if v.__class__ in (PT, FN) else as_int(v, ty[1])
        if op == "inttoptr":
            if v.__class__ is I and v.const and v.lo == 0: return NULL
            return v if v.__class__ in (PT, FN, I) else UNKP
        if op in ("trunc", "zext", "sext"):
            w = ty[1]
            if v.__class__ is not I:
                if v.__class__ is PT and op == "zext": return v
                return full(w, False)
            if op == "trunc":
                ss = frozenset(x % (1 << w) for x in v.s) if v.s is not None else None
                if ss is not None: return I(min(ss), max(ss), w, v.ql, v.qh, v.org, ss)
                return I(v.lo, v.hi, w, v.ql, v.qh, v.org)
            lo, hi, ql, qh, ss = v.uview() if op == "zext" else v.sview()
            return I(lo, hi, w, ql, qh, v.org, ss)
        if op in ("sitofp", "uitofp"):
            if v.__class__ is not I: return ftop(False)
            lo, hi, ql, qh, _ = v.sview() if op == "sitofp" else v.uview()
            return F(float(lo), float(hi), False, ql and qh, v.org)
        if op in ("fpext", "fptrunc"): return v if v.__class__ is F else ftop(False)
        if op in ("fptosi", "fptoui"):
            w = ty[1]
            if v.__class__ is not F: return full(w, False)
            mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
            if v.nan or v.lo < mn or v.hi > mx: return full(w, v.ex, v.org)
            return I(math.trunc(v.lo), math.trunc(v.hi), w, v.ex, v.ex, v.org)
        return s.unknown(ty)

    def binop(s, op, a, b, w, st, ins):
        r = s.binop0(op, a, b, w, st, ins)
        if r.__class__ is I and r is not a and r is not b and a.__class__ is I and a.sw and b.__class__ is I and b.const and op in ("add", "sub"): r.sw = a.sw
        if r.__class__ is I and a.__class__ is I and b.__class__ is I and r.org and not r.const and (a.org or b.org):
            if b.const and a.org and a.ex:
                # same corner if the bounds are the images of the bounds
                try:
                    if op in ("sdiv", "udiv", "srem", "urem"):
                        l, h = a.sview()[:2] if op[0] == 's' else a.uview()[:2]
                        k = b.lo
                        if l < 0 or k <= 0: return r
                        fl, fh = (l // k, h // k) if op[1:] == "div" else (l % k, h % k)
                    else: fl, fh = s.conc(op, a.lo, b.lo, w), s.conc(op, a.hi, b.lo, w)
                    m = (1 << w) - 1
                    if (fl - r.lo) & m == 0 and (fh - r.hi) & m == 0:
                        c = corner(a)
                        if c is not None:
                            r.cid = c
                            r.ql = r.qh = True
                except ValueError: pass
            elif a.const and b.org and op == "add": r.cid = corner(b)
            elif op in ("add", "or") and a.org and b.org and a.ex and b.ex and r.lo == a.lo + b.lo and r.hi == a.hi + b.hi:
                c = corners(a, b)
                if c is not None:
                    r.cid = c
                    r.ql = r.qh = True
        return r
    def binop0(s, op, a, b, w, st, ins):
        if a.__class__ is not I or b.__class__ is not I:
            # pointer arithmetic in integer form
            if a.__class__ is PT and b.__class__ is I and op in ("add", "sub") and w == 64:
                if op == "sub": b = I(-b.hi, -b.lo, 64, b.qh, b.ql, b.org)
                return s.gep(a, ('i', 8), [(('i', 64), b)])
            if b.__class__ is PT and a.__class__ is I and op == "add" and w == 64:
                return s.gep(b, ('i', 8), [(('i', 64), a)])
            if a.__class__ is PT and b.__class__ is PT and op == "sub":
                return s.ptrdiff(a, b)
            if op in ("sdiv", "udiv", "srem", "urem"): s.div_ob(op, as_int(a, w), as_int(b, w), w, st, ins)
            return full(w, False)
        org = a.org | b.org if (a.org and b.org) else (a.org or b.org)
        cor = bool(a.org and b.org and ((a.org & b.org) or (any(o[0] == "inv" for o in a.org) and any(o[0] == "inv" for o in b.org)))) and not a.const and not b.const
        if a.s is not None and b.s is not None and len(a.s) * len(b.s) <= 64 and op not in ("sdiv", "udiv", "srem", "urem"):
            try:
                ss = frozenset(s.conc(op, x, y, w) for x in a.s for y in b.s)
                if len(ss) <= MAXSET:
                    return I(min(ss), max(ss), w, a.ql and b.ql and not cor, a.qh and b.qh and not cor, org, ss)
            except ValueError: pass
        if op == "add":
            return I(a.lo + b.lo, a.hi + b.hi, w, a.ql and b.ql and not cor, a.qh and b.qh and not cor, org)
        if op == "sub":
            if cor and a == b: return full(w, False, org)
            return I(a.lo - b.hi, a.hi - b.lo, w, a.ql and b.qh and not cor, a.qh and b.ql and not cor, org)
        if op == "mul":
            al, ah, aq, aQ, _ = a.sview(); bl, bh, bq, bQ, _ = b.sview()
            if a.lo >= 0 and b.lo >= 0: al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
            c = [al * bl, al * bh, ah * bl, ah * bh]
            ex = a.ex and b.ex and not cor
            lo, hi = min(c), max(c)
            if al >= 0 and bl >= 0:
                return I(lo, hi, w, a.ql and b.ql and not cor, a.qh and b.qh and not cor, org)
            if b.const and bl > 0: return I(lo, hi, w, aq, aQ, org)
            if a.const and al > 0: return I(lo, hi, w, bq, bQ, org)
            return I(lo, hi, w, ex, ex, org)
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if y.const:
                    m = y.uview()[0]
                    if m == 0: return C(0, w)
                    lo, hi, ql, qh, ss = x.uview()
                    if ss is not None:
                        r = frozenset(z & m for z in ss)
                        return I(min(r), max(r), w, ql, qh, org, r)
                    low = m & -m
                    if (m & (m + 1)) == 0 and hi <= m: return I(lo, hi, w, ql, qh, org)   # plain mask, no effect
                    if low > 1 or (m & (m + 1)):
                        # sparse mask: values 0..m
                        bits = bin(m).count("1")
                        if bits <= 4:
                            vals = {0}
                            for k in range(w):
                                if m >> k & 1: vals |= {z | (1 << k) for z in vals}
                            vals = {z for z in vals if z <= hi or True}
                            fr = frozenset(vals)
                            exq = x.ex
                            return I(0, max(fr), w, exq, exq, org, fr)
                    if hi > m: return I(0, m, w, x.ex, x.ex, org)
                    return I(0, min(hi, m), w, False if lo > 0 else ql, qh and hi <= m and (m & (m + 1)) == 0, org)
            lo1, h1, q1, Q1, _ = a.uview(); lo2, h2, q2, Q2, _ = b.uview()
            return I(0, min(h1, h2), w, False, False, org)
        if op in ("or", "xor"):
            l1, h1, q1, Q1, _ = a.uview(); l2, h2, q2, Q2, _ = b.uview()
            if op == "xor" and b.const and l2 == (1 << w) - 1:      # bitwise not
                return I(-1 - a.hi, -1 - a.lo, w, a.qh, a.ql, org)
            if h2 == 0: return a
            if h1 == 0: return b
            # disjoint bits behave as addition
            k2 = h2.bit_length()
            if op == "or":
                g = s.lowz(ins, 0, st); g2 = s.lowz(ins, 1, st)
                if g >= h2.bit_length() or g2 >= h1.bit_length():
                    return I(l1 + l2, h1 + h2, w, q1 and q2 and not cor, Q1 and Q2 and not cor, org)
            hi = (1 << max(h1.bit_length(), h2.bit_length())) - 1
            return I(max(l1, l2) if op == "or" else 0, hi, w, False, False, org)
        if op == "shl":
            if b.const:
                k = b.lo
                if 0 <= k < w:
                    return I(a.lo << k, a.hi << k, w, a.ql, a.qh, org)
            lo, hi, ql, qh, _ = b.uview()
            if hi >= w: s.ob("shift", ins, "viol" if (qh and st.pq and lo >= w) else "und", "shift amount %d..%d" % (lo, hi)); return full(w, False, org)
            c = [x << k for x in (a.lo, a.hi) for k in (lo, hi)]
            ex = a.ex and b.ex and not cor
            return I(min(c), max(c), w, ex, ex, org)
        if op in ("lshr", "ashr"):
            lo, hi, ql, qh, ss = a.uview() if op == "lshr" else a.sview()
            if b.const and 0 <= b.lo < w:
                return I(lo >> b.lo, hi >> b.lo, w, ql, qh, org)
            l2, h2, q2, Q2, _ = b.uview(); h2 = min(h2, w - 1); l2 = min(l2, w - 1)
            c = [x >> k for x in (lo, hi) for k in (l2, h2)]
            ex = a.ex and b.ex and not cor
            return I(min(c), max(c), w, ex, ex, org)
        if op in ("sdiv", "udiv", "srem", "urem"):
            s.div_ob(op, a, b, w, st, ins)
            al, ah, aq, aQ, _ = a.sview() if op[0] == 's' else a.uview()
            bl, bh, bq, bQ, _ = b.sview() if op[0] == 's' else b.uview()
            if op in ("sdiv", "udiv"):
                bs = []
                for x in (bl, bh, -1, 1):
                    if bl <= x <= bh and x != 0: bs.append(x)
                if not bs: return full(w, False, org)
                q = lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                c = [q(x, y) for x in (al, ah) for y in bs]
                ex = a.ex and b.ex and not cor
                if b.const: 
                    return I(min(c), max(c), w, aq if bl > 0 else aQ, aQ if bl > 0 else aq, org)
                return I(min(c), max(c), w, ex, ex, org)
            m = max(abs(bl), abs(bh)) - 1
            if m < 0: return full(w, False, org)
            if al == ah and bl == bh:
                r = abs(al) % abs(bl); r = -r if al < 0 else r
                return I(r, r, w, aq and aQ and bq and bQ, aq and aQ and bq and bQ, org)
            if b.const and 0 <= al and ah <= m: return I(al, ah, w, aq, aQ, org)
            if al >= 0: return I(0, min(ah, m), w, a.ex and not cor, a.ex and b.ex and not cor, org)
            return I(max(al, -m), min(max(ah, 0), m), w, a.ex and b.ex and not cor, a.ex and b.ex and not cor, org)
        return full(w, False, org)

    def lowz(s, ins, k, st):
        """number of known zero low bits of operand k (from its defining shift / mask)"""
        t, v = ins.a[k]
        for _ in range(4):
            if v[0] == 'c': 
                return 64 if v[1] == 0 else (v[1] & -v[1]).bit_length() - 1
            if v[0] != 'r': return 0
            d = ins.fn.defs.get(v[1])
            if d is None: return 0
            if d.op == "shl" and d.a[1][1][0] == 'c': return d.a[1][1][1]
            if d.op in ("zext", "sext"): v = d.a[0][1]; ins = d; continue
            if d.op == "and" and d.a[1][1][0] == 'c' and d.a[1][1][1]:
                m = d.a[1][1][1]; return (m & -m).bit_length() - 1
            if d.op == "or": return min(s.lowz(d, 0, st), s.lowz(d, 1, st))
            return 0
        return 0

    def conc(s, op, x, y, w):
        M = (1 << w) - 1
        ux, uy = x & M, y & M
        if op == "add": r = x + y
        elif op == "sub": r = x - y
        elif op == "mul": r = x * y
        elif op == "and": r = ux & uy
        elif op == "or": r = ux | uy
        elif op == "xor": r = ux ^ uy
        elif op == "shl":
            if uy >= w: raise ValueError
            r = x << uy
        elif op == "lshr":
            if uy >= w: raise ValueError
            r = ux >> uy
        elif op == "ashr":
            if uy >= w: raise ValueError
            r = (ux - (1 << w) if ux >> (w - 1) else ux) >> uy
        else: raise ValueError
        h = 1 << (w - 1)
        if w == 1: return r & 1
        if -h <= r <= M: return r
        return r & M

    def div_ob(s, op, a, b, w, st, ins):
        bl, bh, bq, bQ, bs = b.sview() if op[0] == 's' else b.uview()
        zero = has(b, 0)
        single = len([o for o in b.org if o[0] != "j"]) <= 1    # an interior value is only attained for sure by an unconstrained operand
        if zero:
            ex = (bq if bl == 0 else bQ if bh == 0 else (bq and bQ and single))
            s.ob("div", ins, "viol" if ex and st.pq else "und", "divisor range %d..%d contains 0" % (bl, bh)); return
        if op in ("sdiv", "srem"):
            al, ah, aq, aQ, as_ = a.sview()
            mn = -(1 << (w - 1))
            m1 = has(b, -1)
            if al == mn and mn not in a.xs and m1:
                ex = aq and (bq if bl == -1 else bQ if bh == -1 else (bq and bQ and single))
                s.ob("div", ins, "viol" if ex and st.pq else "und", "minimum value divided by -1"); return
        s.ob("div", ins, "ok")

    def ptrdiff(s, a, b):
        if len(a.t) == 1 and len(b.t) == 1 and a.t[0].r is b.t[0].r:
            x, y = a.t[0], b.t[0]
            lo = x.off - y.off; hi = lo; q = True
            if not x.ds and not y.ds: return C(lo, 64)
            for d in x.ds: lo += d.lo * d.st; hi += d.hi * d.st; q = q and d.ql and d.qh
            for d in y.ds: lo -= d.hi * d.st; hi -= d.lo * d.st; q = q and d.ql and d.qh
            return I(lo, hi, 64, False, False)
        return full(64, False)

    def fbin(s, op, a, b):
        if a.__class__ is not F or b.__class__ is not F: return ftop(False)
        org = a.org | b.org
        cor = bool(a.org & b.org)
        ex = a.ex and b.ex and not cor
        nan = a.nan or b.nan
        try:
            if op == "fadd": c = [a.lo + b.lo, a.hi + b.hi]
            elif op == "fsub": c = [a.lo - b.hi, a.hi - b.lo]
            elif op == "fmul":
                c = [(0.0 if (x == 0 or y == 0) else x * y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
                if (abs(a.lo) == INF or abs(a.hi) == INF or abs(b.lo) == INF or abs(b.hi) == INF): nan = True
            elif op == "fdiv":
                if b.lo <= 0 <= b.hi: return F(-INF, INF, nan or (a.lo <= 0 <= a.hi), ex, org)
                c = [x / y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            else: return ftop(ex, org)
        except OverflowError:
            return ftop(ex, org)
        if any(x != x for x in c): return F(-INF, INF, True, ex, org)
        return F(min(c), max(c), nan, ex, org)

    # ------------------------------------------------------------ comparison / refinement
    NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
    SWP = {"eq": "eq", "ne": "ne", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}

    def icmp(s, pred, a, b):
        """-> 1, 0, or None"""
        if a.__class__ is I and b.__class__ is I:
            if pred[0] in 'su' and pred not in ("sub",):
                A = a.sview() if pred[0] == 's' else a.uview(); B = b.sview() if pred[0] == 's' else b.uview()
                p = pred[1:]
                if p == "lt": return 1 if A[1] < B[0] else 0 if A[0] >= B[1] else None
                if p == "le": return 1 if A[1] <= B[0] else 0 if A[0] > B[1] else None
                if p == "gt": return 1 if A[0] > B[1] else 0 if A[1] <= B[0] else None
                if p == "ge": return 1 if A[0] >= B[1] else 0 if A[1] < B[0] else None
            if a.xs and b.const and b.sview()[0] in a.xs: return 0 if pred == "eq" else 1 if pred == "ne" else None
            if b.xs and a.const and a.sview()[0] in b.xs: return 0 if pred == "eq" else 1 if pred == "ne" else None
            bl, bh, bs = align(a, b)
            dis = bl > a.hi or bh < a.lo or (a.s is not None and bs is not None and not (a.s & bs)) or \
                (a.s is not None and b.const and bl not in a.s) or (bs is not None and a.const and a.lo not in bs)
            if dis and (a.hi - a.lo < (1 << a.w) - 1) and (bh - bl < (1 << a.w) - 1):
                # make sure no other alignment intersects
                m = 1 << a.w
                if not any(bl + k <= a.hi and bh + k >= a.lo and not (a.s is not None and bs is not None and not (a.s & frozenset(x + k for x in bs))) and not (a.s is not None and b.const and (bl + k) not in a.s) for k in (-m, m)) or (bs is not None and a.s is not None):
                    return 0 if pred == "eq" else 1
            if a.const and b.const and (a.lo - b.lo) % (1 << a.w) == 0:
                return 1 if pred == "eq" else 0
            return None
        if pred in ("eq", "ne"):
            pa, pb = a, b
            if pb.__class__ is I and pb.const and pb.lo == 0: pb = NULL
            if pa.__class__ is PT and pb.__class__ is PT:
                if pb.null == 2 or pa.null == 2:
                    x = pa if pb.null == 2 else pb
                    if x.null == 2: return 1 if pred == "eq" else 0
                    if x.null == 0 and not x.unk: return 0 if pred == "eq" else 1
                    return None
                if not pa.null and not pb.null and not pa.unk and not pb.unk:
                    if not ({l.r for l in pa.t} & {l.r for l in pb.t}): return 0 if pred == "eq" else 1
                    if s.exact and len(pa.t) == 1 and len(pb.t) == 1: return s.icmp(pred, s.ptrdiff(pa, pb), C(0, 64))
                return None
            if pa.__class__ is FN and pb.__class__ is PT and pb.null == 2:
                return 0 if pred == "eq" else 1
        elif s.exact and a.__class__ is PT and b.__class__ is PT and not (a.null or b.null or a.unk or b.unk) and len(a.t) == 1 and len(b.t) == 1:
            return s.icmp("s" + pred[1:], s.ptrdiff(a, b), C(0, 64))      # order within one object
        return None

    def restrict(s, pred, a, b):
        """refine a assuming `a pred b`; None if impossible"""
        if a.__class__ is I and b.__class__ is I:
            if pred == "eq":
                bl, bh, bs = align(a, b)
                ax = b.const or a.ex or a.sw == 3 or (a.ql and a.sw & 2) or (a.qh and a.sw & 1)
                lo, ql = (a.lo, a.ql) if a.lo > bl else (bl, bool(b.ql and ax)) if bl > a.lo else (a.lo, a.ql and b.ql)
                hi, qh = (a.hi, a.qh) if a.hi < bh else (bh, bool(b.qh and ax)) if bh < a.hi else (a.hi, a.qh and b.qh)
                if b.const: ql = qh = True
                if lo > hi: 
                    return None if not (a.isfull() or b.isfull()) else a
                ss = None
                if bs is not None: ss = frozenset(x for x in bs if lo <= x <= hi and (a.s is None or x in a.s))
                elif a.s is not None: ss = frozenset(x for x in a.s if lo <= x <= hi)
                if ss is not None:
                    if not ss: return None
                    lo, hi = min(ss), max(ss)
                return I(lo, hi, a.w, ql, qh, a.org if b.const else a.org | b.org, ss, (a.xs | b.xs) if not b.const else E)
            if pred == "ne":
                if b.const:
                    bl, _, _ = align(a, b)
                    m = 1 << a.w
                    if a.s is not None:
                        ss = frozenset(x for x in a.s if (x - bl) % m)
                        if not ss: return None
                        return I(min(ss), max(ss), a.w, a.ql, a.qh, a.org, ss)
                    lo, hi, ql, qh = a.lo, a.hi, a.ql, a.qh
                    if lo == bl: lo += 1; ql = True if a.ql else False
                    if hi == bl: hi -= 1
                    if lo > hi: return None
                    v = C(bl, a.w).sview()[0]
                    if (lo, hi) == (a.lo, a.hi):
                        if a.w == 1 or not has(a, v) or len(a.xs) > 3: return a
                        r = I(lo, hi, a.w, ql, qh, a.org, None, a.xs | {v}); r.sw = a.sw
                        return r
                    r = I(lo, hi, a.w, ql, qh, a.org, None, a.xs); r.sw = a.sw
                    return r
                return a
            sg = pred[0] == 's'
            A = a.sview() if sg else a.uview(); B = b.sview() if sg else b.uview()
            lo, hi, ql, qh, ss = A
            p = pred[1:]
            org = a.org
            if p in ("lt", "le"):
                lim = B[1] - 1 if p == "lt" else B[1]
                if lim < hi:
                    hi, qh = lim, B[3] and (qh or bool(a.sw & 2))
                    if not b.const: org = org | b.org
                elif lim == hi and b.const: qh = qh or bool(a.sw & 2)
                elif not b.const: org = org | b.org
            else:
                lim = B[0] + 1 if p == "gt" else B[0]
                if lim > lo:
                    lo, ql = lim, B[2] and (ql or bool(a.sw & 1))
                    if not b.const: org = org | b.org
                elif not b.const: org = org | b.org
            if a.xs and lo <= hi:
                while hi in a.xs and hi >= lo: hi -= 1
                while lo in a.xs and lo <= hi: lo += 1
            if lo > hi: return None
            if ss is not None:
                ss = frozenset(x for x in ss if lo <= x <= hi)
                if not ss: return None
                lo, hi = min(ss), max(ss)
            r = I(lo, hi, a.w, ql, qh, org, ss, a.xs)
            r.sw = a.sw & ((1 if lo == A[0] else 0) | (2 if hi == A[1] else 0))
            return r
        if a.__class__ is PT:
            bn = (b.__class__ is PT and b.null == 2) or (b.__class__ is I and b.const and b.lo == 0)
            if bn and pred == "eq":
                if a.null == 0 and not a.unk: return None
                return PT((), 2, a.ex, False, a.tag, a.org)
            if bn and pred == "ne":
                if a.null == 2: return None
                if a.null: return PT(a.t, 0, True, a.unk, a.tag, a.org)
                return a
            return a
        return a

    def set_ref(s, st, op, v):
        """operand op refined to v: write back through its definition"""
        if op[0] != 'r': return
        name = op[1]
        old = st.env.get(name)
        if old is v or old == v: return
        st.env[name] = v
        s.back(st, name, v, 0)

    def back(s, st, name, v, depth):
        c = st.eq.get(name)
        if c is not None:
            r, off, size = c
            d = s.wr(st, r)
            d[off] = (size, v)
            for n, c2 in st.eq.items():
                if n != name and c2 == c and st.env.get(n).__class__ is v.__class__: st.env[n] = v
        d = s.curfn.defs.get(name)
        if d is None or depth > 6: return
        if d.op in ("zext", "sext", "trunc") and v.__class__ is I:
            o = d.a[0]
            if o[1][0] != 'r': return
            x = st.env.get(o[1][1])
            if x.__class__ is not I: return
            if d.op == "trunc":
                if x.lo >= -(1 << (v.w - 1)) and x.hi < (1 << v.w) and v.lo >= x.lo and v.hi <= x.hi:
                    y = I(v.lo, v.hi, x.w, v.ql, v.qh, v.org, v.s, v.xs)
                else: return
            else:
                y = s.restrict("eq", x, I(v.lo, v.hi, x.w, v.ql, v.qh, v.org, v.s)) if (v.hi - v.lo) < (1 << x.w) - 1 else None
                if y is None: return
                m = 1 << x.w
                if (y.lo - v.lo) % m == 0 and (y.hi - v.hi) % m == 0: y = I(y.lo, y.hi, y.w, v.ql, v.qh, v.org, y.s, v.xs if d.op == 'sext' or x.sview()[0] >= 0 else y.xs); y.sw = v.sw
            if y != x:
                st.env[o[1][1]] = y; s.back(st, o[1][1], y, depth + 1)
        elif d.op in ("add", "sub") and v.__class__ is I:
            (t1, o1), (t2, o2) = d.a
            x1 = s.ev(st, t1, o1); x2 = s.ev(st, t2, o2)
            if x1.__class__ is not I or x2.__class__ is not I: return
            if x2.const and o1[0] == 'r': o, x, k, sg = o1, x1, (x2.lo if d.op == "add" else -x2.lo), 1        # v = x + k
            elif x1.const and o2[0] == 'r': o, x, k, sg = o2, x2, x1.lo, (1 if d.op == "add" else -1)           # v = k +- x
            else:
                s.mark_related(st, d); return
            ss = frozenset((z - k) * sg for z in v.s) if v.s is not None else None
            lo, hi, ql, qh = (v.lo - k, v.hi - k, v.ql, v.qh) if sg > 0 else (k - v.hi, k - v.lo, v.qh, v.ql)
            y = s.restrict("eq", x, I(lo, hi, v.w, ql, qh, v.org, ss))
            if y is not None:
                m = 1 << x.w
                if (y.lo - lo) % m == 0 and (y.hi - hi) % m == 0:
                    y = I(y.lo, y.hi, y.w, ql, qh, v.org, y.s); y.sw = v.sw if sg > 0 else ((v.sw & 1) << 1 | (v.sw & 2) >> 1)
            if y is not None and y != x:
                st.env[o[1]] = y; s.back(st, o[1], y, depth + 1)
        elif d.op == "ashr" and v.__class__ is I and d.a[1][1][0] == 'c' and d.a[0][1][0] == 'r':
            k = d.a[1][1][1]
            x = st.env.get(d.a[0][1][1])
            if x.__class__ is not I: return
            lo, hi, ql, qh, _ = v.sview()
            y = s.restrict("sge", x, C(lo << k, v.w))
            if y is not None: y = s.restrict("sle", y, C((hi << k) + (1 << k) - 1, v.w))
            if y is not None and y != x:
                st.env[d.a[0][1][1]] = y; s.back(st, d.a[0][1][1], y, depth + 1)
        elif d.op in ir.BIN and v.__class__ is I:
            s.mark_related(st, d)
        elif d.op == "phi":
            pass

    def mark_related(s, st, d):
        """the result of d was refined but its operands cannot be: whatever is computed
        from them later is no longer known to be attained"""
        regs = [o[1] for t, o in d.a if o[0] == 'r']
        vals = [st.env.get(n) for n in regs]
        if not all(x.__class__ is I for x in vals): return
        if len(regs) == 1 or regs[0] == regs[1]:
            x = vals[0]
            if x.const or not (x.ql or x.qh): return
            n = I(x.lo, x.hi, x.w, False, False, x.org, x.s)
            st.env[regs[0]] = n; s.back(st, regs[0], n, 5)
            return
        org = vals[0].org | vals[1].org | frozenset((("rel", d.res),))
        for n, x in zip(regs, vals):
            if x.const: continue
            y = I(x.lo, x.hi, x.w, x.ql, x.qh, org, x.s)
            st.env[n] = y; s.push_org(st, n, org, 0)

    def push_org(s, st, n, org, depth):
        """propagate origin tags to the definitions / cells a value came from"""
        c = st.eq.get(n)
        if c is not None:
            r, off, size = c
            d = s.wr(st, r)
            x = d.get(off)
            if x is not None and x[1].__class__ is I:
                v = x[1]; d[off] = (x[0], I(v.lo, v.hi, v.w, v.ql, v.qh, v.org | org, v.s))
            for k, c2 in list(st.eq.items()):
                if k != n and c2 == c:
                    v = st.env.get(k)
                    if v.__class__ is I: st.env[k] = I(v.lo, v.hi, v.w, v.ql, v.qh, v.org | org, v.s)
        d = s.curfn.defs.get(n)
        if d is None or depth > 5: return
        if d.op in ("zext", "sext", "trunc") or d.op in ir.BIN:
            for t, o in d.a:
                if o[0] == 'r':
                    v = st.env.get(o[1])
                    if v.__class__ is I and not v.const:
                        st.env[o[1]] = I(v.lo, v.hi, v.w, v.ql, v.qh, v.org | org, v.s)
                        s.push_org(st, o[1], org, depth + 1)

    def assume(s, st, cond, truth):
        """refine st by i1 operand cond == truth; False if infeasible"""
        if cond[0] == 'c': return bool(cond[1]) == truth
        if cond[0] != 'r': return True
        name = cond[1]
        v = st.env.get(name)
        if v.__class__ is I and v.const and (v.lo & 1) != (1 if truth else 0): return False
        st.env[name] = C(1 if truth else 0, 1)
        d = s.curfn.defs.get(name)
        if d is None: return True
        if name in st.eq: s.back(st, name, st.env[name], 0)
        if d.op == "icmp":
            pred = d.x if truth else s.NEG[d.x]
            (t1, o1), (t2, o2) = d.a
            a = s.ev(st, t1, o1); b = s.ev(st, t2, o2)
            if a.__class__ is I and b.__class__ is I and (a.const != b.const): s.cmp_seen(*((a, b) if b.const else (b, a)))
            r = s.icmp(pred, a, b)
            if r == 0: return False
            # boolean tests of widened conditions
            na = s.restrict(pred, a, b)
            if na is None: return False
            nb = s.restrict(s.SWP[pred], b, a)
            if nb is None: return False
            if r is None:
                if st.pq:
                    if not s.witness(pred, a, b): st.pq = False
                    else: s.path_org(st, a, b)
                T = frozenset(o for o in vorg(a) | vorg(b) if o[0] == "j")
                if T:
                    st.jt = st.jt | T
                    na = suborg(na, T); nb = suborg(nb, T)
            if na is not a: s.set_ref(st, o1, na)
            if nb is not b: s.set_ref(st, o2, nb)
            # zext i1 compared with 0
            if o1[0] == 'r' and o2[0] == 'c' and na.__class__ is I and na.const:
                dd = s.curfn.defs.get(o1[1])
                if dd is not None and dd.op in ("zext", "sext") and dd.a[0][0] == ('i', 1) and dd.a[0][1][0] == 'r':
                    if not s.assume(st, dd.a[0][1], (na.lo & 1) == 1): return False
            return True
        if d.op == "xor" and d.a[1][1] == ('c', 1) or d.op == "xor" and d.a[1][1] == ('c', -1):
            return s.assume(st, d.a[0][1], not truth)
        if d.op == "and" and d.ty == ('i', 1) and truth:
            return s.assume(st, d.a[0][1], True) and s.assume(st, d.a[1][1], True)
        if d.op == "or" and d.ty == ('i', 1) and not truth:
            return s.assume(st, d.a[0][1], False) and s.assume(st, d.a[1][1], False)
        if d.op == "trunc" and d.a[0][1][0] == 'r':
            x = st.env.get(d.a[0][1][1])
            if x.__class__ is I and x.s is not None:
                ss = frozenset(z for z in x.s if (z & 1) == (1 if truth else 0))
                if not ss: return False
                nv = I(min(ss), max(ss), x.w, x.ql, x.qh, x.org, ss)
                st.env[d.a[0][1][1]] = nv; s.back(st, d.a[0][1][1], nv, 0)
            elif x.__class__ is I and x.lo >= 0 and x.hi <= 1:
                nv = C(1 if truth else 0, x.w); st.env[d.a[0][1][1]] = nv; s.back(st, d.a[0][1][1], nv, 0)
            return True
        if d.op == "fcmp":
            return s.assume_f(st, d, truth)
        if d.op == "call" and d.x[0] == 'g' and str(d.x[1]).startswith("llvm.is.fpclass") and len(d.a) == 2:
            t1, o1 = d.a[0][:2]; o2 = d.a[1][1]
            a = s.ev(st, t1, o1)
            if a.__class__ is F and o2[0] == 'c':
                m = int(o2[1]) & 1023
                if not truth: m = 1023 & ~m
                fm = FMAX[32 if '32' in str(t1) or str(t1) == 'float' else 64]
                r = fpclass(a, m, fm)
                if r is None: return False
                s.set_f(st, o1, r, 0)
                return True
        if d.op in ("call", "phi", "load") and v.__class__ is I and not v.ex:
            st.pq = False
        return True

    def set_f(s, st, op, v, depth):
        """floating operand op refined to v: also through fabs/fneg"""
        if op[0] != 'r': return
        st.env[op[1]] = v
        d = s.curfn.defs.get(op[1])
        if d is None or depth > 3: return
        if d.op == "call" and d.x[0] == 'g' and (str(d.x[1]).startswith("llvm.fabs") or d.x[1] in ("fabs", "fabsf")):
            k, o = d.a[0][:2]
            x = s.ev(st, k, o)
            if x.__class__ is F and v.hi >= 0:
                lo, hi = max(x.lo, -v.hi), min(x.hi, v.hi)
                if lo <= hi: s.set_f(st, o, F(lo, hi, x.nan and v.nan, x.ex, x.org), depth + 1)
        elif d.op in ("fpext",) :
            k, o = d.a[0][:2]
            x = s.ev(st, k, o)
            if x.__class__ is F:
                lo, hi = max(x.lo, v.lo), min(x.hi, v.hi)
                if lo <= hi: s.set_f(st, o, F(lo, hi, x.nan and v.nan, x.ex, x.org), depth + 1)

    def cmp_seen(s, a, b):
        """the program compares persistent cells with b: widening thresholds for them"""
        for o in a.org:
            if o[0] == "inv":
                s.cmpth.setdefault(o[1:3], set()).add(b.sview()[0] if b.w > 1 else b.lo)
    def witness(s, pred, a, b):
        """does an attained pair of values satisfy a pred b?"""
        if a.__class__ is I and b.__class__ is I:
            if pred[0] in 'su':
                A = a.sview() if pred[0] == 's' else a.uview(); B = b.sview() if pred[0] == 's' else b.uview()
                return A[2] and B[3] if pred[1] == 'l' else A[3] and B[2]
            if pred == "eq":
                if b.const:
                    bl, _, _ = align(a, b)
                    return a.ex or (a.ql and (a.lo == bl or a.sw & 2)) or (a.qh and (a.hi == bl or a.sw & 1))
                if a.const: return s.witness(pred, b, a)
                return a.ex and b.ex
            if b.const:
                bl, _, _ = align(a, b)
                return (a.ql and a.lo != bl) or (a.qh and a.hi != bl)
            if a.const: return s.witness(pred, b, a)
            return a.ex and b.ex
        if a.__class__ is PT and b.__class__ is PT and b.null == 2 and pred == "ne" and a.null == 1:
            return not a.unk or a.ex
        return s.exactv(a) and s.exactv(b)

    def path_org(s, st, *vs):
        """a branch on persistent state: more than two distinct cells on one path may be
        correlated in ways the per-cell invariant does not show"""
        for v in vs:
            if v.__class__ is I and v.org:
                iv = frozenset(o for o in v.org if o[0] == "inv")
                if iv and not iv <= st.rel:
                    st.rel = st.rel | iv
                    if len(st.rel) > 2: st.pq = False

    def assume_f(s, st, d, truth):
        (t1, o1), (t2, o2) = d.a
        a = s.ev(st, t1, o1); b = s.ev(st, t2, o2)
        if a.__class__ is not F or b.__class__ is not F: return True
        pred = d.x
        ordd = pred[0] == 'o'
        cmp = pred[1:]
        if pred in ("ord", "uno", "true", "false"):
            if (pred == "ord") == truth:
                if o1[0] == 'r': st.env[o1[1]] = F(a.lo, a.hi, False, a.ex, a.org)
                if o2[0] == 'r' : 
                    b2 = st.env.get(o2[1])
                    if b2.__class__ is F: st.env[o2[1]] = F(b2.lo, b2.hi, False, b2.ex, b2.org)
            return True
        neg = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
        if not truth:
            cmp = neg[cmp]; ordd = not ordd
        fw = 32 if '32' in str(t1) or str(t1) == 'float' else 64
        def ref(x, c, y, nan):
            lo, hi = x.lo, x.hi
            if c == "lt": hi = min(hi, fnext(y.hi, False, fw))
            elif c == "le": hi = min(hi, y.hi)
            elif c == "gt": lo = max(lo, fnext(y.lo, True, fw))
            elif c == "ge": lo = max(lo, y.lo)
            elif c == "eq": lo = max(lo, y.lo); hi = min(hi, y.hi)
            elif c == "ne" and y.lo == y.hi == hi == INF: hi = FMAX[fw]
            elif c == "ne" and y.lo == y.hi == lo == -INF: lo = -FMAX[fw]
            if lo > hi:
                return None if not nan else F(x.lo, x.hi, True, x.ex, x.org)
            return F(lo, hi, nan, x.ex or (y.lo == y.hi), x.org)
        na = ref(a, cmp, b, a.nan and not ordd)
        swp = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}[cmp]
        nb = ref(b, swp, a, b.nan and not ordd)
        if na is None or nb is None: return False
        s.set_f(st, o1, na, 0)
        s.set_f(st, o2, nb, 0)
        return True

    def exactv(s, v):
        if v.__class__ is I: return v.ql and v.qh
        if v.__class__ is PT: return v.ex and not v.unk
        if v.__class__ is F: return v.ex
        if v.__class__ is FN: return True
        return False

    # ------------------------------------------------------------ liveness & thresholds
    def liveness(s, f):
        r = s.live.get(f.name)
        if r is not None: return r
        use = {}; dfn = {}; phiuse = {}; phid = {}
        for b in f.blocks:
            u = set(); d = set(); phid[b.name] = pd = set()
            for ins in b.ins:
                if ins.op == "phi":
                    pd.add(ins.res)
                    for v, pb in ins.x:
                        if v[0] == 'r': phiuse.setdefault(pb, set()).add(v[1])
                else:
                    for n in s.opnames(ins):
                        if n not in d: u.add(n)
                if ins.res is not None and ins.op != "phi": d.add(ins.res)
            use[b.name], dfn[b.name] = u, d
        live = {b.name: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                o = set(phiuse.get(b.name, ()))
                for c in b.succ: o |= live[c.name] - phid[c.name]
                n = use[b.name] | (o - dfn[b.name])
                if n != live[b.name]:
                    live[b.name] = n; ch = True
        # refinement walks definitions backwards: keep operands of compare chains alive
        for b in f.blocks:
            ext = set()
            work = list(live[b.name])
            while work:
                n = work.pop()
                d = f.defs.get(n)
                if d is None or d.op not in ("icmp", "zext", "sext", "trunc", "xor", "and", "or", "add", "sub", "ashr", "fcmp", "fpext") and not (d.op == "call" and fpcall(d)): continue
                for o in s.opnames(d):
                    if o not in live[b.name] and o not in ext:
                        od = f.defs.get(o)
                        ext.add(o); work.append(o)
            live[b.name] |= ext
        s.live[f.name] = live
        return live
    def opnames(s, ins):
        out = []
        for o in ins.a:
            v = o[1]
            if v[0] == 'r': out.append(v[1])
        if ins.op == "call" and ins.x[0] == 'r': out.append(ins.x[1])
        return out

    def compared(s, f):
        """the constants a loop counter can be compared with in f, and the sizes of its arrays"""
        r = s.thr.get((f.name, "cmp"))
        if r is not None: return r
        t = set()
        for b in f.blocks:
            for ins in b.ins:
                if ins.op == "icmp":
                    for o in ins.a:
                        if o[1][0] == 'c' and (o[1][1] > 3 or o[1][1] < -3): t |= {o[1][1], o[1][1] + 1}
        if len(t) > 12: t = set(sorted(t)[::len(t) // 8])
        r = s.thr[(f.name, "cmp")] = sorted(t)
        return r

    def thresholds(s, f):
        r = s.thr.get(f.name)
        if r is not None: return r
        t = {-1, 0, 1, 2, 255, 256, 65535, -128, 127, -32768, 32767}
        for b in f.blocks:
            for ins in b.ins:
                for o in ins.a:
                    if o[1][0] == 'c':
                        t |= {o[1][1] - 1, o[1][1], o[1][1] + 1}
                if ins.op == "gep":
                    x = s.m.res(ins.x)
                    if x[0] == 'arr': t |= {x[1] - 1, x[1]}
        r = sorted(t); s.thr[f.name] = r
        return r

    # ------------------------------------------------------------ state join
    def jenv(s, a, b, live, da, db, diffs):
        out = {}
        for k in a:
            if k in b and (live is None or k in live):
                x, y = a[k], b[k]
                if x is y: out[k] = x; continue
                if x.__class__ is I and x == y: out[k] = x; continue
                out[k] = j = join(deg(x) if da else x, deg(y) if db else y)
                if not samev(x, y): diffs.append((out, k, j, None))
        return out
    def jmem(s, a, b, da_, db_, diffs):
        out = {}
        for r in a.keys() | b.keys():
            da = a.get(r); db = b.get(r)
            if da is db: out[r] = da; continue
            if da is None: da = {}
            if db is None: db = {}
            d = {}
            for o in da.keys() | db.keys():
                x = da.get(o); y = db.get(o)
                if x is y: d[o] = x; continue
                if x is None or y is None:
                    z = x or y
                    v = z[1]
                    ty = ('i', v.w if v.__class__ is I else z[0] * 8) if v.__class__ is I else ('p',) if v.__class__ in (PT, FN) else ('f', z[0] * 8) if v.__class__ is F else None
                    if ty is None: continue
                    if r.kind == "alloca":
                        # uninitialised on the other path: keep the initialised value, inexact
                        d[o] = z
                        continue
                    dv = s.default(r, o, z[0], ty)
                    if (da_ and x is not None) or (db_ and y is not None): v2 = deg(v)
                    else: v2 = v
                    j = join(v2, dv)
                    d[o] = (z[0], j)
                    if not samev(v, dv): diffs.append((d, o, j, z[0]))
                elif x[0] != y[0]:
                    # different access sizes: keep the narrower view if both are ints
                    k = min(x[0], y[0])
                    if x[1].__class__ is I and y[1].__class__ is I:
                        d[o] = (k, join(s.adapt(x[0], deg(x[1]), k, ('i', k * 8)), s.adapt(y[0], deg(y[1]), k, ('i', k * 8))))
                    continue
                else:
                    if x[1] is y[1] or x[1] == y[1]: d[o] = x; continue
                    v = join(deg(x[1]) if da_ else x[1], deg(y[1]) if db_ else y[1])
                    d[o] = (x[0], v)
                    if not samev(x[1], y[1]): diffs.append((d, o, v, x[0]))
            out[r] = d
        return out
    def jstate(s, a, b, live, tag=None):
        n = State.__new__(State)
        da, db = (not a.pq and b.pq), (not b.pq and a.pq)
        diffs = []
        n.env = s.jenv(a.env, b.env, live, da, db, diffs)
        n.mem = s.jmem(a.mem, b.mem, da, db, diffs); n.own = set()
        n.pq = a.pq or b.pq
        n.eq = {k: v for k, v in a.eq.items() if b.eq.get(k) == v and k in n.env}
        n.rel = a.rel | b.rel if a.rel is not b.rel else a.rel
        n.jt = a.jt | b.jt if a.jt is not b.jt else a.jt
        n.gh = a.gh
        if len(diffs) >= 2:
            # these ranges were joined together: their bounds need not be attained jointly
            t = frozenset((("j", tag),))
            for c, k, v, z in diffs:
                w = addorg(v, t)
                if w is not v: c[k] = w if z is None else (z, w)
        return n
    def wstate(s, old, new, th):
        n = State.__new__(State)
        n.env = {k: (widen(old.env[k], v, th) if k in old.env else v) for k, v in new.env.items()}
        mem = {}
        for r, d in new.mem.items():
            od = old.mem.get(r)
            if od is None or od is d: mem[r] = d; continue
            mem[r] = {o: ((c[0], widen(od[o][1], c[1], th)) if o in od and od[o][0] == c[0] else c) for o, c in d.items()}
        n.mem = mem; n.own = set(); n.pq = new.pq; n.eq = new.eq; n.rel = new.rel; n.jt = new.jt; n.gh = new.gh
        return n
    def eqstate(s, a, b):
        if a.pq != b.pq or a.env.keys() != b.env.keys() or a.rel != b.rel or a.jt != b.jt: return False
        for k, v in a.env.items():
            w = b.env[k]
            if v is not w and v != w: return False
        if a.mem.keys() != b.mem.keys(): return False
        for r, d in a.mem.items():
            e = b.mem[r]
            if d is e: continue
            if d.keys() != e.keys(): return False
            for o, c in d.items():
                c2 = e[o]
                if c is not c2 and (c[0] != c2[0] or (c[1] is not c2[1] and c[1] != c2[1])): return False
        return a.eq == b.eq

    # ------------------------------------------------------------ partition key
    def errkey(s, st):
        if s.errcell is None: return 0
        r, off = s.errcell
        d = st.mem.get(r)
        c = d.get(off) if d else None
        v = c[1] if c else None
        if v is None: return '?'
        if v.__class__ is I:
            if v.const and v.lo == 0: return '0'
            lo, hi, _, _, ss = v.sview()
            if (ss is not None and 0 not in ss) or lo > 0 or hi < 0: return 'N'
        return '?'

    def ekey(s, st):
        return (s.errkey(st), st.gh) if st.gh else s.errkey(st)

    def pphis(s, f, b):
        """phis of block b whose constants partition the state"""
        k = (f.name, b.name)
        c = s.live.get(k)
        if c is not None: return c
        out = []
        isloop = any(p.rpo >= b.rpo for p in b.pred)
        if not isloop:
            for ins in b.ins:
                if ins.op != "phi": break
                if ins.ty[0] == 'i' and (ins.ty[1] == 1 or all(v[0] == 'c' for v, _ in ins.x)):
                    out.append(ins.res)
                elif ins.ty[0] == 'i' and any(v[0] == 'c' for v, _ in ins.x):
                    out.append(ins.res)
                elif ins.ty[0] == 'p' and any(v[0] == 'null' for v, _ in ins.x):
                    out.append(ins.res)
        s.live[k] = out
        return out

    def induct(s, f):
        """phis that the exit conditions of loop heads test"""
        out = set()
        for b in f.rpo:
            if not any(p.rpo >= b.rpo for p in b.pred): continue
            t = b.ins[-1]
            if t.op != "br" or len(t.x) != 2: continue
            if any(i.op == "call" and not (i.x[0] == 'g' and i.x[1].startswith("llvm.dbg")) for i in b.ins): continue
            phis = {i.res for i in b.ins if i.op == "phi" and i.ty[0] == 'i'}
            todo = [t.a[0][1]]; seen = set()
            while todo:
                o = todo.pop()
                if o[0] != 'r' or o[1] in seen: continue
                seen.add(o[1])
                if o[1] in phis: out.add(o[1]); continue
                d = f.defs.get(o[1])
                if d is not None and d in b.ins and d.op in ("icmp", "zext", "sext", "trunc", "add", "sub"): todo += [x[1] for x in d.a]
            # the natural loop of b
            body = {b}; w = [p for p in b.pred if p.rpo >= b.rpo]
            while w:
                x = w.pop()
                if x in body: continue
                body.add(x); w += x.pred
            lv = {t for t in t.x if f.bmap[t] not in body}
            if lv and len(lv) == 1: f.exits[b.name] = next(iter(lv))
        f.first = {}
        for b in f.rpo:
            for i in b.ins:
                if i.op == "phi" and i.res in out:
                    f.first[i.res] = {v[1] for v, q in i.x if v[0] == 'c'}
        # loops of few, constant iterations are unrolled
        f.small = set(); f.dyn = {}
        for h in f.exits:
            d = f.defs.get(f.bmap[h].ins[-1].a[0][1][1]) if f.bmap[h].ins[-1].a[0][1][0] == 'r' else None
            if d is None or d.op != "icmp": continue
            rs = [o[1] for t, o in d.a if o[0] == 'r']; cs = [o[1] for t, o in d.a if o[0] == 'c']
            if len(rs) == 2:
                # the bound is only known at run time
                def strip(r):
                    while r in f.defs and f.defs[r].op in ("zext", "sext") and f.defs[r].a[0][1][0] == 'r': r = f.defs[r].a[0][1][1]
                    return r
                rs = [strip(r) for r in rs]
                for r, q in (rs, rs[::-1]):
                    if r in f.first and len(f.first[r]) == 1 and f.defs[r] in f.bmap[h].ins and (q in f.args or f.defs.get(q) is not None): f.dyn[h] = (r, q)
                continue
            if len(rs) != 1 or len(cs) != 1: continue
            r = rs[0]
            while r in f.defs and f.defs[r].op in ("zext", "sext") and f.defs[r].a[0][1][0] == 'r': r = f.defs[r].a[0][1][1]
            if r in f.first and len(f.first[r]) == 1 and abs(cs[0] - min(f.first[r])) <= 6: f.small.add(r)
        return out
    def exit_known(s, f, b, st):
        """the successor of loop head b when the state decides its condition"""
        rec, s.rec = s.rec, 0
        try: r = s.block(f, b, st.copy(), [])
        finally: s.rec = rec
        n = {t.name for t, _ in r}
        few = None
        if b.name in f.dyn:
            x, q = f.dyn[b.name]
            v = r[0][1].env.get(q) if r else None
            if v.__class__ is I and v.const and v.lo - min(f.first[x]) <= 5: few = x
        return (len(n) == 1 and f.exits[b.name] in n), few

    def key(s, f, b, st, pset):
        k = [s.ekey(st)]
        few = None
        if b.name in f.exits:
            lv, few = s.exit_known(f, b, st)
            if lv: k.append("leaves")
        if pset:
            live = s.liveness(f)[b.name]
            for n in pset:
                if n in live:
                    v = st.env.get(n)
                    if v.__class__ is I and v.const:
                        if n in f.small or n == few: k.append((n, v.lo)); continue
                        if n in f.first and f.defs[n] in b.ins: continue
                        if v.lo not in f.first.get(n, ()): k.append((n, v.lo))
                    elif v.__class__ is PT and v.null != 1: k.append((n, "nul" if v.null == 2 else "ptr"))
        return tuple(k)

    # ------------------------------------------------------------ function execution
    def call_fn(s, f, args, st, ins=None):
        """-> list of (ret value, State) with the caller's env restored"""
        if len(s.stack) > s.maxdepth or f.name in s.stack:
            return [(s.havoc_call(f, args, st), st)]
        s.fnset.add(f.name)
        env0, eq0 = st.env, st.eq
        st = st.copy()
        st.env = {}; st.eq = {}
        for n, v in zip(f.args, args):
            if n is not None: st.env[n] = v
        s.stack.append(f.name); s.chain.append(ins)
        oldfn = getattr(s, "curfn", None)
        s.curfn = f
        try:
            outs = s.run(f, st)
        finally:
            s.stack.pop(); s.chain.pop(); s.curfn = oldfn
        res = []
        for v, o in outs:
            o.env = dict(env0); o.eq = dict(eq0)
            # drop equalities whose cell changed
            if o.eq:
                for n, c in list(o.eq.items()):
                    d0 = st.mem.get(c[0]); d1 = o.mem.get(c[0])
                    if d0 is not d1:
                        x = (d0 or {}).get(c[1]); y = (d1 or {}).get(c[1])
                        if x is not y and (x is None or y is None or x[1] != y[1]): del o.eq[n]
            res.append((v, o))
        return res

    def havoc_call(s, f, args, st):
        return s.unknown(f.ret) if f.ret[0] != 'v' else None

    def run_exact(s, f, st0, limit=4000):
        """constant propagation: follow every decidable path without joining"""
        outs = []; work = [(f.rpo[0], st0)]; n = 0
        while work:
            b, st = work.pop(); n += 1
            if n > limit: raise Budget("%s: too many paths" % f.name)
            for tgt, ns in s.block(f, b, st, outs): work.append((tgt, ns))
        return s.pack(f, outs)

    def run(s, f, st0):
        if s.exact: return s.run_exact(f, st0)
        live = s.liveness(f)
        th = s.thresholds(f)
        if not hasattr(f, "pset"):
            f.exits = {}
            f.pset = s.induct(f)
            for b in f.rpo: f.pset |= set(s.pphis(f, b))
            f.heads = {b.name for b in f.rpo if any(p.rpo >= b.rpo for p in b.pred)}
            f.hasloop = bool(f.heads)
        entry = f.rpo[0]
        IN = {entry.name: {s.key(f, entry, st0, None): st0}}
        import heapq
        work = [entry.rpo]; inw = {entry.rpo}
        visits = {}
        if not f.hasloop:
            outs = []
            for b in f.rpo:
                sts = IN.pop(b.name, None)
                if not sts: continue
                for st in sts.values():
                    for tgt, ns in s.block(f, b, st if len(sts) == 1 or True else st, outs):
                        s.merge(f, IN, tgt, ns, live)
            return s.pack(f, outs)
        # ascending with widening; recording off
        rec, s.rec = s.rec, 0
        sink = []
        it = 0
        while work:
            rp = heapq.heappop(work); inw.discard(rp)
            b = f.rpo[rp]
            it += 1
            if it > 3000: raise Budget("%s: no convergence" % f.name)
            sts = IN.get(b.name)
            if not sts: continue
            for st in list(sts.values()):
                for tgt, ns in s.block(f, b, st.copy(), sink):
                    hd = tgt.name in f.heads and tgt.rpo <= b.rpo
                    if s.merge(f, IN, tgt, ns, live, hd, visits, th):
                        if tgt.rpo not in inw:
                            heapq.heappush(work, tgt.rpo); inw.add(tgt.rpo)
            del sink[:]
        # descending sweeps
        for k in range(2):
            NEW = {entry.name: {s.key(f, entry, st0, None): st0}}
            for b in f.rpo:
                if b.name in f.heads:
                    # contributions of back edges computed from the previous solution
                    for p in b.pred:
                        if p.rpo >= b.rpo and IN.get(p.name):
                            for st in IN[p.name].values():
                                for tgt, ns in s.block(f, p, st.copy(), sink):
                                    if tgt is b: s.merge(f, NEW, b, ns, live)
                            del sink[:]
                sts = NEW.get(b.name)
                if not sts: continue
                for st in list(sts.values()):
                    for tgt, ns in s.block(f, b, st.copy(), sink):
                        if tgt.rpo > b.rpo: s.merge(f, NEW, tgt, ns, live)
                del sink[:]
            IN = NEW
        s.rec = rec
        outs = []
        for b in f.rpo:
            sts = IN.get(b.name)
            if not sts: continue
            for st in sts.values():
                s.block(f, b, st.copy(), outs)
        return s.pack(f, outs)

    def pack(s, f, outs):
        """merge returned states with the same (error status, constant return)"""
        if s.exact and len(s.stack) <= 1 and len(outs) <= 16:
            for v, st in outs: st.env = {}; st.eq = {}
            return outs
        m = {}
        for v, st in outs:
            k = s.ekey(st)
            if v.__class__ is I and v.const: k = (k, v.lo)
            elif v.__class__ is PT: k = (k, v.null == 2, v.null)
            else: k = (k, None)
            if k in m:
                w, o = m[k]
                o2 = s.jstate(o, st, set(), (f.name, 'ret'))
                m[k] = (None if v is None else join(w, v), o2)
            else:
                st.env = {}; st.eq = {}
                m[k] = (v, st)
        if len(m) > 8:
            # too many: merge by error status only
            m2 = {}
            for k, (v, st) in m.items():
                kk = k[0]
                if kk in m2:
                    w, o = m2[kk]; m2[kk] = (None if v is None else join(w, v), s.jstate(o, st, set(), (f.name, 'ret')))
                else: m2[kk] = (v, st)
            m = m2
        return list(m.values())

    def merge(s, f, IN, b, st, live, head=False, visits=None, th=None):
        k = s.key(f, b, st, f.pset)
        tab = IN.setdefault(b.name, {})
        lv = live[b.name]
        if k not in tab and len(tab) >= 10:
            # too many: keep the counters of unrolled loops apart, if that is enough
            cn = f.small | {x for x, _ in f.dyn.values()}
            red = lambda kk: (kk[0],) + tuple(x for x in kk[1:] if x.__class__ is tuple and x[0] in cn)
            if cn and len({red(kk) for kk in tab} | {red(k)}) <= 7:
                k = red(k)
                for kk in list(tab):
                    r = red(kk)
                    if r != kk:
                        o = tab.pop(kk)
                        tab[r] = s.jstate(tab[r], o, lv, (f.name, b.name)) if r in tab else o
            else: k = (k[0],)
            for kk in list(tab) if len(k) == 1 else ():
                if kk[0] == k[0] and kk != k:
                    o = tab.pop(kk)
                    tab[k] = s.jstate(tab[k], o, lv, (f.name, b.name)) if k in tab else o
        old = tab.get(k)
        if old is None:
            if len(st.env) > len(lv):
                st.env = {n: v for n, v in st.env.items() if n in lv}
                st.eq = {n: c for n, c in st.eq.items() if n in lv}
            tab[k] = st
            return True
        new = s.jstate(old, st, lv, (f.name, b.name))
        if head:
            c = visits[(b.name, k)] = visits.get((b.name, k), 0) + 1
            if c > 2:
                new = s.wstate(old, new, th if c < 12 else s.compared(f) if c < 24 else [])
        if s.eqstate(old, new): return False
        tab[k] = new
        return True

    def block(s, f, b, st, outs):
        """execute block from st; -> [(succ block, state)], returns appended to outs"""
        states = [st]
        s.steps += len(b.ins)
        if s.steps > s.maxsteps: raise Budget("step budget")
        for ins in b.ins:
            op = ins.op
            if op == "phi": continue      # done on the edge
            if op in ("br", "switch", "ret", "unreachable"): break
            nst = None
            for q in states:
                r = s.instr(f, ins, q)
                if r is not None:
                    # list of states replaces q
                    if nst is None: nst = [x for x in states[:states.index(q)]]
                    nst += r
                elif nst is not None: nst.append(q)
            if nst is not None:
                states = nst
                if len(states) > 6: states = s.squash(f, states)
                if not states: return []
        res = []
        t = b.ins[-1]
        for q in states:
            if t.op == "ret":
                v = s.ev(q, t.a[0][0], t.a[0][1]) if t.a else None
                outs.append((v, q))
            elif t.op == "unreachable":
                pass
            elif t.op == "br":
                if len(t.x) == 1:
                    res += s.edge(f, b, f.bmap[t.x[0]], q)
                else:
                    q2 = q.copy()
                    c = t.a[0][1]
                    if s.assume(q, c, True): res += s.edge(f, b, f.bmap[t.x[0]], q)
                    if s.assume(q2, c, False): res += s.edge(f, b, f.bmap[t.x[1]], q2)
            elif t.op == "switch":
                res += s.do_switch(f, b, t, q)
        return res

    def squash(s, f, states):
        m = {}
        for q in states:
            k = s.ekey(q)
            m[k] = s.jstate(m[k], q, None, (f.name, 'sq')) if k in m else q
        return list(m.values())

    def do_switch(s, f, b, t, q):
        ty, op = t.a[0]
        v = s.ev(q, ty, op)
        dflt, cases = t.x
        res = []
        if v.__class__ is not I:
            for x in b.succ: res += s.edge(f, b, x, q.copy())
            return res
        rest = v
        T = frozenset(o for o in v.org if o[0] == "j")
        byt = {}
        for c, lab in cases:
            cv = C(c, ty[1])
            if s.icmp("eq", v, cv) == 0: continue
            nv = s.restrict("eq", v, cv)
            if nv is None: continue
            byt.setdefault(lab, []).append(nv)
            if rest is not None: rest = s.restrict("ne", rest, cv)
        for lab, vs in byt.items():
            n = q.copy()
            x = vs[0]
            for y in vs[1:]: x = join(x, y)
            if not v.const and n.pq and not any(s.witness("eq", v, y) for y in vs): n.pq = False
            if not v.const: n.jt = n.jt | T; x = suborg(x, T)
            s.set_ref(n, op, x)
            res += s.edge(f, b, f.bmap[lab], n)
        if rest is not None:
            n = q.copy()
            if rest.lo != v.lo or rest.hi != v.hi or rest.s != v.s:
                n.jt = n.jt | T; rest = suborg(rest, T)
            s.set_ref(n, op, rest)
            if not v.ex: n.pq = False
            # an interval with all its members listed is exhausted
            if not (rest.s is None and rest.hi - rest.lo < 64 and all(any((c - x) % (1 << ty[1]) == 0 for c, _ in cases) for x in range(rest.lo, rest.hi + 1))):
                res += s.edge(f, b, f.bmap[dflt], n)
        return res

    def edge(s, f, b, tgt, st):
        ph = []
        for ins in tgt.ins:
            if ins.op != "phi": break
            for v, pb in ins.x:
                if pb == b.name:
                    ph.append((ins, v)); break
        if not ph: return [(tgt, st)]
        vals = [(ins, s.ev(st, ins.ty, v), v) for ins, v in ph]
        # split on undecided i1 values so that && / || results stay correlated
        out = [st]
        for ins, x, v in vals:
            if ins.ty == ('i', 1) and v[0] == 'r' and x.__class__ is I and not x.const and len(out) == 1:
                q2 = st.copy()
                out = []
                if s.assume(st, v, True): st.env[ins.res] = C(1, 1); out.append(st)
                if s.assume(q2, v, False): q2.env[ins.res] = C(0, 1); out.append(q2)
        for q in out:
            for ins, x, v in vals:
                if not (ins.ty == ('i', 1) and v[0] == 'r' and x.__class__ is I and not x.const and ins.res in q.env and len(out) >= 1 and q.env[ins.res].__class__ is I and q.env[ins.res].const and len(vals) >= 1 and v[1] in q.env and q.env[v[1]].const):
                    q.env[ins.res] = x
                else:
                    q.env[ins.res] = q.env[v[1]]
                c = q.eq.get(v[1]) if v[0] == 'r' else None
                if c is not None: q.eq[ins.res] = c
                elif ins.res in q.eq: del q.eq[ins.res]
        return [(tgt, q) for q in out]

    # ------------------------------------------------------------ instructions
    def root(s, st, o):
        """the value an operand is a copy of: (SSA name | memory cell)"""
        if o[0] != 'r': return None
        n = o[1]
        for _ in range(8):
            c = st.eq.get(n)
            if c is not None: return ("cell",) + c[:2]
            d = s.curfn.defs.get(n)
            if d is None: return n
            if d.op in ("zext", "sext", "trunc", "and") and d.a[0][1][0] == 'r' and (d.op != "and" or d.a[1][1][0] == 'c'):
                x = st.env.get(d.a[0][1][1])
                if x.__class__ is not I: return n
                if d.op == "and":
                    k = d.a[1][1][1]
                    if k < 0: k &= (1 << x.w) - 1
                    if (k & (k + 1)) or x.uview()[1] > k: return n
                elif d.op == "trunc":
                    l, h = x.sview()[:2]
                    if l < -(1 << (d.ty[1] - 1)) or h > (1 << (d.ty[1] - 1)) - 1: return n
                elif x.sview()[0] < 0: return n
                n = d.a[0][1][1]; continue
            return n
        return n

    def instr(s, f, ins, st):
        op = ins.op
        s.curins = ins
        env = st.env
        if st.eq and ins.res in st.eq: del st.eq[ins.res]
        if op == "load":
            ty = ins.ty
            p = s.ev(st, ('p',), ins.a[0][1])
            size = s.m.size(ty)
            s.check_access(st, ins, p, size, "read")
            if s.on_load: s.on_load(s, ins, p, st)
            if p.__class__ is PT and p.t:
                if p.null == 1 and ins.a[0][1][0] == 'r':
                    s.set_ref(st, ins.a[0][1], PT(p.t, 0, True, p.unk, p.tag))
                v = None
                for l in p.t:
                    if EXACT and ty[0] == 'st' and not l.ds:
                        x = AG(tuple(s.load_loc(st, Loc(l.r, l.off + o), s.m.size(t), t) for o, t in zip(s.m.lay(ty)[2], ty[1])))
                    else: x = s.load_loc(st, l, size, ty)
                    v = x if v is None else join(v, x)
                if p.unk: v = join(v, s.unknown(ty, False))
                # which of several targets was read decides both the value and the pointer
                if len(p.t) > 1 and v is not TOP and not (v.__class__ is I and v.const): v = deg(v)
                if v is TOP: v = s.unknown(ty, False)
                if len(p.t) == 1 and not p.unk:
                    l = p.t[0]
                    ks = norm(l.r, l.off, l.ds)
                    if ks and len(ks) == 1 and (ks[0][1]):
                        st.eq[ins.res] = (l.r, ks[0][0], size)
                        # materialise so that refinement has a cell
                        d = st.mem.get(l.r)
                        if d is None or ks[0][0] not in d:
                            if l.r.kind != "data" and not (l.r.kind == "global" and l.r.const and l.r.const.const):
                                s.wr(st, l.r)[ks[0][0]] = (size, v)
                            else: del st.eq[ins.res]
                        elif d[ks[0][0]][0] != size: del st.eq[ins.res]
                    elif ins.res in st.eq: del st.eq[ins.res]
                elif ins.res in st.eq: del st.eq[ins.res]
                env[ins.res] = v
            elif p.__class__ is PT and p.null == 2:
                return []
            else:
                if ins.res in st.eq: del st.eq[ins.res]
                env[ins.res] = s.unknown(ty, False)
            return None
        if op == "store":
            ty, vo = ins.a[0]
            v = s.ev(st, ty, vo)
            p = s.ev(st, ('p',), ins.a[1][1])
            size = s.m.size(ty)
            s.check_access(st, ins, p, size, "write")
            if s.on_store: s.on_store(s, ins, p, v, st)
            if p.__class__ is PT:
                if p.null == 2: return []
                if v.__class__ is AG:
                    t = s.m.res(ty)
                    offs = s.m.lay(t)[2] if t[0] == 'st' else None
                    if offs:
                        for l in p.t:
                            for o, x, ft in zip(offs, v.v, t[1]):
                                s.store_loc(st, Loc(l.r, l.off + o, l.ds), s.m.size(ft), x, len(p.t) > 1)
                    return None
                for l in p.t:
                    s.store_loc(st, l, size, v, len(p.t) > 1 or p.unk)
                if len(p.t) == 1 and not p.unk and vo[0] == 'r' and v.__class__ in (I, PT):
                    l = p.t[0]
                    ks = norm(l.r, l.off, l.ds)
                    if ks and len(ks) == 1 and ks[0][1]:
                        c = st.mem.get(l.r, {}).get(ks[0][0])
                        if c is not None and c[0] == size and c[1] is v: st.eq[vo[1]] = (l.r, ks[0][0], size)
                if p.null == 1 and ins.a[1][1][0] == 'r':
                    s.set_ref(st, ins.a[1][1], PT(p.t, 0, True, p.unk, p.tag))
            return None
        if op == "gep":
            p = s.ev(st, ('p',), ins.a[0][1])
            env[ins.res] = s.gep(p, ins.x, [(t, s.ev(st, t, v)) for t, v in ins.a[1:]])
            if ins.res in st.eq: del st.eq[ins.res]
            return None
        if op == "icmp":
            a = s.ev(st, ins.a[0][0], ins.a[0][1]); b = s.ev(st, ins.a[1][0], ins.a[1][1])
            r = s.icmp(ins.x, a, b)
            if r is None and ins.a[0][1][0] == 'r' and ins.a[1][1][0] == 'r':
                x = s.root(st, ins.a[0][1])
                if x is not None and x == s.root(st, ins.a[1][1]): r = 1 if ins.x in ("eq", "sle", "sge", "ule", "uge") else 0
            if r is None:
                ex = s.exactv(a) and s.exactv(b)
                env[ins.res] = I(0, 1, 1, ex, ex, E, frozenset((0, 1)))
            else: env[ins.res] = C(r, 1)
            return None
        if op in ir.BIN:
            (t, a), (_, b) = ins.a
            a = s.ev(st, t, a); b = s.ev(st, t, b)
            if op[0] == 'f': env[ins.res] = s.fbin(op, a, b)
            else: env[ins.res] = s.binop(op, a, b, t[1], st, ins)
            if ins.res in st.eq: del st.eq[ins.res]
            return None
        if op in ir.CAST:
            t, a = ins.a[0]
            v = s.ev(st, t, a)
            if op in ("fptosi", "fptoui"):
                w = ins.ty[1]
                if v.__class__ is F:
                    mn, mx = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == "fptosi" else (0, (1 << w) - 1)
                    if v.nan or v.lo <= mn - 1 or v.hi >= mx + 1:
                        s.ob("fptoi", ins, "viol" if v.ex and st.pq else "und", "value in [%g,%g]%s converted to a %d-bit integer" % (v.lo, v.hi, " or NaN" if v.nan else "", w))
                    else: s.ob("fptoi", ins, "ok")
                else: s.ob("fptoi", ins, "und", "untracked float")
            elif op == "trunc" and v.__class__ is I and t[1] == 64 and ins.ty[1] == 32:
                lo, hi, ql, qh, _ = v.sview()
                if lo < -(1 << 31) or hi > (1 << 32) - 1:
                    ex = (lo < -(1 << 31) and ql) or (hi > (1 << 32) - 1 and qh)
                    s.ob("trunc", ins, "viol" if ex and st.pq else "und", "wide value %d..%d narrowed to 32 bits" % (lo, hi))
                else: s.ob("trunc", ins, "ok")
            env[ins.res] = s.cast(op, v, ins.ty)
            c = None
            if ins.res in st.eq: del st.eq[ins.res]
            return None
        if op == "call":
            return s.do_call(f, ins, st)
        if op == "alloca":
            key = (tuple(s.stack), ins)
            r = s.heap.get(key)
            if r is None:
                r = s.heap[key] = Region("%%%s in %s" % (ins.res, ir.base(f.name)), s.m.size(ins.x), ins.x, "alloca", s.m, fresh=True)
            if ins.a:
                n = s.ev(st, ins.a[0][0], ins.a[0][1])
                if n.__class__ is I and n.const: r.size = s.m.size(ins.x) * n.lo; r.ty = ('arr', n.lo, ins.x)
                else: r.size = None; r.ty = None
            if r in st.mem: del st.mem[r]
            if st.eq:
                for n in [n for n, c in st.eq.items() if c[0] is r]: del st.eq[n]
            env[ins.res] = PT((Loc(r, 0),))
            return None
        if op == "fcmp":
            a = s.ev(st, ins.a[0][0], ins.a[0][1]); b = s.ev(st, ins.a[1][0], ins.a[1][1])
            ex = s.exactv(a) and s.exactv(b)
            r = s.fcmp(ins.x, a, b)
            env[ins.res] = C(r, 1) if r is not None else I(0, 1, 1, ex, ex, E, frozenset((0, 1)))
            return None
        if op == "select":
            c = s.ev(st, ins.a[0][0], ins.a[0][1])
            if c.__class__ is I and c.const:
                o = ins.a[1] if c.lo & 1 else ins.a[2]
                env[ins.res] = s.ev(st, o[0], o[1]); return None
            q2 = st.copy()
            out = []
            if s.assume(st, ins.a[0][1], True):
                st.env[ins.res] = s.ev(st, ins.a[1][0], ins.a[1][1]); out.append(st)
            if s.assume(q2, ins.a[0][1], False):
                q2.env[ins.res] = s.ev(q2, ins.a[2][0], ins.a[2][1]); out.append(q2)
            if len(out) == 2: out = [s.jstate(out[0], out[1], None, (f.name, ins.res))]
            return out
        if op == "extractvalue":
            v = s.ev(st, ins.a[0][0], ins.a[0][1])
            t = s.m.res(ins.a[0][0])
            for i in ins.x:
                t = s.m.res(t[1][i] if t[0] == 'st' else t[2])
                v = v.v[i] if v.__class__ is AG else None
            ins.ty = t
            env[ins.res] = v if v is not None and v is not TOP else s.unknown(t)
            return None
        if op == "insertvalue":
            v = s.ev(st, ins.a[0][0], ins.a[0][1])
            w = s.ev(st, ins.a[1][0], ins.a[1][1])
            if v.__class__ is AG and len(ins.x) == 1:
                l = list(v.v); l[ins.x[0]] = w; env[ins.res] = AG(tuple(l))
            else: env[ins.res] = s.unknown(ins.ty)
            return None
        if op == "fneg":
            v = s.ev(st, ins.a[0][0], ins.a[0][1])
            env[ins.res] = F(-v.hi, -v.lo, v.nan, v.ex, v.org) if v.__class__ is F else ftop(False)
            return None
        if op in ("atomicrmw", "cmpxchg"):
            p = s.ev(st, ('p',), ins.a[0][1])
            z = s.m.size(ins.a[1][0])
            s.check_access(st, ins, p, z, "atomic update")
            if s.on_store: s.on_store(s, ins, p, None, st)
            if p.__class__ is PT:
                for l in p.t: s.store_loc(st, l, z, full(z * 8, True, frozenset((("at", ins.res),))), True)
            env[ins.res] = s.unknown(ins.ty, True)
            return None
        if op == "freeze":
            env[ins.res] = s.ev(st, ins.a[0][0], ins.a[0][1]); return None
        if op == "fence": return None
        if ins.res is not None:
            env[ins.res] = s.unknown(ins.ty, False)
        return None

    def fcmp(s, pred, a, b):
        if a.__class__ is not F or b.__class__ is not F: return None
        if a.nan or b.nan: return None
        c = pred[1:]
        if c == "lt": return 1 if a.hi < b.lo else 0 if a.lo >= b.hi else None
        if c == "le": return 1 if a.hi <= b.lo else 0 if a.lo > b.hi else None
        if c == "gt": return 1 if a.lo > b.hi else 0 if a.hi <= b.lo else None
        if c == "ge": return 1 if a.lo >= b.hi else 0 if a.hi < b.lo else None
        return None

    # ------------------------------------------------------------ calls
    def do_call(s, f, ins, st):
        cal = ins.x
        if cal[0] == 'asm':
            if ins.res: st.env[ins.res] = s.unknown(ins.ty)
            return None
        args = [s.ev(st, a[0], a[1]) for a in ins.a]
        # byval: copy semantics are approximated by passing the pointer
        if cal[0] == 'g': names = [cal[1]]
        else:
            v = s.ev(st, ('p',), cal)
            if v.__class__ is FN: names = sorted(v.names)
            else: names = []
        if not names:
            if ins.res is not None: st.env[ins.res] = s.unknown(ins.ty)
            s.ob("icall", ins, "und", "unresolved indirect call")
            return None
        outs = []
        for i, n in enumerate(names):
            q = st if len(names) == 1 else st.copy()
            if s.on_call:
                r = s.on_call(s, ins, n, args, q)
                if r is not None:
                    outs += r; continue
            outs += s.call_one(f, ins, n, args, q)
        if len(outs) == 1 and outs[0][1] is st:
            if ins.res is not None: st.env[ins.res] = outs[0][0] if outs[0][0] is not None else s.unknown(ins.ty)
            return None
        res = []
        for v, q in outs:
            if ins.res is not None:
                q.env[ins.res] = v if v is not None else s.unknown(ins.ty)
                if ins.res in q.eq: del q.eq[ins.res]
            res.append(q)
        if len(res) > 1 and (ins.res is None or not s.worth(f, ins)):
            m = {}
            for q in res:
                k = s.ekey(q)
                m[k] = s.jstate(m[k], q, None, (f.name, ins.res or ins.x)) if k in m else q
            res = list(m.values())
        else:
            f.pset.add(ins.res) if ins.res is not None and hasattr(f, "pset") else None
        return res

    def caller_name(s):
        for n in reversed(s.stack):
            b = ir.base(n)
            if not b.endswith("_log"): return b
        return "?"
    def worth(s, f, ins):
        return ins.ty is not None and ins.ty[0] in ('i', 'p')

    def call_one(s, f, ins, name, args, st):
        b = ir.base(name)
        mod = s.models.get(b)
        if mod is not None:
            r = mod(s, ins, args, st)
            if r is not None:
                return r
        fn = s.m.funcs.get(name)
        if fn is None or fn.decl or b in s.opaque:
            import libmodel
            return libmodel.external(s, ins, b, args, st)
        # byval aggregates: copy into a fresh region is unnecessary for read-only callees
        return s.call_fn(fn, args, st, ins)
