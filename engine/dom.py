"""Abstract values: intervals with per-bound exactness, small value sets, pointers as
(region, constant offset, indexed dimensions), floats.

Exactness: a bound is `exact` when the analysis believes that value is really attained
(it comes from a program argument, the environment or a constant comparison), and
inexact when it is an artefact of widening, of correlated operands, or of unknown
memory.  Obligations that fail on an exact bound are violations; those that fail only
on an inexact bound are reported as undecided (never as an alarm)."""
E = frozenset()
MAXSET = 16

class I:
    # cid: the values this one is a function of, such that its upper bound is attained when
    # they are all at their maximum and its lower bound when all are at their minimum
    # sw: bit 0/1 set when the lower/upper bound was extrapolated from a unit-step sweep
    # xs: values strictly inside the interval known to be impossible
    __slots__ = ("lo", "hi", "w", "ql", "qh", "org", "s", "cid", "sw", "xs")
    def __init__(self, lo, hi, w, ql=True, qh=True, org=E, s=None, xs=E):
        self.cid = None; self.sw = 0; self.xs = xs
        m = 1 << w
        if hi - lo >= m - 1 and s is None:
            ex = ql and qh
            lo, hi, ql, qh = -(m >> 1), (m >> 1) - 1, ex, ex
            if w == 1: lo, hi = 0, 1
        elif lo >= m or lo < -m:
            k = (lo // m) * m
            lo -= k; hi -= k
            if s is not None: s = frozenset(x - k for x in s)
        self.lo, self.hi, self.w, self.ql, self.qh, self.org, self.s = lo, hi, w, ql, qh, org, s
    def __eq__(a, b):
        return a is b or (b.__class__ is I and a.lo == b.lo and a.hi == b.hi and a.w == b.w and a.ql == b.ql and a.qh == b.qh and a.s == b.s and a.org == b.org and a.xs == b.xs)
    def __ne__(a, b): return not a == b
    def __hash__(a): return hash((a.lo, a.hi, a.w, a.ql, a.qh))
    def __repr__(a):
        return "%s%d,%d%s:%d%s" % ("[" if a.ql else "~[", a.lo, a.hi, "]" if a.qh else "]~", a.w, "{%s}" % ",".join(map(str, sorted(a.s))) if a.s and len(a.s) > 1 else "")
    @property
    def const(self): return self.lo == self.hi
    @property
    def ex(self): return self.ql and self.qh
    def isfull(self): return self.hi - self.lo >= (1 << self.w) - 1
    def sview(self):
        """signed representation (lo,hi,ql,qh,s)"""
        m = 1 << self.w; h = m >> 1
        if self.w == 1:
            return self.uview()
        lo, hi = self.lo, self.hi
        if self.s is not None:
            s = frozenset(((x + h) % m) - h for x in self.s)
            return min(s), max(s), self.ql, self.qh, s
        k = ((lo + h) // m) * m
        lo -= k; hi -= k
        if hi >= h:
            ex = self.ql and self.qh
            return -h, h - 1, ex, ex, None
        return lo, hi, self.ql, self.qh, None
    def uview(self):
        m = 1 << self.w
        lo, hi = self.lo, self.hi
        if self.s is not None:
            s = frozenset(x % m for x in self.s)
            return min(s), max(s), self.ql, self.qh, s
        k = (lo // m) * m
        lo -= k; hi -= k
        if hi >= m:
            ex = self.ql and self.qh
            return 0, m - 1, ex, ex, None
        return lo, hi, self.ql, self.qh, None

class Base:
    __slots__ = ("org",)
    def __init__(s, org): s.org = org
def corner(v):
    if v.cid is None and v.org and not v.const and not any(o[0] == "inv" for o in v.org):
        v.cid = frozenset((Base(v.org),))
    return v.cid
def corners(a, b):
    """union of the corners of a and b, or None if they may be different views of one origin"""
    x, y = corner(a), corner(b)
    if x is None or y is None: return None
    if x is y: return x
    for p in x - y:
        for q in y - x:
            if p.org & q.org: return None
    for p in x - y:
        for q in x & y:
            if p.org & q.org: return None
    for p in y - x:
        for q in x & y:
            if p.org & q.org: return None
    return x | y

def C(v, w): return I(v, v, w, True, True, E, frozenset((v,)) )
def full(w, ex=True, org=E): 
    m = 1 << w
    if w == 1: return I(0, 1, 1, ex, ex, org, frozenset((0, 1)))
    return I(-(m >> 1), (m >> 1) - 1, w, ex, ex, org)

class F:
    __slots__ = ("lo", "hi", "nan", "ex", "org")
    def __init__(s, lo, hi, nan=False, ex=True, org=E):
        s.lo, s.hi, s.nan, s.ex, s.org = lo, hi, nan, ex, org
    def __eq__(a, b): return a is b or (b.__class__ is F and (a.lo, a.hi, a.nan, a.ex, a.org) == (b.lo, b.hi, b.nan, b.ex, b.org))
    def __ne__(a, b): return not a == b
    def __hash__(a): return hash((a.lo, a.hi))
    def __repr__(a): return "F[%g,%g%s%s]" % (a.lo, a.hi, " nan" if a.nan else "", "" if a.ex else "~")
INF = float("inf")
def ftop(ex=True, org=E): return F(-INF, INF, True, ex, org)

class D:
    """one indexed dimension of a pointer: stride, index interval, bound N (None: unbounded)"""
    __slots__ = ("st", "lo", "hi", "n", "ql", "qh", "org")
    def __init__(s, st, lo, hi, n, ql=True, qh=True, org=E):
        s.st, s.lo, s.hi, s.n, s.ql, s.qh, s.org = st, lo, hi, n, ql, qh, org
    def __eq__(a, b): return a is b or (a.st, a.lo, a.hi, a.n, a.ql, a.qh, a.org) == (b.st, b.lo, b.hi, b.n, b.ql, b.qh, b.org)
    def __ne__(a, b): return not a == b
    def __hash__(a): return hash((a.st, a.lo, a.hi, a.n))
    def __repr__(a): return "*%d[%s%d..%d%s]<%s" % (a.st, "" if a.ql else "~", a.lo, a.hi, "" if a.qh else "~", a.n)

class Loc:
    __slots__ = ("r", "off", "ds")
    def __init__(s, r, off, ds=()):
        s.r, s.off, s.ds = r, off, ds
    def __eq__(a, b): return a is b or (a.r is b.r and a.off == b.off and a.ds == b.ds)
    def __ne__(a, b): return not a == b
    def __hash__(a): return hash((a.r.sn if a.r is not None else 0, a.off))
    def __repr__(a): return "%s+%d%s" % (a.r, a.off, "".join(map(repr, a.ds)))

class PT:
    """pointer: set of locations, null: 0 no / 1 maybe / 2 only null; ex: null-ness exact; unk: may also point to unknown memory"""
    __slots__ = ("t", "null", "ex", "unk", "tag", "org")
    def __init__(s, t, null=0, ex=True, unk=False, tag=None, org=E):
        s.t, s.null, s.ex, s.unk, s.tag, s.org = t, null, ex, unk, tag, org
    def __eq__(a, b): return a is b or (b.__class__ is PT and a.t == b.t and a.null == b.null and a.ex == b.ex and a.unk == b.unk and a.org == b.org)
    def __ne__(a, b): return not a == b
    def __hash__(a): return hash((a.t, a.null))
    def __repr__(a): return "&{%s%s%s}" % (", ".join(map(repr, a.t)), " null?" if a.null == 1 else " NULL" if a.null == 2 else "", " ?" if a.unk else "")
NULL = PT((), 2)
UNKP = PT((), 0, False, True)

class FN:
    __slots__ = ("names",)
    def __init__(s, names): s.names = names
    def __eq__(a, b): return b.__class__ is FN and a.names == b.names
    def __ne__(a, b): return not a == b
    def __hash__(a): return hash(a.names)
    def __repr__(a): return "fn%r" % (sorted(a.names),)

class AG:
    __slots__ = ("v",)
    def __init__(s, v): s.v = v
    def __eq__(a, b): return b.__class__ is AG and a.v == b.v
    def __ne__(a, b): return not a == b
    def __hash__(a): return hash(a.v)
    def __repr__(a): return "AG%r" % (a.v,)

class _Top:
    def __repr__(s): return "TOP"
TOP = _Top()

def as_int(v, w, ex=False):
    if v.__class__ is I:
        if v.w == w: return v
        return I(v.lo, v.hi, w, v.ql, v.qh, v.org, v.s)
    if v.__class__ is PT and v.null == 2: return C(0, w)
    return full(w, ex)

def align(a, b):
    """shift b by multiples of 2^w to lie closest to a; returns (lo,hi,s) of b"""
    m = 1 << a.w
    best = None
    base = ((a.lo - b.lo) // m) * m
    for k in (base - m, base, base + m, base + 2 * m):
        lo = min(a.lo, b.lo + k); hi = max(a.hi, b.hi + k)
        c = (hi - lo, abs(lo))
        if best is None or c < best[0]: best = (c, k)
    k = best[1]
    return b.lo + k, b.hi + k, (frozenset(x + k for x in b.s) if b.s is not None and k else b.s)

def has(a, v):
    """may the signed value v be a value of a?"""
    if v in a.xs: return False
    lo, hi, _, _, ss = a.sview()
    return v in ss if ss is not None else lo <= v <= hi

def joinI(a, b):
    if a.w != b.w:
        w = max(a.w, b.w)
        a = I(a.lo, a.hi, w, a.ql, a.qh, a.org, a.s); b = I(b.lo, b.hi, w, b.ql, b.qh, b.org, b.s)
    # prefer the natural representation when it is already tight
    bl, bh, bs = align(a, b)
    if bl < a.lo: lo, ql = bl, b.ql
    elif bl > a.lo: lo, ql = a.lo, a.ql
    else: lo, ql = a.lo, a.ql or b.ql
    if bh > a.hi: hi, qh = bh, b.qh
    elif bh < a.hi: hi, qh = a.hi, a.qh
    else: hi, qh = a.hi, a.qh or b.qh
    s = None
    if a.s is not None and bs is not None:
        s = a.s | bs
        if len(s) > MAXSET: s = None
    r = I(lo, hi, a.w, ql, qh, a.org | b.org if a.org is not b.org else a.org, s)
    if (a.xs or b.xs) and (a.xs or a.s is not None or a.lo > 0 or a.hi < 0):
        x = frozenset(v for v in a.xs | b.xs if not has(a, v) and not has(b, v))
        if x: r.xs = x
    if a.sw or b.sw:
        if a.sw & 1 and lo == a.lo or b.sw & 1 and lo == bl: r.sw |= 1
        if a.sw & 2 and hi == a.hi or b.sw & 2 and hi == bh: r.sw |= 2
    return r

def deg(v):
    """v with no bound known to be attained"""
    c = v.__class__
    if c is I:
        if not (v.ql or v.qh): return v
        r = I(v.lo, v.hi, v.w, False, False, v.org, v.s, v.xs); r.sw = v.sw; return r
    if c is PT:
        if not v.t and v.null == 2: return PT((), 2, False, v.unk, v.tag, v.org)
        return PT(tuple(Loc(l.r, l.off, tuple(D(d.st, d.lo, d.hi, d.n, False, False, d.org) for d in l.ds)) for l in v.t), v.null, False if v.null else v.ex, v.unk, v.tag, v.org)
    if c is F: return F(v.lo, v.hi, v.nan, False, v.org)
    return v

def vorg(v):
    c = v.__class__
    if c is I or c is F: return v.org
    if c is PT:
        o = v.org
        for l in v.t:
            for d in l.ds: o = o | d.org
        return o
    return E

def addorg(v, t):
    c = v.__class__
    if c is I:
        if v.const: return v
        r = I(v.lo, v.hi, v.w, v.ql, v.qh, v.org | t, v.s, v.xs); r.sw = v.sw; return r
    if c is F: return F(v.lo, v.hi, v.nan, v.ex, v.org | t)
    if c is PT:
        return PT(tuple(Loc(l.r, l.off, tuple(D(d.st, d.lo, d.hi, d.n, d.ql, d.qh, d.org | t) for d in l.ds)) for l in v.t), v.null, v.ex, v.unk, v.tag, v.org | t)
    return v
def suborg(v, t):
    c = v.__class__
    if not (vorg(v) & t): return v
    if c is I:
        r = I(v.lo, v.hi, v.w, v.ql, v.qh, v.org - t, v.s, v.xs); r.sw = v.sw; r.cid = None; return r
    if c is F: return F(v.lo, v.hi, v.nan, v.ex, v.org - t)
    if c is PT:
        return PT(tuple(Loc(l.r, l.off, tuple(D(d.st, d.lo, d.hi, d.n, d.ql, d.qh, d.org - t) for d in l.ds)) for l in v.t), v.null, v.ex, v.unk, v.tag, v.org - t)
    return v
def samev(x, y):
    """equal ranges, origins aside"""
    if x is y: return True
    c = x.__class__
    if c is not y.__class__: return False
    if c is I: return x.lo == y.lo and x.hi == y.hi and x.s == y.s and x.ql == y.ql and x.qh == y.qh and x.xs == y.xs
    if c is F: return (x.lo, x.hi, x.nan, x.ex) == (y.lo, y.hi, y.nan, y.ex)
    if c is PT: return x.null == y.null and x.unk == y.unk and len(x.t) == len(y.t) and all(a.r is b.r and a.off == b.off and len(a.ds) == len(b.ds) and all((d.st, d.lo, d.hi, d.n) == (e.st, e.lo, e.hi, e.n) for d, e in zip(a.ds, b.ds)) for a, b in zip(x.t, y.t))
    return x == y

def norm_ds(ds):
    return tuple(sorted(ds, key=lambda d: (-d.st, -(d.n or 0))))

def join_loc(a, b):
    """join two locations of the same region"""
    if a == b: return a
    da = {(d.st, d.n): d for d in a.ds}; db = {(d.st, d.n): d for d in b.ds}
    diff = b.off - a.off
    out = []
    keys = set(da) | set(db)
    absorbed = diff == 0
    ks = sorted(keys, key=lambda k: (-k[0], -(k[1] or 0)))
    tgt = None
    if diff:
        for k in ks:
            if k[0] and diff % k[0] == 0:
                tgt = k; break
    for k in ks:
        x = da.get(k); y = db.get(k)
        if x is None: x = D(k[0], 0, 0, k[1])
        if y is None: y = D(k[0], 0, 0, k[1])
        dl = diff // k[0] if tgt == k else 0
        ylo, yhi = y.lo + dl, y.hi + dl
        lo, ql = (x.lo, x.ql) if x.lo < ylo else (ylo, y.ql) if ylo < x.lo else (x.lo, x.ql or y.ql)
        hi, qh = (x.hi, x.qh) if x.hi > yhi else (yhi, y.qh) if yhi > x.hi else (x.hi, x.qh or y.qh)
        out.append(D(k[0], lo, hi, k[1], ql, qh, x.org | y.org))
    off = a.off
    if diff and tgt is None:
        st = abs(diff)
        off = min(a.off, b.off)
        out.append(D(st, 0, 1, None))
    return Loc(a.r, off, norm_ds(out))

def joinP(a, b):
    t = list(a.t)
    for l in b.t:
        for i, m in enumerate(t):
            if m.r is l.r:
                if m == l: break
                # same region: join unless clearly distinct constant fields (keep up to 6)
                if not m.ds and not l.ds and sum(1 for z in t if z.r is l.r) < 6 and not any(z == l for z in t):
                    continue
                t[i] = join_loc(m, l); break
        else:
            t.append(l)
    if len(t) > 24:
        return PT((), 1 if (a.null or b.null) else 0, False, True, None, a.org | b.org)
    null = a.null if a.null == b.null else 1
    ex = (a.ex if a.null else True) and (b.ex if b.null else True)
    return PT(tuple(t), null, ex, a.unk or b.unk, a.tag if a.tag == b.tag else None, a.org | b.org)

def join(a, b):
    if a is b: return a
    ca, cb = a.__class__, b.__class__
    if ca is I and cb is I:
        if a == b: return a
        return joinI(a, b)
    if ca is PT and cb is PT:
        if a == b: return a
        return joinP(a, b)
    if ca is F and cb is F:
        if a == b: return a
        return F(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan, a.ex and b.ex, a.org | b.org)
    if ca is FN and cb is FN: return FN(a.names | b.names)
    if ca is AG and cb is AG and len(a.v) == len(b.v):
        return AG(tuple(join(x, y) for x, y in zip(a.v, b.v)))
    if ca is PT and cb is I and b.const and b.lo == 0: return joinP(a, NULL)
    if cb is PT and ca is I and a.const and a.lo == 0: return joinP(b, NULL)
    return TOP

def widen_bound(lo, hi, olo, ohi, th, w):
    """old (olo,ohi) -> new (lo,hi): jump to thresholds"""
    import bisect
    nlo, nhi = olo, ohi
    if lo < olo:
        k = bisect.bisect_right(th, lo) - 1
        nlo = th[k] if k >= 0 else -(1 << (w - 1))
    if hi > ohi:
        k = bisect.bisect_left(th, hi)
        nhi = th[k] if k < len(th) else (1 << (w - 1)) - 1
    return nlo, nhi

def widen(a, b, th):
    """a: old, b: new (already joined with a)"""
    if a is b: return a
    if a.__class__ is I and b.__class__ is I:
        if a == b: return a
        # loop counters of unsigned type grow towards 2^w; keep them signless
        lo, hi = widen_bound(b.lo, b.hi, a.lo, a.hi, th, b.w)
        if b.w > 1 and a.lo >= 0 and lo >= 0 and hi >= (1 << (b.w - 1)) - 1:
            hi = max(hi, (1 << (b.w - 1)) - 1)
        r = I(lo, hi, b.w, b.ql if lo == b.lo else False, b.qh if hi == b.hi else False, b.org, None if (lo != b.lo or hi != b.hi) else b.s)
        r.sw = b.sw | a.sw
        if b.xs and a.xs: r.xs = a.xs & b.xs
        if b.lo == a.lo - 1 and (a.ql or a.sw & 1): r.sw |= 1
        if b.hi == a.hi + 1 and (a.qh or a.sw & 2): r.sw |= 2
        return r
    if a.__class__ is PT and b.__class__ is PT:
        out = []
        for l in b.t:
            o = [m for m in a.t if m.r is l.r]
            if not o or l in a.t: out.append(l); continue
            nd = []
            od = {(d.st, d.n): d for x in o for d in x.ds}
            for d in l.ds:
                p = od.get((d.st, d.n))
                if p is None: nd.append(d); continue
                lo, hi = widen_bound(d.lo, d.hi, p.lo, p.hi, th, 48)
                nd.append(D(d.st, lo, hi, d.n, d.ql if lo == d.lo else False, d.qh if hi == d.hi else False, d.org))
            out.append(Loc(l.r, l.off, tuple(nd)))
        return PT(tuple(out), b.null, b.ex, b.unk, b.tag, b.org)
    if a.__class__ is F and b.__class__ is F:
        return F(b.lo if b.lo >= a.lo else -INF, b.hi if b.hi <= a.hi else INF, b.nan, b.ex, b.org)
    return b
