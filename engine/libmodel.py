"""Models of functions outside the analysed sources (C library, thread and window
libraries).  Each returns [(value, state)].  Library calls that can fail are modelled
as failing or succeeding; data read from files is arbitrary."""
import math
from dom import *
import ir

NOEFF = {"printf", "fprintf", "puts", "putchar", "fputs", "srand", "sfRenderWindow_clear", "sfRenderWindow_close",
    "sfRenderWindow_destroy", "sfRenderWindow_display", "sfRenderWindow_drawSprite", "sfRenderWindow_drawVertexArray",
    "sfRenderWindow_setFramerateLimit", "sfRenderWindow_setView", "sfShader_destroy", "sfShader_setBoolUniform",
    "sfShader_setCurrentTextureUniform", "sfShader_setFloatUniform", "sfShader_setTextureUniform", "sfSprite_destroy",
    "sfSprite_setTexture", "sfTexture_destroy", "sfTexture_updateFromPixels", "sfTransform_translate",
    "sfVertexArray_append", "sfVertexArray_destroy", "sfVertexArray_resize", "sfVertexArray_setPrimitiveType",
    "sfView_destroy", "sfView_setViewport", "mtx_destroy", "rewind", "free",
    "thrd_create", "thrd_join", "usleep", "llvm.dbg.declare", "llvm.dbg.label", "llvm.dbg.value",
    "llvm.stackrestore.p0", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0"}

def mem_ob(it, st, ins, p, n, what):
    """n: I, unsigned byte count"""
    lo, hi, ql, qh, _ = n.uview() if n.__class__ is I else (0, 1 << 62, False, False, None)
    if hi == 0: return
    if p.__class__ is I and p.const and p.lo == 0 or p.__class__ is PT and p.null == 2:
        it.ob("null", ins, "viol" if (st.pq and lo > 0) else "und", what + " through null"); return
    if p.__class__ is not PT:
        it.ob("bound", ins, "und", what + " through unknown pointer"); return
    if p.null: it.ob("null", ins, "viol" if (p.ex and st.pq and lo > 0) else "und", what + " through a pointer that can be null", p.tag)
    else: it.ob("null", ins, "ok")
    if p.unk: it.ob("bound", ins, "und", "pointer not tracked")
    for l in p.t:
        # offset and length computed from the same quantity do not reach their bounds together
        j = lo != hi and any(d.lo != d.hi and (d.org & n.org) for d in l.ds)
        it.check_loc(st, ins, block_loc(l, hi), hi, what, qh and not j)

def block_loc(l, n):
    """a block access may run across the elements of one array: keep only the region bound
    for dimensions smaller than the block"""
    ds = tuple(D(d.st, d.lo, d.hi, None if (d.n is not None and d.st < n) else d.n, d.ql, d.qh, d.org) for d in l.ds)
    return Loc(l.r, l.off, ds)

def clobber(it, st, p, n, ex=False, val=None):
    """forget (or set to val byte) what p..p+n may hold"""
    if p.__class__ is not PT: return
    hi = n.uview()[1] if n.__class__ is I else 1 << 40
    cn = n.__class__ is I and n.const
    for l in p.t:
        r = l.r
        if it.on_write and hi: it.on_write(it, st, l, hi, val)
        if r.kind in ("data", "sink", "code"): continue
        d = it.wr(st, r)
        cs = cells(it, r)
        lo0, hi0 = l.off, l.off
        for x in l.ds: lo0 += x.lo * x.st; hi0 += x.hi * x.st
        sure = cn and not l.ds and len(p.t) == 1 and not p.unk
        if not cn and r.ty is not None:
            # writing past the object the pointer designates is a violation of its own at
            # this access; what follows is not analysed further
            a, b = array_at(it, r, l.off)
            if lo0 < a: lo0 = a
            if hi0 + hi > b: hi = max(b - hi0, 0)
        done = set()
        for o, sz, ty, el, eh in cs:
            if eh <= lo0 or el >= hi0 + hi: continue
            done.add(o)
            if val == 0:
                z = C(0, ty[1]) if ty[0] == 'i' else NULL if ty[0] == 'p' else F(0.0, 0.0)
            elif val is not None and ty[0] == 'i':
                z = C(int.from_bytes(bytes([val & 255]) * sz, 'little'), ty[1])
            else: z = it.unknown(ty, ex, frozenset((("io", r.name, o),)) if ex else E)
            if sure and lo0 <= el and eh <= lo0 + hi: d[o] = (sz, z)
            else:
                if val is None: z = deg(z)
                c = d.get(o)
                if c is None and r.kind == "alloca": d[o] = (sz, z)
                else: d[o] = (sz, join(it.adapt(c[0], c[1], sz, ty) if c else it.default(r, o, sz, ty), z))
        for o in list(d):
            if o in done: continue
            sz, v = d[o]
            if o + sz <= lo0 or o >= hi0 + hi: continue
            ty = _ty(sz, v)
            if ty is None: del d[o]; continue
            if val == 0: z = C(0, ty[1]) if ty[0] == 'i' else NULL if ty[0] == 'p' else F(0.0, 0.0)
            elif val is not None and ty[0] == 'i': z = C(int.from_bytes(bytes([val & 255]) * sz, 'little'), ty[1])
            else: z = it.unknown(ty, ex, frozenset((("io", r.name, o),)) if ex else E)
            d[o] = (sz, z if sure and lo0 <= o and o + sz <= lo0 + hi else join(v, deg(z)))
    if st.eq:
        rs = {l.r for l in p.t}
        for k in [k for k, c in st.eq.items() if c[0] in rs]: del st.eq[k]

def _ty(sz, v):
    if v.__class__ is I: return ('i', v.w)
    if v.__class__ in (PT, FN): return ('p',)
    if v.__class__ is F: return ('f', sz * 8)
    return ('i', sz * 8) if sz in (1, 2, 4, 8) else None

def array_at(it, r, off):
    """extent of the outermost array (of arrays) of scalars, or scalar, that holds byte off"""
    m = it.m; t = r.ty; base = 0; ext = None
    if off < 0 or (r.size is not None and off >= r.size): return (off, off)
    for _ in range(60):
        t = m.res(t)
        if t[0] == 'st':
            offs = m.lay(t)[2]; i = 0
            for j, o in enumerate(offs):
                if o <= off - base: i = j
            base += offs[i]; t = t[1][i]; ext = None
        elif t[0] == 'arr':
            es = m.size(t[2]) or 1
            if ext is None: ext = (base, base + es * t[1])
            base += (off - base) // es * es; t = t[2]
        else: return ext or (base, base + m.size(t))
    return (0, r.size)

def cells(it, r, limit=1500):
    """typed leaf cells of a region: (key, size, type, extent lo, extent hi); a smashed
    array appears once with the extent of all its elements"""
    c = r.cache.get("cells")
    if c is not None: return c
    out = []
    m = it.m
    def go(t, base, path, ext):
        while t[0] == 'ns': path = path + (t[1],); t = m.structs[t[1]]
        if len(out) > limit: return
        if t[0] == 'st':
            for o, x, i in zip(m.lay(t)[2], t[1], range(len(t[1]))): go(x, base + o, path + (i,), ext)
        elif t[0] == 'arr':
            es = m.size(t[2])
            if r.precise(t[2], t[1], path):
                for i in range(t[1]): go(t[2], base + i * es, path + ("[]",), ext)
            elif t[1]:
                go(t[2], base, path + ("[]",), ext or ((base, base + t[1] * es) if t[1] > 1 else None))
        elif t[0] in ('i', 'p', 'f'):
            z = m.size(t)
            out.append((base, z, t) + (ext or (base, base + z)))
    if r.ty: go(r.ty, 0, (), None)
    if len(out) > limit: out = []
    r.cache["cells"] = out
    return out

def walk(it, t, limit=600):
    """leaves of a type with array dimensions: [(offset, dims, size, type)]"""
    m = it.m
    out = []
    def go(t, base, ds):
        t = m.res(t)
        if len(out) > limit: return
        if t[0] == 'st':
            for o, x in zip(m.lay(t)[2], t[1]): go(x, base + o, ds)
        elif t[0] == 'arr':
            es = m.size(t[2])
            if t[1] <= 4:
                for i in range(t[1]): go(t[2], base + i * es, ds)
            elif t[1]: go(t[2], base, ds + (D(es, 0, t[1] - 1, t[1], False, False),))
        elif t[0] in ('i', 'p', 'f'): out.append((base, ds, m.size(t), t))
    go(t, 0, ())
    return out if len(out) <= limit else None

def type_at(it, r, l, n):
    """type of the object of exactly n bytes at location l, or None"""
    t = r.ty; off = l.off; m = it.m
    if t is None: return None
    for _ in range(40):
        if off == 0 and m.size(t) == n: return t
        t = m.res(t)
        if t[0] == 'st':
            offs = m.lay(t)[2]; i = 0
            for j, o in enumerate(offs):
                if o <= off: i = j
            off -= offs[i]; t = t[1][i]
        elif t[0] == 'arr':
            es = m.size(t[2])
            if not es: return None
            off %= es; t = t[2]
        else: return None
    return None

def copy(it, st, dst, src, n):
    """memcpy of typed cells when both are simple; otherwise forget the destination"""
    if dst.__class__ is PT and src.__class__ is PT and n.__class__ is I and n.const and len(dst.t) == 1 and not dst.unk:
        dl = dst.t[0]
        N = n.uview()[0]
        if it.exact and len(src.t) == 1 and not src.unk and dl.r.kind in ("alloca", "heap") and src.t[0].r.kind in ("alloca", "heap") and dl.r.pid is None and src.t[0].r.pid is None \
           and all(x.lo == x.hi for x in dl.ds + src.t[0].ds) and dl.r is not src.t[0].r:
            a = dl.off + sum(x.lo * x.st for x in dl.ds); sl = src.t[0]; b = sl.off + sum(x.lo * x.st for x in sl.ds)
            sd = st.mem.get(sl.r) or {}
            if N <= 512 and any(b <= o < b + N for o in sd):
                d = it.wr(st, dl.r)
                for o in range(a, a + N): d.pop(o, None)
                for o in range(b, b + N):
                    if o in sd: d[a + o - b] = sd[o]
                for k in [k for k, c in st.eq.items() if c[0] is dl.r]: del st.eq[k]
                return
        if N > 256 and len(src.t) == 1 and dl.r.ty is not None and src.t[0].r.ty is not None and dl.r.kind not in ("data", "sink", "code"):
            sl = src.t[0]
            t = type_at(it, dl.r, dl, N)
            if t is not None and type_at(it, sl.r, sl, N) is not None:
                w = walk(it, t)
                if w is not None:
                    if it.on_write and dl.r.kind != "alloca" and not dl.ds: it.on_write(it, st, dl, N, None)
                    vals = [(o, ds, z, ty, it.load_loc(st, Loc(sl.r, sl.off + o, norm_ds(sl.ds + ds)), z, ty)) for o, ds, z, ty in w]
                    from absint import norm
                    for o, ds, z, ty, v in vals:
                        loc = Loc(dl.r, dl.off + o, norm_ds(dl.ds + ds))
                        if not dl.ds:
                            ks = norm(dl.r, loc.off, loc.ds)
                            d = it.wr(st, dl.r)
                            for k, _ in ks: d[k] = (z, v)
                            if not ks: it.store_loc(st, loc, z, v, False)
                        else: it.store_loc(st, loc, z, v, False)
                    if st.eq:
                        for k in [k for k, c in st.eq.items() if c[0] is dl.r]: del st.eq[k]
                    return
        if N <= 4096 and not (dl.r.kind in ("data", "sink", "code")):
            srcs = []
            ok = bool(src.t) and not src.unk
            for sl in src.t:
                cs = []
                if sl.r.ty is not None:
                    # leaf layout of the source object relative to its location
                    lay = leafs(it, sl.r, sl, N)
                    if lay is None: ok = False; break
                    for o, sz, ty in lay:
                        cs.append((o, sz, it.load_loc(st, Loc(sl.r, sl.off + o, sl.ds), sz, ty)))
                else:
                    lay = leafs(it, dl.r, dl, N) if dl.r.ty is not None else None
                    if lay is None: ok = False; break
                    for o, sz, ty in lay:
                        cs.append((o, sz, it.load_loc(st, Loc(sl.r, sl.off + o, sl.ds), sz, ty)))
                srcs.append(cs)
            if ok:
                m = {}
                for cs in srcs:
                    for o, sz, v in cs:
                        if o in m: m[o] = (sz, join(m[o][1], v)) if m[o][0] == sz else (sz, TOP)
                        else: m[o] = (sz, v)
                for o, (sz, v) in m.items():
                    if v is TOP: continue
                    it.store_loc(st, Loc(dl.r, dl.off + o, dl.ds), sz, v, False)
                return
    # contents: inexact
    clobber(it, st, dst, n)

def leafs(it, r, l, n):
    """leaf layout of n bytes at l: [(rel offset, size, type)] or None"""
    t = r.ty; off = l.off
    ds = list(l.ds)
    m = it.m
    # descend to the object starting at off with size >= n
    for _ in range(40):
        t = m.res(t)
        if t[0] == 'st':
            if off == 0 and m.size(t) == n: break
            offs = m.lay(t)[2]; i = 0
            for j, o in enumerate(offs):
                if o <= off: i = j
            if off == 0 and m.size(t[1][i]) < n: break
            off -= offs[i]; t = t[1][i]
        elif t[0] == 'arr':
            es = m.size(t[2])
            if es >= n and es:
                off %= es; t = t[2]
            else: break
        else: break
    if off != 0: return None
    out = []
    def go(t, base):
        t = m.res(t)
        if base >= n or len(out) > 300: return
        if t[0] == 'st':
            for o, x in zip(m.lay(t)[2], t[1]): go(x, base + o)
        elif t[0] == 'arr':
            es = m.size(t[2])
            for i in range(t[1]):
                go(t[2], base + i * es)
                if len(out) > 300: return
        elif t[0] in ('i', 'p', 'f') and base + m.size(t) <= n: out.append((base, m.size(t), t))
    go(t, 0)
    if len(out) > 300: return None
    return out

def newheap(it, ins, st, size, zero, name):
    key = (tuple(it.chain), ins)
    r = it.heap.get(key)
    n = size.uview()[0] if size.__class__ is I and size.const else None
    if r is None:
        r = it.heap[key] = it.new_region("allocation of %s" % name, n, None, "zeroheap" if zero else "heap")
    elif r.size != n: r.size = n
    return PT((Loc(r, 0),))

def _sz(it, a):
    return it.cast("sext", a, ('i', 64)) if a.__class__ is I and a.w == 32 else as_int(a, 64)

def m_malloc(it, ins, args, st):
    return [(newheap(it, ins, st, _sz(it, args[0]), False, it.caller_name()), st)]
def m_calloc(it, ins, args, st):
    n = it.binop("mul", _sz(it, args[0]), _sz(it, args[1]), 64, st, ins)
    return [(newheap(it, ins, st, n, True, it.caller_name()), st)]
def m_free(it, ins, args, st): return [(None, st)]
ALLOC = {"sbc_malloc": m_malloc, "sbc_calloc": m_calloc, "sbc_free": m_free}

def external(it, ins, name, args, st):
    m = it.m
    ret = ins.ty
    if name in ("abort", "__assert_fail", "exit"):
        msg = "aborts"
        if name == "__assert_fail":
            msg = "assertion " + cstring(it, args[0])
        it.ob("abort", ins, "viol" if st.pq else "und", msg, it.path_tag(st) if it.path_tag else None)
        return []
    if name in ("mtx_lock", "mtx_unlock", "mtx_init", "thrd_create", "thrd_join"):
        return [(C(0, 32), st)]      # thrd_success: the primitives work on initialised objects
    if name in NOEFF or name.startswith("sf") and (ret is None or ret[0] == 'v'):
        return [(it.unknown(ret, True) if ret is not None and ret[0] != 'v' else None, st)]
    if name in ("malloc", "sbc_malloc"):
        return [(newheap(it, ins, st, args[0], False, ir.base(ins.fn.name)), st)]
    if name in ("calloc", "sbc_calloc"):
        n = it.binop("mul", as_int(args[0], 64), as_int(args[1], 64), 64, st, ins)
        return [(newheap(it, ins, st, n, True, ir.base(ins.fn.name)), st)]
    if name.startswith("llvm.memset") or name == "memset":
        n = as_int(args[2], 64)
        mem_ob(it, st, ins, args[0], n, "memory fill")
        v = args[1]
        clobber(it, st, args[0], n, False, v.lo if v.__class__ is I and v.const else None)
        return [(args[0], st)]
    if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
        n = as_int(args[2], 64)
        mem_ob(it, st, ins, args[0], n, "copy to"); mem_ob(it, st, ins, args[1], n, "copy from")
        copy(it, st, args[0], args[1], n)
        return [(args[0], st)]
    if name == "strlen":
        c = cstring(it, args[0], None)
        if c is not None: return [(C(len(c), 64), st)]
        b, k = known_bytes(it, st, args[0], 256)
        if k and b[-1:] == b"\0": return [(C(len(b) - 1, 64), st)]
        h = None
        if args[0].__class__ is PT and len(args[0].t) == 1: h = args[0].t[0].r.size
        return [(I(0, (h or 1 << 31) - 1, 64, False, False), st)]
    if name in ("strcmp", "strncmp", "memcmp"):
        return compare(it, ins, name, args, st)
    if name in ("strchr", "strrchr", "strstr"):
        p = args[0]
        c = args[1]
        s0 = cstring(it, p, None)
        if s0 is None:
            b, k = known_bytes(it, st, p, 64)
            if k and b[-1:] == b"\0": s0 = b[:-1].decode("latin-1")
        if p.__class__ is PT and s0 is not None and c.__class__ is I and c.s is not None and len(p.t) == 1:
            # any position in the constant string
            z = set()
            for x in c.s:
                i = s0.find(chr(x & 255)) if x & 255 else len(s0)
                z.add(i)
            out = [x for x in z if x >= 0]
            nul = -1 in z
            if not out: return [(NULL, st)]
            l = p.t[0]
            return [(PT((Loc(l.r, l.off, l.ds + (D(1, min(out), max(out), None),)),) if len(out) > 1 else (Loc(l.r, l.off + out[0], l.ds),), 1 if nul else 0), st)]
        if p.__class__ is PT:
            # absence is an input-dependent outcome of the searched data
            hi = max([l.r.size or 1 for l in p.t] or [1]) - 1
            if s0 is not None: hi = len(s0)
            lost = PT(tuple(Loc(l.r, l.off, l.ds + (D(1, 0, hi, None, False, s0 is not None),)) for l in p.t), 1, True, p.unk)
            return [(lost, st)]
        return [(PT((), 1, True, True), st)]
    if name in ("strcpy", "strncpy", "strcat"):
        if getattr(it, "exact", False):
            b, k = known_bytes(it, st, args[1], 64)
            if k and b[-1:] == b"\0":
                if name == "strncpy":
                    n = as_int(args[2], 64)
                    if n.const and n.lo <= 64: put(it, st, args[0], (b + bytes(64))[:n.lo]); return [(args[0], st)]
                else:
                    d = args[0]
                    if name == "strcat":
                        a, ka = known_bytes(it, st, d, 64)
                        d = PT((Loc(d.t[0].r, d.t[0].off + len(a) - 1, ()),)) if ka and a[-1:] == b"\0" else None
                    if d is not None: put(it, st, d, b); return [(args[0], st)]
        if name == "strncpy":
            n = as_int(args[2], 64)
            mem_ob(it, st, ins, args[0], n, "string copy to")
            clobber(it, st, args[0], n)
            c = cstring(it, args[1], None)
            if c is not None and n.const: put(it, st, args[0], (c.encode("latin-1") + bytes(64))[:min(n.lo, 64)])
        else:
            c = cstring(it, args[1], None)
            if c is not None and name == "strcpy":
                n = C(len(c) + 1, 64); mem_ob(it, st, ins, args[0], n, "string copy to")
                clobber(it, st, args[0], n)
                put(it, st, args[0], c.encode("latin-1") + b"\0")
            else: 
                it.ob("bound", ins, "und", "string copy of unknown length")
                clobber(it, st, args[0], I(0, 1 << 20, 64, False, False))
        return [(args[0], st)]
    if name in ("sprintf", "snprintf"):
        clobber(it, st, args[0], I(0, 1 << 20, 64, False, False))
        it.ob("bound", ins, "und", "formatted output")
        return [(full(32, False), st)]
    if name in ("fopen", "opendir"):
        key = (tuple(it.stack), ins)
        r = it.heap.get(key)
        if r is None: r = it.heap[key] = it.new_region("stream of " + name, 8, None, "sink")
        q = st.copy()
        return [(NULL, st), (PT((Loc(r, 0),)), q)]
    if name == "readdir":
        r = it.heap.get("dirent")
        if r is None: r = it.heap["dirent"] = it.new_region("directory entry", 280, None, "data")
        q = st.copy()
        return [(NULL, st), (PT((Loc(r, 0),)), q)]
    if name == "fread":
        n = it.binop("mul", as_int(args[1], 64), as_int(args[2], 64), 64, st, ins)
        mem_ob(it, st, ins, args[0], n, "file read into")
        clobber(it, st, args[0], n, True)
        c = as_int(args[2], 64)
        return [(I(0, c.uview()[1], 64, True, c.qh, c.org), st)]
    if name == "fwrite":
        n = it.binop("mul", as_int(args[1], 64), as_int(args[2], 64), 64, st, ins)
        mem_ob(it, st, ins, args[0], n, "file write from")
        c = as_int(args[2], 64)
        return [(I(0, c.uview()[1], 64, True, c.qh, c.org), st)]
    if name in ("ftell",): return [(I(-1, (1 << 31) - 1, 64, True, True, frozenset((("ftell", ins.sn),))), st)]
    if name in ("getc", "fgetc"): return [(I(-1, 255, 32, True, True, frozenset((("getc", ins.sn),))), st)]
    if name in ("fgets",):
        mem_ob(it, st, ins, args[0], it.cast("sext", as_int(args[1], 32), ('i', 64)), "line read into")
        clobber(it, st, args[0], as_int(args[1], 32), True)
        return [(PT(args[0].t, 1) if args[0].__class__ is PT else UNKP, st)]
    if name in ("__isoc99_fscanf", "fscanf", "scanf"):
        for a in args[2:]: clobber(it, st, a, I(8, 8, 64), True)
        return [(full(32, True), st)]
    if name in ("fclose", "ferror", "feof", "fseek", "ungetc", "closedir", "fflush"):
        return [(full(32, True, frozenset((("lib", ins.sn),))), st)]
    if name == "rand": return [(I(0, (1 << 31) - 1, 32, True, True, frozenset((("rand", ins.sn),))), st)]
    if name == "time": return [(I(0, 1 << 40, 64), st)]
    if name == "localtime":
        t = None
        r = it.heap.get("tm")
        if r is None:
            r = it.heap["tm"] = it.new_region("struct tm", 56, None, "mem", True)
            rng = [(0, 60), (0, 59), (0, 23), (1, 31), (0, 11), (69, 8099), (0, 6), (0, 365), (-1, 1)]
            def dflt(it, r, off, size, ty, rng=rng):
                k = off // 4
                if off % 4 == 0 and 0 <= k < 9 and ty[0] == 'i': return I(rng[k][0], rng[k][1], ty[1], True, True, frozenset((("tm", k),)))
            r.dflt = dflt
        return [(PT((Loc(r, 0),)), st)]
    if name.startswith("llvm.abs"):
        v = as_int(args[0], ret[1])
        lo, hi, ql, qh, _ = v.sview()
        w = ret[1]
        if lo >= 0: return [(v, st)]
        if hi <= 0: return [(I(-hi, -lo, w, qh, ql, v.org), st)]
        return [(I(0, max(-lo, hi), w, v.ex, ql if -lo > hi else qh, v.org), st)]
    if name.startswith("llvm.fabs") or name in ("fabs", "fabsf"):
        v = args[0]
        if v.__class__ is F:
            lo = 0.0 if v.lo <= 0 <= v.hi else min(abs(v.lo), abs(v.hi))
            return [(F(lo, max(abs(v.lo), abs(v.hi)), v.nan, v.ex, v.org), st)]
        return [(ftop(False), st)]
    if name.startswith("llvm.floor") or name.startswith("llvm.round") or name in ("floor", "round", "ceil"):
        v = args[0]
        if v.__class__ is F and not v.nan and abs(v.lo) < 1e15 and abs(v.hi) < 1e15:
            f = math.floor if "floor" in name else (lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1))
            return [(F(float(f(v.lo)), float(f(v.hi)), False, v.ex, v.org), st)]
        return [(v if v.__class__ is F else ftop(False), st)]
    if name.startswith("llvm.fmuladd"):
        return [(it.fbin("fadd", it.fbin("fmul", args[0], args[1]), args[2]), st)]
    if name in ("sin", "cos", "sinf", "cosf"):
        v = args[0]
        bad = v.__class__ is not F or v.nan or v.lo == -INF or v.hi == INF
        return [(F(-1.0, 1.0, bad, v.__class__ is F and v.ex and not bad), st)]
    if name == "tan":
        v = args[0]
        return [(ftop(False), st)]
    if name in ("atan", "atan2"):
        return [(F(-3.1416, 3.1416, any(a.__class__ is F and a.nan for a in args), False), st)]
    if name in ("sqrt", "log", "exp"):
        v = args[0]
        if v.__class__ is not F: return [(ftop(False), st)]
        try:
            if name == "sqrt": return [(F(math.sqrt(max(v.lo, 0.0)), math.sqrt(v.hi) if v.hi >= 0 else 0.0, v.nan or v.lo < 0, v.ex, v.org), st)]
            if name == "log":
                lo = math.log(v.lo) if v.lo > 0 else -INF
                hi = INF if v.hi == INF else math.log(v.hi) if v.hi > 0 else -INF
                return [(F(lo, hi, v.nan or v.lo < 0, v.ex, v.org), st)]
            e = lambda x: INF if x > 709 else 0.0 if x == -INF else math.exp(x)
            return [(F(e(v.lo), e(v.hi), v.nan, v.ex, v.org), st)]
        except (ValueError, OverflowError): return [(ftop(v.ex, v.org), st)]
    if name in ("powf", "pow"):
        return [(ftop(False), st)] if not all(a.__class__ is F for a in args) else [(pow_(args[0], args[1]), st)]
    if name.startswith("llvm.umul.with.overflow") or ".with.overflow" in name:
        return [(it.unknown(ret), st)]
    if name.startswith("llvm.stacksave"): return [(UNKP, st)]
    if ret is not None and ret[0] == 'p': return [(PT((), 0, False, True), st)]
    return [(it.unknown(ret) if ret is not None and ret[0] != 'v' else None, st)]

def known_bytes(it, st, v, limit):
    """leading bytes of the text at v that are known, and whether that is all of it up to limit"""
    c = cstring(it, v, None)
    if c is not None: return c.encode("latin-1") + b"\0", True
    out = bytearray()
    if v.__class__ is PT and len(v.t) == 1 and not v.t[0].ds and not v.null and not v.unk:
        l = v.t[0]
        while len(out) < min(limit, 64):
            x = it.load_loc(st, Loc(l.r, l.off + len(out), ()), 1, ('i', 8))
            if x.__class__ is not I or not x.const: return bytes(out), False
            out.append(x.lo & 255)
            if not out[-1]: return bytes(out), True
    return bytes(out), len(out) >= limit

def put(it, st, p, data):
    """write known bytes"""
    if p.__class__ is not PT or len(p.t) != 1 or p.t[0].ds or p.null or p.unk or len(data) > 64: return
    l = p.t[0]
    if l.r.size is None or l.r.kind != "alloca" and l.r.kind != "heap" or l.off < 0 or l.off + len(data) > l.r.size: return
    for i, b in enumerate(data):
        it.store_loc(st, Loc(l.r, l.off + i, ()), 1, C(b - 256 if b > 127 else b, 8), False)

EQ = ("cmpeq",)
def compare(it, ins, name, args, st):
    lim = 1 << 30
    if name != "strcmp":
        n = as_int(args[2], 64)
        if n.const: lim = n.uview()[1]
    if name != "memcmp":
        a, ka = known_bytes(it, st, args[0], lim); b, kb = known_bytes(it, st, args[1], lim)
        for x, y in zip(a[:lim], b[:lim]):
            if x != y: return [(C(1 if x > y else -1, 32), st)]
            if not x: return [(C(0, 32), st)]
        if lim <= min(len(a), len(b)): return [(C(0, 32), st)]
    # one byte that certainly differs is enough
    for x, y in ((0, 1), (1, 0)):
        c = cstring(it, args[x], None)
        if c is None or args[y].__class__ is not PT or len(args[y].t) != 1 or args[y].null or args[y].unk: continue
        c = (c.encode("latin-1") + b"\0")[:min(lim, 64)]; l = args[y].t[0]
        if l.ds or l.r.kind not in ("alloca", "heap") or l.r.size is None or l.off + len(c) > l.r.size: continue
        for i, k in enumerate(c):
            v = it.load_loc(st, Loc(l.r, l.off + i, ()), 1, ('i', 8))
            if v.__class__ is I and v.const and v.lo & 255 != k:
                return [(I(-1, 1, 32, False, False, E, frozenset((-1, 1))), st)]
    ex = EQ not in st.jt
    # searched text that equals one constant cannot freely equal or differ from the next
    e = st.copy(); e.jt = e.jt | frozenset((EQ,))
    if not ex: e.pq = False; st.pq = False
    return [(I(-1, 1, 32, False, False, E, frozenset((-1, 1))), st), (C(0, 32), e)]

def pow_(a, b):
    ex = a.ex and b.ex and not (a.org & b.org)
    org = a.org | b.org
    nan = a.nan or b.nan or (a.lo < 0 and not (b.lo == b.hi and b.lo == int(b.lo)))
    try:
        if a.lo >= 0:
            def p(x, y):
                if x == 0: return 1.0 if y == 0 else 0.0 if y > 0 else INF
                if abs(x) == INF or abs(y) == INF: return INF if (x > 1) == (y > 0) else 0.0
                t = y * math.log(x)
                return INF if t > 709 else math.exp(t)
            c = [p(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            if a.lo < 1 < a.hi: c.append(1.0)
            return F(min(c), max(c), nan, ex, org)
    except (OverflowError, ValueError): pass
    # negative bases with non-integer exponents give NaN; magnitude bounded by |a|^b
    M = max(abs(a.lo), abs(a.hi))
    if M == INF or b.hi == INF: return F(-INF, INF, nan, ex, org)
    try: m = max(M ** b.hi if M > 0 else 1, 1.0, (INF if (a.lo <= 0 <= a.hi and b.lo < 0) else 0))
    except OverflowError: m = INF
    return F(-m, m, nan, ex, org)

def cstring(it, v, dflt="?"):
    if v.__class__ is PT and len(v.t) == 1 and not v.t[0].ds:
        g = v.t[0].r.const
        if g is not None and g.init is not None and g.init[0] == 'bytes' and g.const:
            b = bytes(g.init[1])[v.t[0].off:]
            return b.split(b"\0")[0].decode("latin-1")
    return dflt
