"""The interpreter as a set of abstract entry points.

Entry points (each BASIC command, function, operator and built-in variable with each of
its accepted argument forms, taken from the program's own tables; the window thread's
callbacks; the compile and call/loop helpers) are analysed from a common invariant of
the persistent machine state.  The invariant is computed, not assumed: it starts from
the state left by initialisation and is joined with every entry's exit states until
nothing changes."""
import sys, time, os
import ir, build, absint, libmodel
from absint import Interp, State, Region, norm
from dom import *

class Anchor(Exception):
    """a construct the analysis is anchored to is gone"""

MAXST = 100
MAXERR = 127

class Machine:
    def __init__(s, text=None):
        if text is None: text, s.units = build.build_ir()
        s.m = ir.Module(text)
        s.tables()
        s.layout()

    # ------------------------------------------------------------ tables
    def glob(s, name):
        g = s.m.globals.get(name)
        if g is None or g.init is None: raise Anchor("table %s not found" % name)
        return g
    def fn(s, name):
        f = s.m.funcs.get(name)
        if f is None: raise Anchor("function %s not found" % name)
        return f
    def fntab(s, name):
        g = s.glob(name)
        if g.init[0] != 'agg': raise Anchor("table %s has no initialiser" % name)
        out = []
        for v in g.init[1]:
            v = v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple) else v
            out.append(v[1] if v[0] == 'g' else None)
        return out
    def strtab(s, name):
        g = s.glob(name)
        out = []
        for v in g.init[1]:
            v = v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], tuple) else v
            out.append(s.cstr(v[1]) if v[0] == 'g' else None)
        return out
    def cstr(s, gname):
        g = s.m.globals.get(gname)
        if g is None or g.init is None: return None
        if g.init[0] == 'bytes': return bytes(g.init[1]).split(b"\0")[0].decode('latin-1')
        if g.init[0] == 'zero': return ""
        return None
    def names(s, name):
        g = s.glob(name)
        if g.init[0] == 'g': b = bytes(s.m.globals[g.init[1]].init[1])
        else: b = bytes(g.init[1])
        b = b.split(b"\0")[0].decode('latin-1')
        return [b[i:i + 8].rstrip() for i in range(0, len(b), 8)]
    def tables(s):
        s.commands = s.fntab("ptc_commands"); s.functions = s.fntab("ptc_functions")
        s.operators = s.fntab("ptc_operators"); s.sysvars = s.fntab("ptc_sysvars")
        s.sysvalid = s.fntab("ptc_sysvars_valid")
        s.cmd_format = s.strtab("cmd_format"); s.func_format = s.strtab("func_format")
        s.op_format = s.strtab("op_format")
        s.cmd_names = s.names("commands"); s.func_names = s.names("functions")
        s.op_names = s.names("bc_conv_operations"); s.sys_names = s.names("sysvars")

    # ------------------------------------------------------------ layout
    def off(s, sname, *path):
        """byte offset and size of a member path, by DWARF member names"""
        f = s.m.fields(sname)
        o = 0
        for i, n in enumerate(path):
            if n not in f: raise Anchor("struct %s has no member %s" % (sname, n))
            a = f[n]
            o += a[0]
            if i + 1 < len(path): f = s.m.fields_of(a[1])
        return o
    def layout(s):
        s.PTC = ('ns', 'struct.ptc')
        if 'struct.ptc' not in s.m.structs: raise Anchor("struct ptc not found")
        f = s.m.fields("ptc")
        s.pf = f

    # ------------------------------------------------------------ interpreter set up
    def interp(s):
        it = Interp(s.m)
        it.models.update(libmodel.ALLOC)
        it.models["get_new_str"] = s.m_new_str
        def m_dec(it, ins, args, st):
            if not it.initphase: return None
            libmodel.clobber(it, st, args[1], as_int(args[2], 32))
            return [(args[1], st)]
        it.models["sbc_decompress"] = m_dec
        it.models["thrd_sleep"] = s.m_sleep
        for n in ("run", "_run"): it.models[n] = s.m_run
        for n in ("tokenize", "tokenize_full"): it.models[n] = s.m_tok
        return it

    def m_sleep(s, it, ins, args, st):
        """other threads run: the window thread may raise an error (user break)"""
        q = st.copy()
        it.wr(q, s.ptc)[s.o_err] = (4, I(1, MAXERR, 32, False, False))
        it.bump_eq(q, s.ptc, s.o_err, 4)
        return [(C(0, 32), st), (C(0, 32), q)]
    def m_run(s, it, ins, args, st):
        """a nested program run: any state the invariant allows"""
        if it.initphase or it.direct == ir.base(ins.x[1] if ins.x[0] == 'g' else ""): return None
        out = []
        for err in (C(0, 32), I(1, MAXERR, 32, False, False)):
            q = st.copy()
            for r in list(q.mem):
                if r.pid is not None: del q.mem[r]
            q.eq = {}
            d = it.wr(q, s.ptc)
            d[s.o_err] = (4, err); d[s.o_argc] = (4, I(0, 64, 32, False, False)); d[s.o_sti] = (1, I(0, 100, 8, False, False))
            out.append((None, q))
        return out
    def m_tok(s, it, ins, args, st):
        if it.initphase or it.direct == ir.base(ins.x[1] if ins.x[0] == 'g' else ""): return None
        libmodel.clobber(it, st, args[1], I(8, 8, 64)) if False else None
        q = st.copy()
        return [(C(0, 32), st), (I(1, MAXERR, 32, False, False), q)]
    def m_new_str(s, it, ins, args, st):
        key = ("newstr", tuple(it.stack), ins)
        r = it.heap.get(key)
        if r is None:
            r = it.heap[key] = s.str_region(it, "new string", 's', None)
        # a fresh string: contents unknown, no uses
        q = st.copy()
        d = it.wr(q, r)
        d.clear()
        d[0] = (1, C(ord('s'), 8)); d[8] = (8, full(64, False)); d[16] = (8, C(0, 64)); d[24] = (8, PT((Loc(r.user, 0),)))
        n = PT((), 2, True); n.tag = "newstr"
        it.wr(st, s.nostr)[0] = (1, C(1, 8))
        return [(n, st), (PT((Loc(r, 0),)), q)]

    def str_region(s, it, name, typ, ln):
        """struct string object; ln: I for the length or None"""
        data = Region(name + " text", 256 if typ == 's' else 512, None, "data", s.m)
        r = Region(name, s.m.size(('ns', 'struct.string')), ('ns', 'struct.string'), "heap", s.m, fresh=True)
        r.user = data
        def dflt(it, rr, off, size, ty):
            if off == 0 and size == 1: return C(ord(typ), 8)
            if off == 8: return it.adapt(8, ln if ln is not None else full(64, False), size, ty)
            if off == 16: return it.adapt(8, I(1, 1000, 64, True, False), size, ty)
            if off == 24 and ty[0] == 'p': return PT((Loc(data, 0),))
            return None
        r.dflt = dflt
        return r

    def member(s, sname, path):
        """(offset, size) of dotted member path in struct sname"""
        id = s.m.struct_id(sname)
        if id is None: raise Anchor("struct %s not found" % sname)
        off = 0; size = None
        for n in path.split("."):
            id = s.m.strip_td(id)
            if "elements" not in s.m.md.get(id, ""): raise Anchor("struct %s: %s" % (sname, path))
            for o, z, nm, ty in s.flat(id):
                if nm == n:
                    off += o; size = z; id = ty; break
            else: raise Anchor("struct %s has no member %s" % (sname, n))
        return off, size

    def flat(s, id):
        """members, with those of unnamed structures and unions"""
        for o, z, nm, ty in s.m.members(id):
            yield o, z, nm, ty
            if not nm:
                t = s.m.strip_td(ty)
                if t and "elements" in s.m.md.get(t, ""):
                    for a, b, c, d in s.flat(t): yield o + a, b, c, d

    # ------------------------------------------------------------ initial state
    def init(s, headless=True):
        it = s.it = s.interp()
        s.nostr = Region("no free string", 1, None, "zeroheap", s.m, True)
        def ptag(st):
            d = st.mem.get(s.nostr)
            return "newstr" if d and d.get(0) and d[0][1].const and d[0][1].lo == 1 else None
        it.path_tag = ptag
        P = s.PTC
        st = State()
        # program memory
        mem = Region("interpreter memory", s.mem_size(), None, "data", s.m)
        g = it.greg_of("sbc_membase")
        if g is not None: it.wr(st, g)[0] = (8, PT((Loc(mem, 0),)))
        s.membase = mem
        f = s.fn("init_system")
        it.initphase = True
        outs = it.call_fn(f, [C(s.call_const('main', 'init_system', k) or d, 32) for k, d in ((0, 256), (1, 256), (2, 16384))] + [C(1 if headless else 0, 1)], st)
        outs = [(v, o) for v, o in outs if v.__class__ is PT and len(v.t) == 1]
        if not outs: raise Anchor("init_system does not return")
        v, st = outs[0]
        for w, o in outs[1:]: st = it.jstate(st, o, set())
        ptc = s.ptc = v.t[0].r
        ptc.mem = s.pf
        if ptc.ty is None: ptc.ty = P; ptc.cache.clear()
        s.o_exec = s.member("ptc", "exec")[0]
        s.o_err = s.member("ptc", "exec.error")[0]
        s.o_argc = s.member("ptc", "exec.argcount")[0]
        s.o_sti = s.member("ptc", "stack.stack_i")[0]
        s.o_ent = s.member("ptc", "stack.entry")[0]
        absint.PRECISE_PATHS.add(s.path_of(ptc, s.o_ent))
        ptc.cache.clear()
        it.errcell = (ptc, s.o_err)
        # program text and bytecode buffers, sized as the launcher sizes them
        for name, off in (("init_mem_prg", s.member("ptc", "exec.prg")[0]),):
            f = s.m.funcs.get(name)
            if f is not None:
                n = s.call_const("launch_system", name, 1) or (1 << 19)
                o = it.call_fn(f, [PT((Loc(ptc, off),)), C(n, 32)], st)
                if o: st = o[0][1]
        it.initphase = False
        s.init_fns = set(it.fnset)
        s.compiled(st)
        s.persist(st)
        it.invstruct = s.invstruct
        s.nexp = len(s.pregs)
        s.stored = s.str_region(it, "stored string", 's', I(0, 256, 64, True, True, frozenset((("len", -1),))))
        s.reg(s.stored); s.reg(s.stored.user)
        s.args_regions()
        s.idx = {}
        for f in s.m.funcs.values():
            for b in getattr(f, "blocks", ()) or ():
                for k, ins in enumerate(b.ins): s.idx[ins] = (f.name, b.name, k)
    def insid(s, ins): return s.idx[ins]
    def ins_of(s, i):
        f = s.m.funcs[i[0]]
        return f.bmap[i[1]].ins[i[2]]
    def _unused(s): pass

    def compiled(s, st):
        """the compiled program: instruction bytes of any content, size and index related"""
        it = s.it
        code = s.code = Region("compiled program", None, None, "code", s.m)
        lines = Region("line table of the compiled program", None, None, "code", s.m)
        labels = Region("label table of the compiled program", None, None, "code", s.m)
        d = it.wr(st, s.ptc)
        for n, r in (("exec.code.data", code), ("exec.code.line_length", lines), ("exec.code.labels.entry", labels)):
            d[s.member("ptc", n)[0]] = (8, PT((Loc(r, 0),)))
        for n in ("exec.code.size", "exec.index", "exec.data_index", "exec.data_offset"):
            o, z = s.member("ptc", n)
            d[o] = (z, I(0, 1 << 20, z * 8, False, False))
        o, z = s.member("ptc", "exec.code.labels.label_count")
        d[o] = (z, I(1, 2048, z * 8, False, False))

    def mem_size(s):
        return s.call_const("main", "init_memory", 0) or (1 << 22)

    def call_const(s, fname, callee, k):
        f = s.m.funcs.get(fname)
        if f is None: return None
        for b in f.blocks:
            for ins in b.ins:
                if ins.op == "call" and ins.x[0] == 'g' and ir.base(ins.x[1]) == callee:
                    v = ins.a[k][1]
                    if v[0] == 'c': return v[1]
        return None

    def path_of(s, r, off):
        """type path of the array that starts at byte offset off in region r"""
        m = s.m; t = r.ty; path = ()
        while True:
            while t[0] == 'ns': path += (t[1],); t = m.structs[t[1]]
            if t[0] == 'st':
                offs = m.lay(t)[2]; i = 0
                for j, o in enumerate(offs):
                    if o <= off: i = j
                off -= offs[i]; path += (i,); t = t[1][i]
            elif t[0] == 'arr' and t[1] == 1: path += ("[]",); t = t[2]
            elif t[0] == 'arr': return path
            else: return None

    def persist(s, st):
        it = s.it
        s.pregs = []
        def add(r):
            if r.pid is None and r.kind not in ("alloca",):
                r.pid = len(s.pregs); s.pregs.append(r)
        add(s.ptc)
        for r in st.mem:
            if r.kind == "global" and r.const is not None and r.const.const: continue
            add(r)
        for r in list(it.heap.values()):
            if isinstance(r, Region) and r.kind in ("heap", "zeroheap"): add(r)
        # everything reachable from pointers in the state
        for r, d in st.mem.items():
            for c in d.values():
                if c[1].__class__ is PT:
                    for l in c[1].t: 
                        if l.r.kind not in ("alloca",) and not (l.r.kind == "global" and l.r.const and l.r.const.const): add(l.r)
        # untyped allocations get the struct type their pointer is declared with
        pid = s.m.struct_id("ptc")
        for off, (z, v) in st.mem.get(s.ptc, {}).items():
            if v.__class__ is not PT: continue
            nm = None
            for l in v.t:
                r = l.r
                if r.ty is not None or r.kind not in ("heap", "zeroheap") or l.off or l.ds or not r.size: continue
                nm = nm or s.m.pointee_struct(s.m.leaf_at(pid, off))
                if nm and "struct." + nm in s.m.structs:
                    z2 = s.m.size(('ns', 'struct.' + nm))
                    if z2 and r.size % z2 == 0: r.ty = ('arr', r.size // z2, ('ns', 'struct.' + nm)); r.cache.clear()
        for r in s.pregs:
            if r.ty is None and r.kind in ("heap", "zeroheap"): r.kind = "data"
            d = st.mem.get(r)
            if d is None: continue
            r.cache.clear()
            for o, (z, v) in d.items():
                if v is TOP: continue
                v = s.clean(v)
                # an entry of a pointer table filled by a loop: the zero it started from is gone
                if v.__class__ is PT and v.null == 1 and not v.ex: v = PT(v.t, 0, True, v.unk)
                it.inv[(r.pid, o)] = (z, v)
        s.dyn = {}

    def clean(s, v):
        if v.__class__ is I and v.org: return I(v.lo, v.hi, v.w, v.ql, v.qh, E, v.s)
        if v.__class__ is F and v.org: return F(v.lo, v.hi, v.nan, v.ex)
        if v.__class__ is PT:
            t = []
            unk = v.unk
            if False: pass
            for l in v.t:
                if l.r.kind == "alloca": unk = True; continue
                ds = tuple(D(d.st, d.lo, d.hi, d.n, d.ql, d.qh) for d in l.ds)
                l2 = Loc(l.r, l.off, ds)
                if l2 not in t: t.append(l2)
            return PT(tuple(t), v.null, v.ex, unk)
        if v.__class__ is AG: return TOP
        return v

    # ------------------------------------------------------------ argument regions
    def reg(s, r):
        r.pid = len(s.pregs); s.pregs.append(r); return r
    def invstruct(s, r, off):
        """the struct object a persistent cell belongs to"""
        if r is not s.ptc: return 0
        p = s.m.path_at(s.m.struct_id('ptc'), off)
        return p.rsplit(".", 1)[0] if p else 0
    def args_regions(s):
        s.ustr = {}
        s.ucell = {}
        for k in range(12):
            for typ in "sw":
                r = s.str_region(s.it, "string argument %d" % (k + 1), typ, I(0, 256, 64, True, True, frozenset((("len", k),))))
                s.ustr[(k, typ)] = s.reg(r); s.reg(r.user)
                r.user.name = "text of string argument %d" % (k + 1)
            r = Region("literal string argument %d" % (k + 1), 257, None, "data", s.m)
            r.user = None
            s.ustr[(k, 'S')] = s.reg(r)
            r = Region("label argument %d" % (k + 1), 257, None, "data", s.m)
            s.ustr[(k, 'l')] = s.reg(r)
            c = Region("variable argument %d" % (k + 1), 8, None, "heap", s.m, fresh=True)
            s.ucell[k] = s.reg(c)

    def label_op(s):
        v = s.m.enum("BC_LABEL_STRING")
        if v is None: raise Anchor("BC_LABEL_STRING not found")
        return v
    def num(s, k): return full(32, True, frozenset((("arg", k),)))

    def set_str(s, st, k, typ, ln=None):
        """string object for argument k; returns pointer"""
        it = s.it
        r = s.ustr[(k, typ)]
        hi = 256 if typ in "sw" else 255
        L = I(0, hi, 64, True, True, frozenset((("len", k),))) if ln is None else C(ln, 64)
        if typ in "sw":
            d = it.wr(st, r)
            d[0] = (1, C(ord(typ), 8)); d[8] = (8, L); d[16] = (8, I(1, 1000, 64, True, False))
            d[24] = (8, PT((Loc(r.user, 0),)))
        else:
            r.size = 2 + (hi if ln is None else ln)
            d = it.wr(st, r)
            d[0] = (1, C(ord('S') if typ == 'S' else s.label_op(), 8))
            d[1] = (1, I(L.lo, L.hi, 8, True, True, L.org, L.s))
        return PT((Loc(r, 0),))

    def entry_state(s, args, base=0, argc=None, lens=None, styp='s'):
        """args: list of kind codes N n S s L o(comma) p(semicolon) A"""
        it = s.it
        st = State()
        d = it.wr(st, s.ptc)
        d[s.o_err] = (4, C(0, 32))
        d[s.o_argc] = (4, C(len(args) if argc is None else argc, 32))
        d[s.o_sti] = (1, C(base + len(args), 8))
        for i in range(base):
            o = s.o_ent + 16 * i
            d[o] = (1, C(1, 8)); d[o + 8] = (4, full(32, False, frozenset((("lower", i),))))
        si = 0
        for i, k in enumerate(args):
            o = s.o_ent + 16 * (base + i)
            if k == 'N': d[o] = (1, C(1, 8)); d[o + 8] = (4, s.num(i))
            elif k == 'n':
                c = s.ucell[i]
                it.wr(st, c)[0] = (4, s.num(i))
                d[o] = (1, C(5, 8)); d[o + 8] = (8, PT((Loc(c, 0),)))
            elif k == 'l':
                p = s.set_str(st, i, 'l', lens[si] if lens else None); si += 1
                d[o] = (1, C(2, 8)); d[o + 8] = (8, p)
            elif k in 'SL':
                p = s.set_str(st, i, styp, lens[si] if lens else None); si += 1
                d[o] = (1, C(2, 8)); d[o + 8] = (8, p)
            elif k == 's':
                p = s.set_str(st, i, 's', lens[si] if lens else None); si += 1
                c = s.ucell[i]
                it.wr(st, c)[0] = (8, p)
                d[o] = (1, C(6, 8)); d[o + 8] = (8, PT((Loc(c, 0),)))
            elif k in 'op':
                d[o] = (1, C(16, 8)); d[o + 8] = (4, C(s.op_id("," if k == 'o' else ";"), 32))
            elif k == 'A':
                d[o] = (1, C(4 | 8 | 1, 8)); d[o + 8] = (8, UNKP)
        return st

    def op_id(s, ch):
        for i, n in enumerate(s.op_names):
            if n == ch: return i
        return 1 if ch == ',' else 5
