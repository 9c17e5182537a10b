"""Reader for textual LLVM IR (LLVM 18, opaque pointers)."""
import re

class Ins:
    __slots__ = ("op", "res", "ty", "a", "x", "dbg", "bb", "idx", "fn", "sn")
    count = 0
    def __init__(s, op, res, ty, a, x, dbg):
        s.sn = Ins.count = Ins.count + 1
        s.op, s.res, s.ty, s.a, s.x, s.dbg = op, res, ty, a, x, dbg
        s.bb = None; s.idx = -1; s.fn = None
    def __hash__(s): return s.sn      # the same in every run, unlike an address
    def __repr__(s):
        return "<%s %s %s %s %s>" % (s.res, s.op, s.ty, s.a, s.x)

class Block:
    __slots__ = ("name", "ins", "succ", "pred", "rpo", "fn")
    def __hash__(s): return hash(s.name)
    def __init__(s, name, fn):
        s.name, s.ins, s.succ, s.pred, s.rpo, s.fn = name, [], [], [], -1, fn

class Func:
    def __init__(s, name):
        s.name = name; s.args = []; s.argt = []; s.ret = None; s.blocks = []; s.bmap = {}
        s.defs = {}; s.dbg = None; s.decl = True; s.vararg = False; s.internal = False
        s.attrs = []; s.uses = None
    def __hash__(s): return hash(s.name)
    def __repr__(s): return "<fn %s>" % s.name

class Global:
    __slots__ = ("name", "ty", "init", "const", "ext")

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|
 (?P<loc>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))|
 (?P<md>![-a-zA-Z$._0-9]*(?=[\s,({)]|$))|
 (?P<attr>\#\d+)|
 (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+)|
 (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)|
 (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "": break
            if s[pos:].lstrip().startswith(";"): break
            raise SyntaxError("tok: %r" % s[pos:pos+60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        pos = m.end()
    return out

def unq(n):
    n = n[1:]
    return n[1:-1] if n.startswith('"') else n

def cstr_bytes(t):
    # c"..."
    s = t[2:-1] if t.startswith('c') else t[1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i]) & 0xff); i += 1
    return bytes(out)

PARAM_ATTRS = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext",
               "noalias", "returned", "immarg", "inreg", "nofree", "nest", "writable", "dead_on_unwind", "allocptr", "allocalign"}
FMF = {"nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fast"}

class P:
    """token cursor with type/value parsing"""
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.m = mod
    def pk(s, k=0):
        j = s.i + k
        return s.t[j][1] if j < len(s.t) else None
    def kind(s, k=0):
        j = s.i + k
        return s.t[j][0] if j < len(s.t) else None
    def nx(s):
        v = s.t[s.i]; s.i += 1
        return v[1]
    def acc(s, w):
        if s.i < len(s.t) and s.t[s.i][1] == w:
            s.i += 1; return True
        return False
    def exp(s, w):
        v = s.nx()
        if v != w: raise SyntaxError("expected %s got %s in %r" % (w, v, s.t[max(0, s.i-8):s.i+5]))
    def type(s):
        k, v = s.t[s.i]; s.i += 1
        if k == "word":
            if v[0] == 'i' and v[1:].isdigit(): t = ('i', int(v[1:]))
            elif v == 'ptr':
                t = ('p',)
                if s.pk() == "addrspace": s.i += 4
            elif v == 'void': t = ('v',)
            elif v == 'float': t = ('f', 32)
            elif v == 'double': t = ('f', 64)
            elif v == 'x86_fp80': t = ('f', 80)
            elif v in ('label', 'metadata', 'token'): t = (v,)
            elif v == 'opaque': t = ('st', (), False)
            else: raise SyntaxError("type word %s" % v)
        elif k == "loc": t = ('ns', unq(v))
        elif v == '[':
            n = int(s.nx()); s.exp('x'); e = s.type(); s.exp(']'); t = ('arr', n, e)
        elif v == '{':
            fs = []
            while not s.acc('}'):
                fs.append(s.type()); s.acc(',')
            t = ('st', tuple(fs), False)
        elif v == '<':
            if s.pk() == '{':
                s.nx(); fs = []
                while not s.acc('}'):
                    fs.append(s.type()); s.acc(',')
                s.exp('>'); t = ('st', tuple(fs), True)
            else:
                n = int(s.nx()); s.exp('x'); e = s.type(); s.exp('>'); t = ('vec', n, e)
        else:
            raise SyntaxError("type %r" % (v,))
        # function type suffix
        if s.pk() == '(' :
            save = s.i
            s.nx(); ps = []; va = False
            ok = True
            try:
                while not s.acc(')'):
                    if s.acc('...'): va = True
                    else:
                        ps.append(s.type())
                        s.attrs()
                    s.acc(',')
            except SyntaxError:
                ok = False
            if ok: t = ('fn', t, tuple(ps), va)
            else: s.i = save
        return t
    def attrs(s):
        r = []
        while True:
            v = s.pk()
            if s.kind() == 'word' and (v in PARAM_ATTRS):
                r.append(v); s.i += 1
            elif v in ("align",) and s.kind() == 'word':
                s.i += 2
            elif v in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "elementtype", "byref", "memory", "range", "initializes", "captures"):
                nm = v; s.i += 1
                if s.acc('('):
                    if nm in ("byval", "sret", "elementtype", "byref"):
                        r.append((nm, s.type()))
                    d = 1
                    while d:
                        w = s.nx()
                        if w == '(': d += 1
                        elif w == ')': d -= 1
            else:
                return r
    def val(s, ty):
        k, v = s.t[s.i]; s.i += 1
        if k == 'loc':
            return ('r', unq(v)) if v[0] == '%' else ('g', unq(v))
        if k == 'num':
            if ty[0] == 'f':
                if v.startswith('0x'):
                    import struct
                    h = v[2:]
                    if h[0] in 'KLMH': return ('f', 0.0)
                    return ('f', struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0])
                return ('f', float(v))
            return ('c', int(v))
        if k == 'word':
            if v == 'true': return ('c', 1)
            if v == 'false': return ('c', 0)
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'getelementptr':
                s.acc('inbounds')
                s.exp('('); bt = s.type(); s.exp(','); ops = []
                while True:
                    s.acc('inrange')
                    t = s.type(); ops.append((t, s.val(t)))
                    if not s.acc(','): break
                s.exp(')')
                return ('ce', 'gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                s.exp('('); t = s.type(); o = s.val(t); s.exp('to'); t2 = s.type(); s.exp(')')
                return ('ce', v, t2, [(t, o)])
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while s.pk() in ('nsw', 'nuw', 'exact'): s.nx()
                s.exp('('); t = s.type(); o = s.val(t); s.exp(','); t2 = s.type(); o2 = s.val(t2); s.exp(')')
                return ('ce', v, t, [(t, o), (t2, o2)])
            if v == 'blockaddress' or v == 'dso_local_equivalent' or v == 'no_cfi':
                raise SyntaxError(v)
            if v == 'asm':
                return ('asm',)
        if k == 'str':
            return ('bytes', cstr_bytes(v))
        if v == '[' :
            r = []
            while not s.acc(']'):
                t = s.type(); r.append((t, s.val(t))); s.acc(',')
            return ('agg', r)
        if v == '{':
            r = []
            while not s.acc('}'):
                t = s.type(); r.append((t, s.val(t))); s.acc(',')
            return ('agg', r)
        if v == '<':
            if s.acc('{'):
                r = []
                while not s.acc('}'):
                    t = s.type(); r.append((t, s.val(t))); s.acc(',')
                s.exp('>')
                return ('agg', r)
            r = []
            while not s.acc('>'):
                t = s.type(); r.append((t, s.val(t))); s.acc(',')
            return ('agg', r)
        if k == 'md': # metadata operand
            return ('md', v)
        raise SyntaxError("val %r (%r)" % (v, s.t[max(0, s.i-6):s.i+4]))
    def tv(s):
        t = s.type(); s.attrs()
        return (t, s.val(t))

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint", "inttoptr", "bitcast", "addrspacecast"}

class Module:
    def __init__(s, text):
        s.structs = {}; s.globals = {}; s.funcs = {}; s.md = {}
        s._lay = {}; s._loc = {}; s._fld = {}
        s.parse(text)

    # ---------------------------------------------------------------- parsing
    def parse(s, text):
        lines = text.split("\n")
        i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';':
                i += 1; continue
            c = l[0]
            if c == '!':
                k = l.find(" = ")
                if k > 0: s.md[l[1:k]] = l[k+3:]
            elif c == '%':
                k = l.index(" = type ")
                s.structs[unq(l[:k])] = P(tokenize(l[k+8:]), s).type() if not l.endswith("opaque") else ('st', (), False)
            elif c == '@':
                s.parse_global(l)
            elif l.startswith("declare"):
                s.parse_sig(l[7:], True)
            elif l.startswith("define"):
                f = s.parse_sig(l[6:], False)
                i += 1; cur = None
                while lines[i] != "}":
                    l = lines[i]
                    if not l:
                        i += 1; continue
                    if l[0] != ' ':
                        nm = l[:l.index(":")]
                        if nm.startswith('"'): nm = nm[1:-1]
                        cur = Block(nm, f); f.blocks.append(cur); f.bmap[nm] = cur
                    else:
                        if "@llvm.dbg." in l:
                            i += 1; continue
                        if cur is None:
                            cur = Block("0", f); f.blocks.append(cur); f.bmap["0"] = cur
                        body = l
                        if l.lstrip().startswith("switch"):
                            while not lines[i].rstrip().endswith("]") and "]," not in lines[i]:
                                i += 1; body += " " + lines[i]
                        ins = s.parse_ins(body.strip(), f)
                        ins.bb = cur; ins.idx = len(cur.ins); ins.fn = f
                        cur.ins.append(ins)
                        if ins.res is not None: f.defs[ins.res] = ins
                    i += 1
                s.finish(f)
            i += 1

    def parse_global(s, l):
        k = l.index(" = ")
        g = Global(); g.name = unq(l[:k]); g.init = None
        rest = re.sub(r", ![a-z]+ !\d+", "", l[k+3:])
        rest = re.sub(r", align \d+$", "", rest.split(", align")[0] if ", align" in rest else rest)
        p = P(tokenize(rest), s)
        g.ext = False; g.const = False
        while p.kind() == 'word' and p.pk() in ("private", "internal", "dso_local", "unnamed_addr", "local_unnamed_addr", "external", "global",
                                                  "constant", "common", "weak", "linkonce_odr", "hidden", "appending", "thread_local", "extern_weak", "alias"):
            w = p.nx()
            if w == "external": g.ext = True
            if w == "constant": g.const = True
        g.ty = p.type()
        if p.i < len(p.t) and p.pk() not in (',',):
            g.init = p.val(g.ty)
        s.globals[g.name] = g

    def parse_sig(s, l, decl):
        m = re.search(r"!dbg !(\d+)", l)
        at = l.index("@")
        head = l[:at]
        mm = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l[at:])
        nm = unq("@" + mm.group(1))
        f = Func(nm); f.decl = decl
        f.internal = "internal" in head
        # return type
        hp = P(tokenize(head), s)
        skip = {"dso_local", "internal", "private", "linkonce_odr", "weak", "hidden", "available_externally", "local_unnamed_addr", "fastcc", "ccc"} | PARAM_ATTRS
        while hp.pk() in skip or (hp.pk() and hp.pk().startswith("dereferenceable")):
            if hp.pk().startswith("dereferenceable"): hp.attrs()
            else: hp.nx()
        f.ret = hp.type()
        p = P(tokenize(l[at + len(mm.group(0)):].split(" !dbg")[0]), s)
        while not p.acc(')'):
            if p.acc('...'):
                f.vararg = True
            else:
                t = p.type(); a = p.attrs()
                nmv = None
                if p.kind() == 'loc': nmv = unq(p.nx())
                f.argt.append(t); f.args.append(nmv); f.attrs.append(a)
            p.acc(',')
        f.dbg = m.group(1) if m else None
        s.funcs[nm] = f
        return f

    def parse_ins(s, l, f):
        dbg = None
        k = l.find(", !")
        if k >= 0:
            m = re.search(r", !dbg !(\d+)", l)
            if m: dbg = m.group(1)
            l = l[:k]
        p = P(tokenize(l), s)
        res = None
        if p.kind() == 'loc' and p.pk(1) == '=':
            res = unq(p.nx()); p.nx()
        op = p.nx()
        if op in ("tail", "musttail", "notail"): op = p.nx()
        if op in BIN:
            while p.pk() in ("nsw", "nuw", "exact", "disjoint") or p.pk() in FMF: p.nx()
            t = p.type(); a = p.val(t); p.exp(','); b = p.val(t)
            return Ins(op, res, t, [(t, a), (t, b)], None, dbg)
        if op in ("icmp", "fcmp"):
            while p.pk() in FMF: p.nx()
            pred = p.nx(); t = p.type(); a = p.val(t); p.exp(','); b = p.val(t)
            return Ins(op, res, ('i', 1), [(t, a), (t, b)], pred, dbg)
        if op in CAST:
            while p.pk() in ("nneg", "nsw", "nuw"): p.nx()
            t = p.type(); a = p.val(t); p.exp('to'); t2 = p.type()
            return Ins(op, res, t2, [(t, a)], None, dbg)
        if op == "fneg":
            while p.pk() in FMF: p.nx()
            t = p.type(); a = p.val(t)
            return Ins(op, res, t, [(t, a)], None, dbg)
        if op == "load":
            x = None
            if p.acc("atomic"): x = "atomic"
            p.acc("volatile")
            t = p.type(); p.exp(','); a = p.tv()
            return Ins(op, res, t, [a], x, dbg)
        if op == "store":
            x = None
            if p.acc("atomic"): x = "atomic"
            p.acc("volatile")
            v = p.tv(); p.exp(','); a = p.tv()
            return Ins(op, None, v[0], [v, a], x, dbg)
        if op == "getelementptr":
            p.acc("inbounds")
            bt = p.type(); p.exp(',')
            ops = []
            while True:
                ops.append(p.tv())
                if not p.acc(','): break
            return Ins("gep", res, ('p',), ops, bt, dbg)
        if op == "alloca":
            t = p.type(); cnt = None
            if p.acc(',') and p.pk() != 'align':
                cnt = p.tv()
            return Ins(op, res, ('p',), [cnt] if cnt else [], t, dbg)
        if op == "phi":
            while p.pk() in FMF: p.nx()
            t = p.type(); inc = []
            while True:
                p.exp('['); v = p.val(t); p.exp(','); b = unq(p.nx()); p.exp(']')
                inc.append((v, b))
                if not p.acc(','): break
            return Ins(op, res, t, [], inc, dbg)
        if op == "br":
            t = p.type()
            if t[0] == 'label':
                return Ins(op, None, None, [], [unq(p.nx())], dbg)
            c = p.val(t); p.exp(','); p.type(); b1 = unq(p.nx()); p.exp(','); p.type(); b2 = unq(p.nx())
            return Ins(op, None, None, [(t, c)], [b1, b2], dbg)
        if op == "switch":
            c = p.tv(); p.exp(','); p.type(); d = unq(p.nx()); p.exp('[')
            cs = []
            while not p.acc(']'):
                t = p.type(); v = p.val(t); p.exp(','); p.type(); cs.append((v[1], unq(p.nx())))
            return Ins(op, None, None, [c], (d, cs), dbg)
        if op == "ret":
            t = p.type()
            return Ins(op, None, t, [] if t[0] == 'v' else [(t, p.val(t))], None, dbg)
        if op == "unreachable":
            return Ins(op, None, None, [], None, dbg)
        if op == "call":
            while p.pk() in FMF or p.pk() in ("fastcc", "ccc"): p.nx()
            p.attrs()
            t = p.type()
            if t[0] == 'fn': rt = t[1]
            else: rt = t
            cal = p.val(('p',))
            if cal[0] == 'asm':
                return Ins(op, res, rt, [], ('asm',), dbg)
            p.exp('(')
            args = []
            while not p.acc(')'):
                at = p.type(); aa = p.attrs()
                if at[0] == 'metadata':
                    while p.pk() not in (',', ')'): p.nx()
                    args.append((at, ('md', ''))); p.acc(','); continue
                args.append((at, p.val(at), aa)); p.acc(',')
            return Ins(op, res, rt, args, cal, dbg)
        if op == "select":
            while p.pk() in FMF: p.nx()
            a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv()
            return Ins(op, res, b[0], [a, b, c], None, dbg)
        if op in ("extractvalue",):
            a = p.tv(); ix = []
            while p.acc(','): ix.append(int(p.nx()))
            return Ins(op, res, None, [a], ix, dbg)
        if op in ("insertvalue",):
            a = p.tv(); p.exp(','); b = p.tv(); ix = []
            while p.acc(','): ix.append(int(p.nx()))
            return Ins(op, res, a[0], [a, b], ix, dbg)
        if op == "atomicrmw":
            p.acc("volatile"); o = p.nx(); a = p.tv(); p.exp(','); b = p.tv()
            return Ins(op, res, b[0], [a, b], o, dbg)
        if op == "cmpxchg":
            p.acc("weak"); p.acc("volatile"); a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv()
            return Ins(op, res, ('st', (b[0], ('i', 1)), False), [a, b, c], None, dbg)
        if op == "freeze":
            a = p.tv()
            return Ins(op, res, a[0], [a], None, dbg)
        if op == "fence":
            return Ins(op, None, None, [], None, dbg)
        if op in ("va_arg",):
            a = p.tv(); p.exp(','); t = p.type()
            return Ins(op, res, t, [a], None, dbg)
        if op in ("extractelement", "insertelement", "shufflevector"):
            ops = [p.tv()]
            while p.acc(','): ops.append(p.tv())
            t = ops[0][0]
            if op == "extractelement": t = t[2]
            return Ins(op, res, t, ops, None, dbg)
        raise SyntaxError("ins %s: %s" % (op, l))

    def finish(s, f):
        for b in f.blocks:
            t = b.ins[-1]
            if t.op == "br": tg = list(t.x)
            elif t.op == "switch": tg = [t.x[0]] + [c[1] for c in t.x[1]]
            else: tg = []
            seen = []
            for x in tg:
                if x not in seen: seen.append(x)
            b.succ = [f.bmap[x] for x in seen]
        for b in f.blocks:
            for c in b.succ: c.pred.append(b)
        # reverse post order
        order = []; vis = set()
        st = [(f.blocks[0], iter(f.blocks[0].succ))]; vis.add(f.blocks[0])
        while st:
            b, it = st[-1]
            for c in it:
                if c not in vis:
                    vis.add(c); st.append((c, iter(c.succ))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        for i, b in enumerate(order): b.rpo = i
        f.rpo = order
        s.walks(f)

    nwalk = [0, 0, 0]
    def walks(s, f):
        """derived loop variables are read as expressions over one counter, so that what the loop
        test says about the counter is known of them too:
        - a pointer walking to an end derived from the same start (p = start; p != start + n; p += k);
        - a pointer that steps together with a counter starting at 0;
        - a counter that steps down from v while another steps up from 0"""
        I64 = ('i', 64)
        def loopvar(b, ph):
            """(start, block entering, step value, latch) of a loop phi"""
            if len(ph.x) != 2: return None
            (v0, b0), (v1, b1) = ph.x
            if f.bmap[b0].rpo >= b.rpo: v0, b0, v1, b1 = v1, b1, v0, b0
            if f.bmap[b1].rpo < b.rpo or f.bmap[b0].rpo >= b.rpo or v1[0] != 'r' or v0[0] not in 'rgc' or (v0[0] == 'r' and f.defs.get(v0[1]) is None and v0[1] not in f.args): return None
            d = f.defs.get(v1[1])
            return (v0, b0, v1, b1, d) if d is not None and len(d.a) == 2 and d.a[0][1] == ('r', ph.res) and d.a[1][1][0] == 'c' else None
        def mk(op, res, ty, a, x, at, bl, pos):
            n = Ins(op, res, ty, a, x, at.dbg); n.bb = bl; n.fn = f
            f.defs[res] = n; bl.ins.insert(pos, n)
            return n
        def nphi(b): return sum(1 for i in b.ins if i.op == "phi")
        def become(b, ph, op, ty, a, x):
            """the phi is an expression of the counter: computed where it is used"""
            b.ins.remove(ph)
            ph.op, ph.ty, ph.a, ph.x = op, ty, a, x
            b.ins.insert(nphi(b), ph)
            old = ('r', ph.res)
            for c in f.blocks:
                if c.rpo < 0: continue
                for i in list(c.ins):
                    if i.op == "phi":
                        for n, (v, q) in enumerate(i.x):
                            if v == old and q != b.name:
                                bl = f.bmap[q]; r = ph.res + ".at." + q + ".end"
                                if r not in f.defs: mk(op, r, ty, list(a), x, ph, bl, len(bl.ins) - 1)
                                i.x[n] = (('r', r), q)
                    elif c is not b:
                        hit = False
                        for n, o in enumerate(i.a):
                            if o[1] == old:
                                hit = True; i.a[n] = (o[0], ('r', ph.res + ".at." + c.name)) + tuple(o[2:])
                        if hit and ph.res + ".at." + c.name not in f.defs: mk(op, ph.res + ".at." + c.name, ty, list(a), x, ph, c, nphi(c))
            for c in f.blocks:
                for j, i in enumerate(c.ins): i.idx = j
        for b in f.blocks:
            if not any(p.rpo >= b.rpo >= 0 for p in b.pred): continue
            for ph in [i for i in b.ins if i.op == "phi"]:
                lv = loopvar(b, ph)
                if lv is None: continue
                v0, b0, v1, b1, d = lv
                k = d.a[1][1][1]
                def counter(ty, step):
                    for c in b.ins:
                        if c.op != "phi": return None
                        if c is ph or c.ty not in ty: continue
                        w = loopvar(b, c)
                        if w is not None and w[0] == ('c', 0) and w[4].op == "add" and w[4].a[1][1] == ('c', step): return c, w
                if ph.ty[0] == 'i' and d.op == "add" and k in (-1, (1 << ph.ty[1]) - 1) and v0[0] == 'r':
                    c = counter((ph.ty,), 1)
                    if c is None: continue
                    c, w = c; s.nwalk[2] += 1
                    for q in f.blocks:
                        for i in q.ins:
                            if i.op == "icmp" and i.a[0][1] == ('r', ph.res) and i.a[1][1] == ('c', 0) and i.x in ("sgt", "ne", "eq", "sle", "ugt"):
                                i.x = {"sgt": "slt", "sle": "sge", "ugt": "ult"}.get(i.x, i.x); i.a = [(ph.ty, ('r', c.res)), (ph.ty, v0)]
                            elif i.op == "icmp" and i.a[0][1] == ('r', ph.res) and i.a[1][1] == ('c', 1) and i.x in ("sge", "slt"):
                                i.x = {"sge": "slt", "slt": "sge"}[i.x]; i.a = [(ph.ty, ('r', c.res)), (ph.ty, v0)]
                    become(b, ph, "sub", ph.ty, [(ph.ty, v0), (ph.ty, ('r', c.res))], None)
                    continue
                if ph.ty != ('p',) or d.op != "gep" or v0[0] == 'c': continue
                T = d.x
                def dist(o):
                    """operand as start + n (in T): the operand for n"""
                    if o == v0: return ('c', 0)
                    g = f.defs.get(o[1]) if o[0] == 'r' else None
                    if g is None or g.op != "gep" or len(g.a) != 2 or g.x != T or g.a[0][1] != v0: return None
                    ty, n = g.a[1][:2]
                    return n if n[0] == 'c' or ty == I64 else None
                cm = []
                for c in f.blocks:
                    for i in c.ins:
                        if i.op != "icmp" or i.a[0][0] != ('p',): continue
                        l, r = i.a[0][1], i.a[1][1]
                        for x, y, z in ((l, r, 0), (r, l, 1)):
                            if x in (('r', ph.res), v1):
                                n = dist(y)
                                if n is not None: cm.append((i, x, n, z)); break
                if not cm:
                    c = counter((('i', 32), I64), k)
                    if c is None: continue
                    s.nwalk[1] += 1
                    become(b, ph, "gep", ('p',), [(('p',), v0), (c[0].ty, ('r', c[0].res))], T)
                    continue
                iv = ph.res + ".walk"; nx = v1[1] + ".walk"
                if iv in f.defs or nx in f.defs: continue
                s.nwalk[0] += 1
                mk("phi", iv, I64, [], [(('c', 0), b0), (('r', nx), b1)], ph, b, 0)
                bl = next(c for c in f.blocks if d in c.ins)
                mk("add", nx, I64, [(I64, ('r', iv)), (I64, ('c', k))], None, d, bl, bl.ins.index(d))
                d.a = [(('p',), v0), (I64, ('r', nx))]
                for i, x, n, z in cm:
                    me = (I64, ('r', iv if x == ('r', ph.res) else nx)); ot = (I64, n)
                    i.a = [ot, me] if z else [me, ot]
                    if i.x[0] == 'u': i.x = 's' + i.x[1:]
                become(b, ph, "gep", ('p',), [(('p',), v0), (I64, ('r', iv))], T)

    # ---------------------------------------------------------------- layout
    def res(s, t):
        while t[0] == 'ns': t = s.structs[t[1]]
        return t
    def lay(s, t):
        """(size, align, field offsets or None)"""
        r = s._lay.get(t)
        if r: return r
        k = t[0]
        if k == 'i':
            n = max(1, (t[1] + 7) // 8)
            z = 1
            while z < n: z *= 2
            r = (z, min(z, 16), None)
        elif k == 'f': r = {32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None)}[t[1]]
        elif k == 'p': r = (8, 8, None)
        elif k == 'arr':
            e = s.lay(t[2]); r = (e[0] * t[1], e[1], None)
        elif k == 'vec':
            e = s.lay(t[2]); r = (e[0] * t[1], e[0] * t[1], None)
        elif k == 'ns': r = s.lay(s.structs[t[1]])
        elif k == 'st':
            off = 0; al = 1; offs = []
            for ft in t[1]:
                z, a, _ = s.lay(ft)
                if t[2]: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += z; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        elif k == 'fn' or k == 'v': r = (1, 1, None)
        else: raise ValueError(t)
        s._lay[t] = r
        return r
    def size(s, t): return s.lay(t)[0]

    # ---------------------------------------------------------------- debug info
    def mdget(s, id, key):
        t = s.md.get(id)
        if t is None: return None
        m = re.search(r"[(, ]%s: (\"[^\"]*\"|[^,)]+)" % key, t)
        return m.group(1).strip('"') if m else None
    def loc(s, dbg):
        """(file, line)"""
        if dbg is None: return ("?", 0)
        r = s._loc.get(dbg)
        if r: return r
        t = s.md.get(dbg, "")
        line = int(s.mdget(dbg, "line") or 0)
        sc = s.mdget(dbg, "scope"); f = "?"
        while sc:
            sc = sc.lstrip("!")
            fl = s.mdget(sc, "file")
            if fl:
                f = s.mdget(fl.lstrip("!"), "filename") or "?"
                break
            sc = s.mdget(sc, "scope")
        f = f.replace("/repo/", "")
        k = f.find("source/")
        if k > 0: f = f[k:]
        r = (f, line); s._loc[dbg] = r
        return r
    def where(s, ins):
        f, l = s.loc(ins.dbg)
        return "%s:%d (%s)" % (f, l, base(ins.fn.name) if ins.fn else "?")
    def fn_file(s, f):
        if not f.dbg: return "?"
        fl = s.mdget(f.dbg, "file")
        n = s.mdget(fl.lstrip("!"), "filename") if fl else "?"
        k = n.find("source/")
        return n[k:] if k >= 0 else n
    def fields(s, sname):
        """DWARF member list of struct `sname`: [(byte offset, size, name, typeid)]"""
        if sname in s._fld: return s._fld[sname]
        out = None
        pat = 'name: "%s"' % sname
        for id, t in s.md.items():
            if "DICompositeType(tag: DW_TAG_structure_type" in t and pat in t and "elements:" in t:
                out = s.members(id); break
        s._fld[sname] = out
        return out
    def members(s, id):
        t = s.md[id]
        el = s.mdget(id, "elements").lstrip("!")
        out = []
        for x in re.findall(r"!(\d+)", s.md[el]):
            mt = s.md[x]
            if "DW_TAG_member" not in mt: continue
            o = int(s.mdget(x, "offset") or 0) // 8
            out.append((o, int(s.mdget(x, "size") or 0) // 8, s.mdget(x, "name") or "", (s.mdget(x, "baseType") or "").lstrip("!")))
        return out
    def strip_td(s, id):
        while id:
            t = s.md.get(id, "")
            if "DW_TAG_typedef" in t or "DW_TAG_const_type" in t or "DW_TAG_volatile" in t or "DW_TAG_atomic" in t:
                b = s.mdget(id, "baseType")
                if not b: return None
                id = b.lstrip("!")
            else: return id
        return None
    def enum(s, name):
        """value of an enumerator, or None"""
        if not hasattr(s, "_enum"):
            s._enum = {}
            for t in s.md.values():
                if t.find("DIEnumerator(") >= 0:
                    n = re.search(r'name: "([^"]*)"', t); v = re.search(r"value: (-?\d+)", t)
                    if n and v: s._enum[n.group(1)] = int(v.group(1))
        return s._enum.get(name)
    def struct_id(s, sname):
        pat = 'name: "%s"' % sname
        for id, t in s.md.items():
            if "DICompositeType(tag: DW_TAG_structure_type" in t and pat + "," in t and "elements:" in t:
                return id
        return None
    def path_at(s, id, off):
        """human-readable field path (array indices erased) at byte offset in DI type id"""
        id = s.strip_td(id)
        if not id: return ""
        t = s.md[id]
        if "DW_TAG_structure_type" in t or "DW_TAG_union_type" in t:
            best = None
            if "elements:" not in t: return ""
            for o, z, n, ty in s.members(id):
                if o <= off < o + max(z, 1):
                    best = (o, n, ty)
                    break
            if not best: return "+%d" % off
            sub = s.path_at(best[2], off - best[0])
            return (("." + best[1]) if best[1] else "") + sub
        if "DW_TAG_array_type" in t:
            bt = (s.mdget(id, "baseType") or "").lstrip("!")
            el = s.strip_td(bt)
            z = s.di_size(el) or 1
            dims = len(re.findall(r"!(\d+)", s.md[s.mdget(id, "elements").lstrip("!")])) or 1
            return "[]" * dims + s.path_at(bt, off % z)
        return ("+%d" % off) if off else ""
    def leaf_at(s, id, off):
        """DWARF type id of the scalar at byte offset off in type id"""
        for _ in range(30):
            id = s.strip_td(id)
            if not id: return None
            t = s.md[id]
            if "DW_TAG_structure_type" in t or "DW_TAG_union_type" in t:
                if "elements:" not in t: return None
                for o, z, n, ty in s.members(id):
                    if o <= off < o + max(z, 1): off -= o; id = ty; break
                else: return None
            elif "DW_TAG_array_type" in t:
                id = (s.mdget(id, "baseType") or "").lstrip("!")
                z = s.di_size(id)
                if not z: return None
                off %= z
            else: return id
        return None
    def pointee_struct(s, id):
        """struct name a pointer type id points to, or None"""
        id = s.strip_td(id)
        if not id or "DW_TAG_pointer_type" not in s.md[id]: return None
        b = s.strip_td((s.mdget(id, "baseType") or "").lstrip("!"))
        if "DW_TAG_structure_type" not in s.md.get(b or "", ""): return None
        return s.mdget(b, "name")
    def di_size(s, id):
        id = s.strip_td(id)
        if not id: return 0
        return int(s.mdget(id, "size") or 0) // 8

def base(n):
    """function name without the linker's duplicate suffix"""
    m = re.match(r"(.*?)\.\d+$", n)
    return m.group(1) if m else n
