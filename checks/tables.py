"""Keyword tables, instruction lengths, assignable built-in variables and error messages:
facts about finite tables and finite domains, decided by reading the initialised tables of
the translated program and by constant propagation over every member of the domain."""
import json, os
import common, restype, contracts, ir
from common import Broken
from contracts import ir_base
from dom import *
from absint import Region, State

REVIEWED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "reviewed.json")
def reviewed():
    with open(REVIEWED) as f: return json.load(f)

OPS = {"+": "ADD", ",": "COMMA", "-": "SUBTRACT", "*": "MULTIPLY", "/": "DIVIDE", ";": "SEMICOLON", "=": "ASSIGN", "(-)": "NEGATE", "==": "EQUAL", "!=": "NOT_EQUAL",
       "<": "LESS", ">": "GREATER", "<=": "LESS_EQUAL", ">=": "GREATER_EQUAL", "%": "MODULO", "AND": "AND", "OR": "OR", "XOR": "XOR", "NOT": "NOT", "!": "LOGICAL_NOT",
       "(": "OPEN_PAREN", ")": "CLOSE_PAREN", "[": "OPEN_BRACKET", "]": "CLOSE_BRACKET"}
OPFN = {"+": "add", ",": "comma", "-": "sub", "*": "mult", "/": "div", ";": "semi", "=": "assign", "(-)": "negate", "==": "equal", "!=": "inequal", "<": "less", ">": "greater",
        "<=": "less_equal", ">=": "greater_equal", "%": "modulo", "AND": "and", "OR": "or", "XOR": "xor", "NOT": "not", "!": "logical_not"}
def ident(kind, kw):
    """the spelling of a keyword inside C identifiers"""
    if kind == "op": return OPS.get(kw)
    return kw.strip("[]").rstrip("$")
def conv(kind, kw):
    if kind == "op": return "op_" + OPFN[kw] if kw in OPFN else None
    return {"cmd": "cmd_", "func": "func_", "sys": "sys_"}[kind] + ident(kind, kw).lower()

def keywords(M):
    """{kind: [(keyword, implementation, form or None)]} with the count of each table"""
    return {"cmd": (M.cmd_names, M.commands, M.cmd_format), "func": (M.func_names, M.functions, M.func_format),
            "op": (M.op_names, M.operators, M.op_format), "sys": (M.sys_names, M.sysvars, None)}

WORD = {"cmd": "command", "func": "function", "op": "operator", "sys": "built-in variable"}
PRE = {"cmd": "CMD_", "func": "FUNC_", "op": "OP_", "sys": "SYS_"}

def c03(rep):
    M = common.machine()
    R = reviewed()["keywords"]
    n = 0
    for kind, (names, impl, form) in keywords(M).items():
        W = WORD[kind]
        rep.need(W + "s", len(names), 15)
        rv = R[kind]
        opers = [x for x in names if x not in "()[]"] if kind == "op" else names
        if len(impl) != len(opers): rep.violation("%s|impl-count" % kind, "runner.c: %d %s names but %d implementations" % (len(opers), W, len(impl)))
        if form is not None and len(form) != len(names): rep.violation("%s|form-count" % kind, "tokens.c: %d %s names but %d argument forms" % (len(names), W, len(form)))
        if kind == "func" and len(contracts.RET(M)) != len(names): rep.violation("func|ret-count", "tokens.c: %d function names but %d result kinds" % (len(names), len(contracts.RET(M))))
        if kind == "sys" and len(M.sysvalid) != len(names): rep.violation("sys|valid-count", "runner.c: %d built-in variables but %d validity checks" % (len(names), len(M.sysvalid)))
        for kw in sorted(set(x for x in names if names.count(x) > 1)): rep.violation("%s|dup|%s" % (kind, kw), "tokens.c: %s %s is listed twice" % (W, kw))
        for kw in sorted(set(rv) - set(names)): rep.violation("%s|gone|%s" % (kind, kw), "tokens.c: %s %s is not in the name list" % (W, kw))
        own = {conv(kind, k): k for k in names if conv(kind, k)}
        enums = {k[len(PRE[kind]):]: v for k, v in enumerators(M).items() if k.startswith(PRE[kind])}
        ids = {ident(kind, k): (i, k) for i, k in enumerate(names)}
        for e, v in enums.items():
            if e in ids:
                n += 1
                if ids[e][0] != v: rep.violation("%s|enum|%s" % (kind, e), "ptc.h: identifier %s%s is %d, but the name list has %s at %d and %s at %d" % (PRE[kind], e, v, ids[e][1], ids[e][0], names[v] if v < len(names) else "nothing", v))
        for i, kw in enumerate(names):
            if i < len(impl) and not (kind == "op" and kw in "()[]"):
                n += 1; f = impl[i]; b = ir_base(f) if f else None
                if b is None: rep.violation("%s|null|%s" % (kind, kw), "runner.c: %s %s has no implementation" % (W, kw))
                elif b in own and own[b] != kw: rep.violation("%s|impl|%s" % (kind, kw), "runner.c: %s %s is carried out by %s, which belongs to %s" % (W, kw, b, own[b]))
                elif kw in rv:
                    stub = b if b in ("ptc_stub", "ptc_func_stub", "ptc_err") else None
                    if stub != rv[kw].get("stub"): rep.violation("%s|stub|%s" % (kind, kw), "runner.c: %s %s is carried out by %s instead of %s" % (W, kw, b, rv[kw].get("stub") or conv(kind, kw)))
            if form is not None and i < len(form) and kw in rv:
                n += 1; f = form[i]; want = rv[kw]["form"]
                if f is None: rep.violation("%s|form|%s" % (kind, kw), "tokens.c: %s %s has no argument form" % (W, kw)); continue
                for s in sorted(set(contracts.samples(f)) | set(contracts.samples(want)), key=lambda x: (len(x), x)):
                    if contracts.admits(f, s) != contracts.admits(want, s):
                        rep.violation("%s|form|%s" % (kind, kw), "tokens.c: %s %s %s the argument kinds \"%s\" (its form is \"%s\" instead of \"%s\")" % (W, kw, "accepts" if contracts.admits(f, s) else "rejects", s, f, want)); break
            if kind == "func":
                r = contracts.RET(M)
                if i < len(r):
                    n += 1
                    if (r[i] == 'S') != kw.endswith("$") or r[i] not in "NS": rep.violation("func|ret|%s" % kw, "tokens.c: function %s is given the result kind %s" % (kw, r[i]))
            if kind == "sys" and i < len(M.sysvalid):
                n += 1; f = M.sysvalid[i]; b = ir_base(f) if f else None
                vown = {"syschk_" + ident("sys", k).lower(): k for k in names}
                if b in vown and vown[b] != kw: rep.violation("sys|valid|%s" % kw, "runner.c: built-in variable %s is checked by %s, which belongs to %s" % (kw, b, vown[b]))
    rep.need("table entries compared", n, 400)

def enumerators(M):
    M.m.enum("")
    return M.m._enum

# ---------------------------------------------------------------- the translator on constant tokens
class Tok:
    """a tokenizer state made of constant tokens"""
    def __init__(s, M):
        s.M = M
        m = lambda p: M.member("tokenizer", p)
        s.o = {k: m(k) for k in ("tokens", "token_i", "source", "output", "opts", "cursor", "lines_processed", "system")}
        s.t = {k: M.member("token", k) for k in ("type", "cmd", "ofs", "len", "prio")}
        s.tz = M.m.size(('ns', 'struct.token'))
        s.bz = {k: M.member("bytecode", k) for k in ("size", "data")}
        s.pz = {k: M.member("program", k) for k in ("size", "data")}
        s.zz = M.m.size(('ns', 'struct.tokenizer'))
    def ty(s, name):
        v = s.M.m.enum(name)
        if v is None: raise Broken("token type %s not found" % name)
        return v
    def state(s, toks, text=b""):
        """toks: [dict]; returns (State, tokenizer pointer, output data region, output region)"""
        M = s.M; st = State()
        T = Region("tokenizer state", s.zz, ('ns', 'struct.tokenizer'), "heap", M.m)
        out = Region("output", None, ('ns', 'struct.bytecode'), "heap", M.m)
        data = Region("output bytes", 4096, ('arr', 4096, ('i', 8)), "alloca", M.m)
        src = Region("source", None, ('ns', 'struct.program'), "heap", M.m)
        tx = restype.const_region(M, list(text) + [13, 0], "text")
        d = M.it.wr(st, T)
        o0 = s.o["tokens"][0]
        for i, t in enumerate(toks):
            for o in set(range(s.tz)) - {o + j for o, z in s.t.values() for j in range(z)}: d[o0 + i * s.tz + o] = (1, C(0, 8))      # padding
            for k, (o, z) in s.t.items():
                if k in t or s.t["cmd"][0] != o or k == "cmd" and "len" not in t: d[o0 + i * s.tz + o] = (z, C(t.get(k, 0), 8 * z))
        def put(d, f, v): d[f[0]] = (f[1], v if v.__class__ is not int else C(v, 8 * f[1]))
        put(d, s.o["token_i"], len(toks)); put(d, s.o["opts"], 0); put(d, s.o["cursor"], len(text)); put(d, s.o["lines_processed"], 0)
        put(d, s.o["source"], PT((Loc(src, 0),))); put(d, s.o["output"], PT((Loc(out, 0),)))
        put(d, s.o["system"], PT((Loc(M.ptc, 0),)))
        d = M.it.wr(st, out); put(d, s.bz["size"], 0); put(d, s.bz["data"], PT((Loc(data, 0),)))
        d = M.it.wr(st, src); put(d, s.pz["size"], len(text)); put(d, s.pz["data"], PT((Loc(tx, 0),)))
        return st, PT((Loc(T, 0),)), data, out
    def test(s, fs, toks, text=b""):
        """set of results of the validator on constant tokens; None = not decided"""
        res = set()
        for f in fs:
            st, p, data, out = s.state(toks, text)
            for v, o in restype.quiet(s.M, f, [p], st):
                res.add(v.lo if v.__class__ is I and v.const else None)
        return res
    def emit(s, fs, toks, text=b""):
        """[(result, [emitted bytes, None = unknown])]"""
        res = []
        for f in fs:
            st, p, data, out = s.state(toks, text)
            for v, o in restype.quiet(s.M, f, [p], st):
                r = v.lo if v.__class__ is I and v.const else None
                d = o.mem.get(out); z = d.get(s.bz["size"][0]) if d else None
                if not z or z[1].__class__ is not I or not z[1].const: res.append((r, None)); continue
                m = o.mem.get(data) or {}
                bs = []
                for i in range(z[1].lo):
                    c = m.get(i)
                    bs.append(c[1].lo & 255 if c and c[0] == 1 and c[1].__class__ is I and c[1].const else None)
                res.append((r, bs))
        return res

def one(rep, M, name):
    fs = restype.find(M, name)
    return fs

# ---------------------------------------------------------------- C05 assignable built-in variables
def c05(rep):
    import ghost, groups
    M = common.machine()
    W = set(reviewed()["writable"])
    ft = restype.find(M, "tok_test"); fc = restype.find(M, "tok_code")
    names = M.sys_names
    rep.need("built-in variables", len(names), 30)
    if not (W <= set(names)): raise Broken("writable built-in variables not in the name list")
    # the table of validity checks
    for i, kw in enumerate(names):
        if i >= len(M.sysvalid): break
        if kw in W and M.sysvalid[i] is None: rep.violation("check|%s" % kw, "runner.c: the assignable variable %s has no validity check" % kw)
    # the translator: assignments and output arguments
    n = und = 0
    if ft and fc:
        T = Tok(M)
        num = dict(type=T.ty("number"), ofs=0, len=1); sv = dict(type=T.ty("string"), ofs=0, len=1)
        asg = dict(type=T.ty("operation"), cmd=M.m.enum("OP_ASSIGN") or 0, prio=0)
        var = dict(type=T.ty("name"), ofs=1, len=1); svar = dict(type=T.ty("name"), ofs=2, len=2)
        semi = dict(type=T.ty("operation"), cmd=M.m.enum("OP_SEMICOLON") or 0, prio=1)
        text = b"1AB$"
        cases = []      # (what, tokens around the variable, kinds admitted there)
        cases.append(("assignment of a number", [None, num, asg], "n")); cases.append(("assignment of a string", [None, sv, asg], "s"))
        for i, fm in enumerate(M.cmd_format):
            if not fm or M.cmd_names[i] in ("FOR", "TO", "STEP"): continue
            for alt in fm.split(","):
                pos = [j for j, c in enumerate(alt) if c in "nsv"]
                for j in pos:
                    tk = [None if k == j else {'N': num, 'S': sv, 'n': var, 's': svar, 'v': var, ';': semi, 'L': sv}.get(c) or num for k, c in enumerate(alt)]
                    kinds = "".join(c for c in "ns" if contracts.admits(fm, "".join(c if k == j else "n" if x == 'v' else "S" if x == 'L' else x for k, x in enumerate(alt))))
                    cases.append(("output argument %d of %s" % (j + 1, M.cmd_names[i]), tk + [dict(type=T.ty("command"), cmd=i)], kinds))
        for i, kw in enumerate(names):
            me = dict(type=T.ty("sysvar"), cmd=i)
            k = "s" if kw.endswith("$") else "n"
            for what, tk, kinds in cases:
                res = T.test(ft, [me if t is None else t for t in tk], text); n += 1
                if None in res or not res: und += 1; continue
                acc = res == {0}
                want = kw in W and k in kinds
                if len(res) > 1: und += 1; continue
                if acc != want:
                    rep.violation("accept|%s|%s" % (kw, what), "tok_test: the built-in variable %s is %s as %s" % (kw, "accepted" if acc else "rejected", what))
            for r, bs in T.emit(fc, [me, sv, asg], text):
                n += 1
                if r is None or bs is None or None in bs: und += 1; continue
                y = M.m.enum("BC_SYSVAR_VALIDATE"); z = M.m.enum("BC_SYSVAR")
                ck = [bs[j + 1] for j in range(0, len(bs) - 1, 2) if bs[j] == y]
                pos = [j for j in range(0, len(bs) - 1, 2) if bs[j] == z]
                if kw in W and (ck != [i] or bs[-2:] != [y, i]): rep.violation("emit|%s" % kw, "tok_code: an assignment to %s is not followed by its validity check" % kw)
                if kw not in W and ck: rep.violation("emit|%s" % kw, "tok_code: a validity check is emitted for the read-only variable %s" % kw)
        rep.cov["uses of a built-in variable as a target decided by constant propagation"] = n
        rep.cov["uses not decided"] = und
        if und * 4 > n: raise Broken("%d of %d uses of built-in variables not decided" % (und, n))
    else: rep.notes.append("tok_test or tok_code not found: the translator is not examined")
    # the value each variable's function leaves on the stack
    h = contracts.Stack(rep)
    M2, g = ghost.run(rep, h, None, [], 25, maxrounds=1, base=contracts.BASE, only=lambda e: e.kind == "sys")
    es = {e.id: e for e in g.ents}; k = 0
    for id, fs in sorted(g.finals.items()):
        for desc, err, sti, top, pq in fs:
            if err == 'N' or top is None: continue
            e = es[id]; k += 1
            isv = {bool(t & contracts.VARIABLE) for t in range(top[0], top[1] + 1)}
            if e.name in W and False in isv: rep.violation("value|%s" % e.name, "%s (%s): the assignable variable is not passed as a variable" % (id, M2.fn(e.fn).name))
            if e.name not in W and True in isv: rep.violation("value|%s" % e.name, "%s (%s): the read-only variable is passed as a variable, so that storing into it changes it" % (id, M2.fn(e.fn).name))
    rep.need("values left by built-in variables", k, 30)
    validators(rep, M)
    rep.assume += ["constant propagation follows every path of the translator on each listed token sequence"]

def validators(rep, M):
    """after its validity check a variable holds an admissible value"""
    one = 4096; n = und = 0
    vals = [-2**31, -2**31 + 1, -one * 5 - 3, -one, -one + 1, -1, 0, 1, one - 1, one, one + 1, 2 * one, 5 * one + 7, 15 * one, 16 * one, 16 * one + 1, 17 * one, 300 * one, 2**31 - 1]
    def idx(kw): return M.sysvalid[M.sys_names.index(kw)]
    def runv(kw, cells):
        f = M.m.funcs.get(idx(kw) or "")
        if f is None: return None
        st = State(); d = M.it.wr(st, M.ptc); d[M.o_err] = (4, C(0, 32))
        for k, v in cells.items():
            o, z = M.member("ptc", k); d[o] = (z, C(v, 8 * z))
        return [o for v, o in restype.quiet(M, f, [PT((Loc(M.ptc, 0),))], st)]
    def get(o, k):
        a, z = M.member("ptc", k); c = (o.mem.get(M.ptc) or {}).get(a)
        return c[1].lo if c and c[1].__class__ is I and c[1].const else None
    def ck(kw, cells, k, ok, what):
        nonlocal n, und
        outs = runv(kw, cells)
        if not outs: und += 1; return
        for o in outs:
            n += 1; v = get(o, k)
            if v is None: und += 1; continue
            if M.it.errkey(o) == '0' and not ok(v): rep.violation("range|%s" % kw, "%s: assigning %s to %s leaves it at %s, %s" % (ir_base(idx(kw)), "/".join("%.4f" % (x / one) for x in cells.values()), kw, "%.4f" % (v / one) if abs(v) > 64 else v, what))
    try:
        for v in vals:
            ck("ICONPUSE", {"panel.iconpuse": v}, "panel.iconpuse", lambda x: x == (one if v else 0), "which is neither TRUE nor FALSE as assigned")
            ck("MEMSAFE", {"memapi.sys_memsafe": v}, "memapi.sys_memsafe", lambda x: x == (one if v else 0), "which is neither TRUE nor FALSE as assigned")
            ck("ICONPMAX", {"panel.iconpmax": v}, "panel.iconpmax", lambda x: x >= 0 and x % one == 0 and (v < 0 or x == v // one * one), "which is not the whole number assigned")
            ck("TABSTEP", {"console.sys_tabstep": v}, "console.tabstep", lambda x: x == min(16, max(1, v >> 12)), "which is not within 1 to 16")
            for mx in (0, one, 7 * one, 2**31 - one):
                ck("ICONPAGE", {"panel.iconpage": v, "panel.iconpmax": mx}, "panel.iconpage", lambda x: 0 <= x <= mx and x % one == 0 and (not (0 <= v <= mx) or x == v // one * one), "which is not within 0 to ICONPMAX")
    except Exception as e:
        if e.__class__.__name__ != "Anchor" and not isinstance(e, ValueError): raise
        rep.notes.append("validity checks not examined: %s" % e); return
    rep.cov["validity checks on boundary values"] = n; rep.cov["validity checks not decided"] = und

# ---------------------------------------------------------------- C04 instruction lengths
MARK = 0xFE
def c04(rep):
    M = common.machine()
    fs = restype.find(M, "bc_scan_pair"); fr = restype.find(M, "_run"); fc = restype.find(M, "tok_code")
    if not fs: rep.notes.append("bc_scan_pair not found: the scanner is not examined")
    if not fr: rep.notes.append("_run not found: the executing loop is not examined")
    if not fc: rep.notes.append("tok_code not found: the translator is not examined")
    if (not fs) + (not fr) + (not fc) > 1: raise Broken("two of the three consumers of compiled code were not found")
    T = Tok(M)
    bz = M.m.size(('ns', 'struct.bytecode'))
    def code(bs, size, extra=None):
        st = State()
        c = Region("compiled code", bz, ('ns', 'struct.bytecode'), "heap", M.m)
        data = restype.const_region(M, bs, "code bytes")
        d = M.it.wr(st, c)
        d[T.bz["size"][0]] = (T.bz["size"][1], C(size, 8 * T.bz["size"][1])); d[T.bz["data"][0]] = (8, PT((Loc(data, 0),)))
        return st, PT((Loc(c, 0),))
    def scan(bs):
        """offset at which the scanner finds the end of the instructions bs"""
        out = set()
        for f in fs:
            st, c = code(bs + [MARK] * 600, len(bs) + 600)
            for v, o in restype.quiet(M, f, [c, C(0, M.m.size(f.argt[1]) * 8), C(MARK, 8)], st):
                out.add((v.lo >> 32) & 0xffffffff if v.__class__ is I and v.const else None)
        return out
    cnt = dict(scan=0, run=0, emit=0); und = dict(scan=0, run=0, emit=0)
    oi = M.member("ptc", "exec.index")
    tabfns = {f for t in (M.commands, M.functions, M.operators, M.sysvars, M.sysvalid) for f in t if f}
    stops = {"get_var", "get_arr_entry", "get_arr_entry_via_ptr", "get_new_arr_var", "get_new_arr"}
    def runl(bs):
        out = set(); it = M.it
        saved = dict(it.models)
        def nop(it, ins, args, st): return [(None, st)]
        def anyp(it, ins, args, st): return [(PT((Loc(M.ucell[0], 0),)) if ins.ty == ('p',) else it.unknown(ins.ty, False), st)]
        for f in tabfns: it.models[f] = nop
        for n in stops: it.models[n] = anyp
        it.direct = "_run"
        try:
            for f in fr:
                st, c = code(bs + [MARK] * 600, 2)
                d = it.wr(st, M.ptc)
                d[M.o_err] = (4, C(0, 32)); d[M.o_argc] = (4, C(0, 32)); d[M.o_sti] = (1, C(3, 8))
                try: outs = restype.quiet(M, f, [c, PT((Loc(M.ptc, 0),)), C(0, 1)], st)
                except restype.Budget: return {None}, False
                bad = False
                for v, o in outs:
                    x = (o.mem.get(M.ptc) or {}).get(oi[0]); e = (o.mem.get(M.ptc) or {}).get(M.o_err)
                    if e and e[1].__class__ is I and e[1].const and e[1].lo:
                        bad = bad or e[1].lo == M.m.enum("ERR_INVALID_BC"); continue
                    out.add(x[1].lo if x and x[1].__class__ is I and x[1].const else None)
        finally:
            it.models = saved; it.direct = None
        return out, bad
    def ch(b): return "%s %d" % (chr(b[0]), b[1])
    # every kind of instruction with every operand: the scanner against the executing loop
    kinds = {}
    for k, v in enumerators(M).items():
        if k.startswith("BC_") and 32 <= v < 127: kinds.setdefault(v, k)
    rep.need("instruction kinds", len(kinds), 18)
    if fs and fr:
        for op, nm in sorted(kinds.items()):
            if nm == "BC_BEGIN_LOOP": continue
            for arg in range(256):
                if nm in ("BC_VARIABLE_NAME", "BC_ARRAY_NAME", "BC_DIM") and not (1 < arg < 64 or ord('A') <= arg <= ord('Z')): continue
                if nm not in ("BC_STRING", "BC_LABEL", "BC_LABEL_STRING", "BC_DATA", "BC_VARIABLE_NAME", "BC_ARRAY_NAME", "BC_DIM", "BC_SMALL_NUMBER") and arg not in (0, 1, 2, 3, 7, 64, 65, 90, 99, 127, 128, 200, 255): continue
                bs = [op, arg]
                r, bad = runl(bs + [65] * 4)
                if bad or not r: continue
                cnt["run"] += 1
                if None in r or len(r) != 1: und["run"] += 1; continue
                L = r.pop()
                s = scan([op, arg] + [65] * (L - 2)) if L >= 2 else set()
                cnt["scan"] += 1
                if None in s: und["scan"] += 1; continue
                if s != {L}:
                    rep.violation("length|%s" % nm, "%s: the executing loop advances by %d bytes over the instruction %s with operand %d, the scanner by %s" % (M.m.where(fs[0].blocks[0].ins[0]), L, nm, arg, "/".join(map(str, s))))
    # what the translator emits, against the scanner and the executing loop
    if fc and fs:
        text = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ" * 12
        cases = []
        def add(name, t, text=text, opts=0): cases.append((name, t, text))
        for i, k in enumerate(M.cmd_names):
            if k == "DATA": continue
            add("command " + k, dict(type=T.ty("command"), cmd=i)); add("command at the start of a line " + k, dict(type=T.ty("first_of_line_command"), cmd=i))
        for i, k in enumerate(M.func_names): add("function " + k, dict(type=T.ty("function"), cmd=i))
        for i, k in enumerate(M.op_names):
            if k not in "()[]": add("operator " + k, dict(type=T.ty("operation"), cmd=i))
        for i, k in enumerate(M.sys_names): add("built-in variable " + k, dict(type=T.ty("sysvar"), cmd=i))
        for s in ("0", "1", "99", "100", "0.5", "1.25", "255", "4095", "65535", "524287", "99.999"): add("number " + s, dict(type=T.ty("number"), ofs=0, len=len(s)), s.encode())
        for s in ("&HFF", "&H1", "&HFFFFF", "&B101", "&HFFFFFFFF"): add("number " + s, dict(type=T.ty("base_number"), ofs=0, len=len(s)), s.encode())
        for L in range(256): add("string of %d characters" % L, dict(type=T.ty("string"), ofs=0, len=L))
        for L in range(1, 17):
            for ty in ("label", "label_string", "name", "array_name", "array_actual", "dim_arr"):
                add("%s of %d characters" % (ty, L), dict(type=T.ty(ty), ofs=0, len=L))
                if ty not in ("label", "label_string"): add("string %s of %d characters" % (ty, L + 1), dict(type=T.ty(ty), ofs=0, len=L + 1), text[:L] + b"$" + text)
        for L in range(0, 3): add("argument count %d" % L, dict(type=T.ty("arg_count"), len=L))
        add("loop begin", dict(type=T.ty("loop_begin")))
        dat = [i for i, k in enumerate(M.cmd_names) if k == "DATA"]
        for s in ("", " ", "1", " 1,2", " A,B,C", '"X Y",Z', " 12 ,34 ,", "A" * 30, "A" * 254, "A" * 255):
            if dat: add("DATA line %r" % s[:12], dict(type=T.ty("command"), cmd=dat[0], ofs=0), b"DATA" + s.encode())
        for name, t, tx in cases:
            for r, bs in T.emit(fc, [t], tx):
                cnt["emit"] += 1
                if r == 0 and bs and None not in bs[:2]: bs = [65 if b is None else b for b in bs]      # only lengths matter here
                if r is None or r == 0 and (bs is None or None in bs):
                    und["emit"] += 1
                    if os.environ.get("SBC_DBG"): print("UND", name, r, bs and len(bs))
                    continue
                if r: continue
                key = re_key(name)
                if len(bs) % 2: rep.violation("odd|%s" % key, "tok_code: a %s is translated to %d bytes, an odd number" % (name, len(bs))); continue
                if not bs: continue
                s = scan(bs)
                if None in s: und["scan"] += 1
                elif s != {len(bs)}: rep.violation("emit|%s" % key, "tok_code: a %s is translated to %d bytes, but the scanner advances by %s" % (name, len(bs), "/".join("nothing" if x > 9999 else str(x) for x in s)))
                if fr and bs[0] != M.m.enum("BC_BEGIN_LOOP"):
                    q, bad = runl(bs)
                    if bad: rep.violation("unknown|%s" % key, "tok_code: a %s is translated to instruction %s, which the executing loop does not know" % (name, ch(bs)))
                    elif None in q or not q: und["run"] += 1
                    else:
                        one = len(bs) if not (len(bs) >= 4 and bs[0] == M.m.enum("BC_SYSVAR")) else 2
                        if q != {one}: rep.violation("emit-run|%s" % key, "tok_code: a %s is translated to %d bytes, but the executing loop advances by %s" % (name, one, "/".join(map(str, q))))
    for k, w in (("run", "executing loop steps"), ("scan", "scanner steps"), ("emit", "translated tokens")):
        rep.cov[w] = cnt[k]; rep.cov[w + " not decided"] = und[k]
        if cnt[k] and und[k] * 3 > cnt[k]: raise Broken("%d of %d %s not decided" % (und[k], cnt[k], w))
    rep.assume += ["statements, functions and operators called by the executing loop are not entered: the position after an instruction is the one the loop itself sets"]

def re_key(name):
    return common.numless(name)

# ---------------------------------------------------------------- C06 error messages
class ErrVal:
    pass
def c06(rep):
    import ghost
    M = common.machine()
    tab = M.strtab("error_messages")
    rep.need("error messages", len(tab), 60)
    en = {k: v for k, v in enumerators(M).items() if k.startswith("ERR_")}
    rep.need("error identifiers", len(en), 60)
    top = max(en.values())
    if len(tab) != top + 1: rep.violation("count", "error.c: %d messages for %d error values" % (len(tab), top + 1))
    for i, t in enumerate(tab):
        nm = next((k for k, v in en.items() if v == i), str(i))
        if not t: rep.violation("empty|%s" % nm, "error.c: error %d (%s) has no message" % (i, nm))
        elif tab.index(t) != i: rep.violation("dup|%s" % nm, "error.c: error %d (%s) has the same message as error %d: \"%s\"" % (i, nm, tab.index(t), t))
    ref = reviewed()["errors"]
    own = {t: k for k, t in ref.items()}
    for k, v in en.items():
        if v < len(tab) and k in ref and tab[v] != ref[k] and own.get(tab[v], k) != k:
            rep.violation("swap|%s" % k, "error.c: the message shown for %s is \"%s\", which belongs to %s" % (k, tab[v], own[tab[v]]))
    if len(set(en.values())) != len(en): rep.violation("enum", "error.h: two error identifiers have the same value")
    # how the message is chosen
    n = 0
    for f in M.m.funcs.values():
        for b in f.blocks:
            for i in b.ins:
                if i.op != "gep" or i.a[0][1] != ('g', "error_messages") or len(i.a) < 3: continue
                n += 1; v = i.a[-1][1]
                if v[0] == 'c': rep.violation("index|%s" % ir_base(f.name), "%s: shows message %d whatever the error is" % (M.m.where(i), v[1])); continue
                for _ in range(6):
                    d = f.defs.get(v[1]) if v[0] == 'r' else None
                    if d is None or d.op not in ("sext", "zext", "trunc"): break
                    v = d.a[0][1]
                if d is not None and d.op in ("add", "sub", "mul", "shl", "xor", "or", "and", "udiv", "sdiv", "urem", "srem"):
                    rep.violation("index|%s" % ir_base(f.name), "%s: shows the message of a different error than the one raised" % M.m.where(i))
    rep.need("places that choose a message", n, 1)
    # the last error a program can ask for
    e = [i for i, k in enumerate(M.sys_names) if k == "ERR"]
    eo = M.member("ptc", "exec_old.error")
    fr = restype.find(M, "_run")
    if e and e[0] < len(M.sysvars) and M.sysvars[e[0]] in M.m.funcs:
        f = M.m.funcs[M.sysvars[e[0]]]; k = 0
        for x in range(1, top + 1):
            st = State(); d = M.it.wr(st, M.ptc)
            d[eo[0]] = (eo[1], C(x, 8 * eo[1])); d[M.o_sti] = (1, C(0, 8)); d[M.o_err] = (4, C(0, 32))
            for v, o in restype.quiet(M, f, [PT((Loc(M.ptc, 0),))], st):
                c = (o.mem.get(M.ptc) or {}).get(M.o_ent + 8)
                if not c or c[1].__class__ is not I or not c[1].const: continue
                k += 1
                if c[1].lo != x * 4096: rep.violation("ERR", "%s: after error %d ERR is %s" % (ir_base(f.name), x, c[1].lo / 4096))
        rep.cov["values of ERR decided"] = k
    # every value stored as an error has a message
    h = ErrStore(rep); h.top = top
    M2, g = ghost.run(rep, h, None, [], 200, maxrounds=1)
    ghost.report(rep, M2, g, ("errval",))
    rep.cov["stores of an error value that is not a constant"] = h.und
    rep.assume += ghost.ASSUME2

from ghost import Base, locs
class ErrStore(Base):
    """a stored error has a message"""
    def setup(s, M):
        s.und = 0
        s.cells = {M.o_err}
        for p in ("vars.error", "arrs.error"):
            try: s.cells.add(M.member("ptc", p)[0])
            except Exception: pass
    def on_write(s, it, st, l, size, v):
        if l.r is not s.M.ptc or l.ds or l.off not in s.cells or it.initphase: return
        if v.__class__ is I and v.const: s.ob("errval", "viol" if not (0 <= v.lo <= s.top) else "ok", "stores %d as the error, which has no message" % v.lo)
        elif v.__class__ is I and v.s: s.ob("errval", "viol" if any(not (0 <= x <= s.top) for x in v.s) else "ok", "stores an error value which has no message")
        else: s.und += 1; s.ob("errval", "ok", None)
