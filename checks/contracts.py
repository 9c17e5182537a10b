"""Contracts between the translator's tables and the implementations: arguments used,
stack effects, keyword tables, instruction lengths, assignable variables, error messages."""
import re
import common, groups, ir
from common import Broken
from groups import ir_base
from dom import *
from ghost import Base, locs, run, report, ASSUME2

class Args(Base):
    """every argument is read as the kind of value its form supplies"""
    def setup(s, M):
        M.it.on_load = s.load
        s.lo = M.o_ent; s.hi = M.o_ent + 16 * 100
    def on_entry(s, it, e, desc, args, st):
        if e.name == "FOR":      # the assignment before it leaves the variable in the first entry
            d = it.wr(st, s.M.ptc)
            d[s.lo] = (1, C(5, 8)); d[s.lo + 8] = (8, PT((Loc(s.M.ucell[0], 0),)))
        return True
    def load(s, it, ins, p, st):
        t = locs(p)
        if len(t) != 1 or t[0].r is not s.M.ptc or any(d.lo != d.hi for d in t[0].ds): return
        off = t[0].off + sum(d.lo * d.st for d in t[0].ds)
        if not (s.lo <= off < s.hi): return
        z = it.m.size(ins.ty); k = (off - s.lo) // 16; o = (off - s.lo) % 16
        d = st.mem.get(s.M.ptc); c = d.get(off) if d else None
        if o == 0 and z == 1:
            s.ob("slot", "ok" if c is not None else "viol", "reads the kind of stack entry %d, which holds no argument of this form" % k, ins)
        elif o == 8:
            if c is None: s.ob("slot", "viol", "reads stack entry %d, which holds no argument of this form" % k, ins); return
            if z == 16 or z == 8 and c[0] == 8 or z == 4 and c[0] == 4: s.ob("slot", "ok", None, ins)
            elif z == 4 and c[1].__class__ is PT: s.ob("slot", "viol", "reads argument %d as a number, but this form supplies a string" % k, ins)
            elif z == 8 and c[0] == 4: s.ob("pslot", "viol", "reads argument %d as a pointer, but this form supplies a number" % k, ins)

def c01(rep):
    h = Args(rep)
    M, g = run(rep, h, None, [], 200, maxrounds=1)
    report(rep, M, g, ("slot", "pslot"), "stack entries: ")
    def want(kind, ins, x):
        if kind == "abort":
            return M.m.where(ins).split(":")[0].endswith("stack.h") or x[0] == 0
        return kind in ("bound", "null") and ("unknown pointer" in (x[1] or ""))
    matcher(rep, M)
    groups.obligations(rep, M, g, want, "assertions and pointers: ")
    rep.assume += ASSUME2

# ---------------------------------------------------------------- the form matcher
KIND = {'N': "Nn", 'n': "n", 'S': "Ss", 's': "s", 'L': "SsL", 'A': "A", ';': ";"}
REP = {'l': "SsL<", 'v': "ns", 'a': "A"}
ALPHA = "NnSsLA<;"

def admits(fmt, stack):
    """the language of a form string: comma separated alternatives; l, v and a repeat"""
    for alt in fmt.split(","):
        if alt == "*": return True
        if alt == "0":
            if not stack: return True
            continue
        if alt == "": continue
        i = 0; ok = True
        for ch in alt:
            if ch in REP:
                while i < len(stack) and stack[i] in REP[ch]: i += 1
            elif ch in KIND and i < len(stack) and stack[i] in KIND[ch]: i += 1
            else: ok = False; break
        if ok and i == len(stack) and stack: return True
    return False

def samples(fmt):
    out = set(ALPHA) | {""}
    for alt in fmt.split(","):
        base = "".join("N" if c == 'N' else {'l': "SS", 'v': "ns", 'a': "AA", 'L': "L", '*': "", '0': ""}.get(c, c) for c in alt)
        for b in {base, base[:-1], base + "N", base + "s", base.lower() if base.isalpha() else base}:
            if len(b) <= 16: out.add(b)
        for i in range(min(len(base), 12)):
            for c in "NnSsA;": out.add(base[:i] + c + base[i + 1:])
    return sorted(out, key=lambda x: (len(x), x))

def matcher(rep, M):
    import restype
    fs = restype.find(M, "check_cmd")
    if len(fs) != 1 or len(fs[0].args) != 3:
        rep.notes.append("no function check_cmd(stack, length, form): the form matcher is not examined"); return
    f = fs[0]
    fmts = sorted({x for t in (M.cmd_format, M.func_format, M.op_format) for x in t if x})
    rep.need("form strings", len(fmts), 40)
    n = bad = und = 0
    w = M.m.size(f.argt[1]) * 8 if hasattr(f, "argt") else 32
    for fmt in fmts:
        fr = restype.const_region(M, [ord(c) for c in fmt] + [0], "form")
        for stk in samples(fmt):
            sr = restype.const_region(M, [ord(c) for c in stk] + [0] * (20 - len(stk)), "kinds")
            outs = restype.quiet(M, f, [PT((Loc(sr, 0),)), C(len(stk), w), PT((Loc(fr, 0),))], restype.State())
            v = [o[0] for o in outs]; n += 1
            if not v or any(x.__class__ is not I or not x.const for x in v) or len({bool(x.lo) for x in v}) != 1: und += 1; continue
            if bool(v[0].lo) != admits(fmt, stk):
                bad += 1
                rep.violation("check_cmd|%s|%s" % (fmt, stk), "%s: the form \"%s\" %s the argument kinds \"%s\"" % (M.m.where(f.blocks[0].ins[0]), fmt, "admits" if v[0].lo else "rejects", stk))
    rep.cov["argument kind sequences matched by constant propagation"] = n
    rep.cov["sequences the matcher decides differently"] = bad
    rep.cov["sequences not decided"] = und
    if und * 2 > n: raise Broken("form matcher not decided on %d of %d sequences" % (und, n))

# ---------------------------------------------------------------- C02 stack effects
NUMBER, STRING, VARIABLE, ARRAY, OPER = 1, 2, 4, 8, 16
BASE = 2
class Stack(Base):
    """values below the operands are not touched"""
    def setup(s, M): s.lo = M.o_ent
    def on_write(s, it, st, l, size, v):
        if l.r is not s.M.ptc or not (s.lo <= l.off < s.lo + 1600): return
        off = l.off; lo = off + sum(min(d.lo, d.hi) * d.st for d in l.ds); hi = off + sum(max(d.lo, d.hi) * d.st for d in l.ds)
        if lo != hi: return
        s.ob("below", "viol" if lo < s.lo + 16 * BASE else "ok", "changes a value below its operands")

def result_kind(M, e):
    if e.kind == "func":
        return RET(M)[e.idx] if e.idx < len(RET(M)) else None
    if e.kind == "sys": return 'S' if e.name.endswith("$") else 'N'
    return None

def RET(M):
    if not hasattr(M, "fret"):
        t = [g for n, g in M.m.globals.items() if ir_base(n) == "func_return"]
        if not t or t[0].init is None or t[0].init[0] != 'bytes': raise Broken("table func_return not found")
        M.fret = bytes(t[0].init[1]).split(b"\0")[0].decode("latin-1")
    return M.fret

def c02(rep):
    h = Stack(rep)
    M, g = run(rep, h, None, [], 90, maxrounds=1, base=BASE, only=lambda e: e.kind in ("op", "func", "sys"))
    report(rep, M, g, ("below",), "values below the operands: ")
    n = und = 0
    es = {e.id: e for e in g.ents}
    for id, fs in sorted(g.finals.items()):
        e = es[id]
        want = BASE + (0 if e.kind == "op" and e.name == "=" else 1)
        rk = result_kind(M, e)
        for desc, k, sti, top, pq in fs:
            if k == 'N': continue
            n += 1
            where = "%s (%s)" % (id, M.fn(e.fn).name)
            if sti is None: und += 1; continue
            if not (sti[0] == sti[1] == want):
                rep.violation("%s|depth" % id, "%s: with argument kinds %s it can return without an error leaving %s values on the stack instead of %d" % (where, desc, "%d..%d" % (sti[0] - BASE, sti[1] - BASE), want - BASE)); continue
            if e.kind == "op" and (e.name == "="): continue
            if top is None: und += 1; continue
            kinds = {t & 3 for t in range(top[0], top[1] + 1)} if top[1] - top[0] < 32 else set()
            if rk is None and e.kind == "op":
                if e.name in (",", ";"):
                    if top != (OPER, OPER): rep.violation("%s|kind" % id, "%s: leaves a value of kind %s instead of a separator" % (where, top))
                    continue
                form = desc.split("/")[0]
                cmpo = e.name in ("==", "!=", "<", ">", "<=", ">=")
                exp = NUMBER if cmpo or not form or form[0] in "Nn" else STRING
            else: exp = NUMBER if rk == 'N' else STRING
            if kinds != {exp}: rep.violation("%s|kind" % id, "%s: with argument kinds %s it leaves a value of kind %s instead of %s" % (where, desc, "/".join(map(str, sorted(kinds))) or "unknown", "a number" if exp == NUMBER else "a string"))
    rep.cov["normal returns examined"] = n
    rep.cov["normal returns with unknown depth or kind"] = und
    rep.need("normal returns examined", n, 200)
    if und * 4 > n: raise Broken("stack depth not tracked on %d of %d returns" % (und, n))
    rep.assume += ASSUME2
