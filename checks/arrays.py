"""Array subscripts, array creation and array arguments (M04): the executing loop, CLEAR and
the sort statements are decided on constant dimensions and subscripts by constant propagation;
what is handed out is compared with the declared dimensions and the array memory."""
import restype, common
from common import Broken
from groups import ir_base
from dom import *
from absint import Region, State
from driver import Budget
import absint

U32 = 0xffffffff
EXT = [-524288, -65536, -256, -2, -1, 255, 256, 32767, 65535, 65536, 262144, 524287]

class Mach:
    """a machine with a small variable table and array memory of constant size"""
    def __init__(s, M, cells):
        s.M = M; it = M.it; m = M.member
        s.cells = cells
        s.bz = {k: m("bytecode", k) for k in ("size", "data")}
        s.bsz = M.m.size(('ns', 'struct.bytecode'))
        s.nv = {k: m("named_var", k) for k in ("type", "name", "value")}; s.nvz = M.m.size(('ns', 'struct.named_var'))
        s.vm = 4
        s.vars = Region("variable table", s.vm * s.nvz, ('arr', s.vm * s.nvz, ('i', 8)), "alloca", M.m)
        s.mem = Region("array memory", 8 * cells, ('arr', 8 * cells, ('i', 8)), "alloca", M.m)
        s.oarr = {k: m("ptc", "arrs." + k) for k in ("arr_data_size", "arr_data_next", "arr_data")}
        s.ov = {k: m("ptc", "vars." + k) for k in ("vars_max", "var_count", "vars", "arrs", "error", "clear_values")}
        s.VN, s.VS, s.VV, s.VA = [M.m.enum("VAR_" + x) for x in ("NUMBER", "STRING", "VARIABLE", "ARRAY")]
        if None in (s.VN, s.VS, s.VV, s.VA): raise Broken("value types not found")
        s.ostr = {k: m("ptc", "strs." + k) for k in ("strs_max", "strs")}
        z = 2 * M.m.size(('ns', 'struct.string'))
        s.strs = Region("string table", z, ('arr', 2, ('ns', 'struct.string')), "alloca", M.m)
        s.p = PT((Loc(M.ptc, 0),))
        s.run_f = restype.find(M, "_run")
        s.bad = s.watch = s.hit = None
    def put(s, d, f, v): d[f[0]] = (f[1], v if v.__class__ is not int else C(v, 8 * f[1]))
    def fresh(s, clear=0, used=0):
        M = s.M; st = State(); d = M.it.wr(st, M.ptc)
        s.put(d, s.oarr["arr_data_size"], s.cells); s.put(d, s.oarr["arr_data_next"], used)
        s.put(d, s.oarr["arr_data"], PT((Loc(s.mem, 0),)))
        s.put(d, s.ov["vars_max"], s.vm); s.put(d, s.ov["var_count"], 0); s.put(d, s.ov["error"], 0); s.put(d, s.ov["clear_values"], clear)
        s.put(d, s.ov["vars"], PT((Loc(s.vars, 0),)))
        s.put(d, s.ov["arrs"], PT((Loc(M.ptc, min(x[0] for x in s.oarr.values())),)))
        s.put(d, s.ostr["strs_max"], 2); s.put(d, s.ostr["strs"], PT((Loc(s.strs, 0),)))
        d = M.it.wr(st, s.vars)
        for i in range(s.vm):
            for o in range(s.nvz): d[i * s.nvz + o] = (1, C(0, 8))
            s.slot(d, i, 0, "", NULL)
        return st
    def slot(s, d, i, typ, name, val):
        b = i * s.nvz
        o, z = s.nv["type"]; d[b + o] = (z, C(typ, 8 * z))
        o, z = s.nv["name"]
        for k in range(z): d[b + o + k] = (1, C(ord(name[k]) if k < len(name) else 0, 8))
        o, z = s.nv["value"]
        for k in range(z): d.pop(b + o + k, None)
        d[b + o] = (8, val)
    def exact(s, f, args, st):
        it = s.M.it
        rec, it.rec = it.rec, 0
        hooks = (it.on_write, it.on_load); it.on_load = None
        s.bad = None
        def wr(it, st, l, size, v):
            if l.r is s.mem:
                lo = l.off + sum(d.lo * d.st for d in l.ds); hi = l.off + sum(d.hi * d.st for d in l.ds) + (size if size.__class__ is int else 0)
                if lo < 0 or hi > s.mem.size:
                    s.bad = s.bad or s.M.m.where(it.curins) if it.curins else "?"
                    raise Budget("outside the array memory")
                if s.watch and lo < s.watch[1] and hi > s.watch[0]: s.hit = s.M.m.where(it.curins) if it.curins else "?"
        it.on_write = wr
        it.steps = 0; it.entry = ("arrays", "")
        it.exact = absint.EXACT = True
        try: return it.call_fn(f, args, st)
        finally: it.exact = absint.EXACT = False; it.rec = rec; it.on_write, it.on_load = hooks
    def run(s, st, bs, nums):
        """one instruction with numbers on the stack -> [(error or None, state)] or None"""
        M = s.M; it = M.it; out = []
        for f in s.run_f:
            q = st.copy()
            c = Region("compiled code", s.bsz, ('ns', 'struct.bytecode'), "heap", M.m)
            data = restype.const_region(M, bytes(bs), "code bytes")
            d = it.wr(q, c)
            s.put(d, s.bz["size"], len(bs)); s.put(d, s.bz["data"], PT((Loc(data, 0),)))
            d = it.wr(q, M.ptc)
            d[M.o_err] = (4, C(0, 32)); d[M.o_argc] = (4, C(0, 32)); d[M.o_sti] = (1, C(0, 8))
            it.direct = "_run"
            try: outs = s.exact(f, [PT((Loc(c, 0),)), s.p, C(0, 1)], q)
            except Budget: return None
            finally: it.direct = None
            for v, o in outs:
                e = (o.mem.get(M.ptc) or {}).get(M.o_err)
                e = e[1].lo if e and e[1].__class__ is I and e[1].const else "?"
                out.append((e, o))
        return out

def number(raw):
    return [ord('N'), 0] + [(raw & U32) >> k & 255 for k in (24, 16, 8, 0)]

def m04(rep):
    M = common.machine()
    A = Mach(M, 400)
    if not A.run_f: raise Broken("_run not found")
    bc = {k: M.m.enum(k) for k in ("BC_NUMBER", "BC_ARGCOUNT", "BC_DIM", "BC_VARIABLE_NAME", "BC_VARIABLE_ID", "BC_VARIABLE_ID_SMALL", "BC_COMMAND")}
    if None in bc.values(): raise Broken("instruction kinds not found")
    where = ir_base(A.run_f[0].name)
    cnt = dict(access=0, create=0, sort=0, clear=0, undecided=0)
    def push(vals):
        o = []
        for v in vals: o += [bc["BC_NUMBER"], 0] + [(v & U32) >> k & 255 for k in (24, 16, 8, 0)]
        return o
    def acc(how, vals, name="A"):
        n = len(vals)
        t = [bc["BC_ARGCOUNT"], n]
        if how == "name":
            if len(name) == 1: t += [bc["BC_VARIABLE_NAME"], ord(name)]
            else: t += [bc["BC_VARIABLE_NAME"], len(name)] + [ord(c) for c in name] + [0] * (len(name) % 2)
        elif how == "small": t += [bc["BC_VARIABLE_ID_SMALL"], 0]
        else: t += [bc["BC_VARIABLE_ID"], 0, 0, 0]
        return push(vals) + t
    def dim(name, vals):
        if len(name) == 1: t = [bc["BC_DIM"], ord(name)]
        else: t = [bc["BC_DIM"], len(name)] + [ord(c) for c in name] + [0] * (len(name) % 2)
        return push(vals) + [bc["BC_ARGCOUNT"], len(vals)] + t
    def top(o):
        """location pushed by the access"""
        d = o.mem.get(M.ptc) or {}
        x = d.get(M.o_sti); n = x[1].lo if x and x[1].__class__ is I and x[1].const else None
        if not n: return None, None
        v = d.get(M.o_ent + 16 * (n - 1) + 8)
        v = v[1] if v else None
        return n, v.t[0] if v.__class__ is PT and len(v.t) == 1 and not v.null and not v.unk and not v.t[0].ds else None
    fix = lambda i: i << 12
    def declared(d1, d2, typ, at, name):
        """a machine with a declared array at element position `at` of the array memory, made by DIM"""
        st = A.fresh(0, at)
        r = A.run(st, dim(name, [fix(d1)] + ([fix(d2)] if d2 is not None else [])), [])
        if r is None: return None
        r = [o for e, o in r if e == 0]
        return r[0] if len(r) == 1 else None
    def byid(st, name, typ):
        """move the declared variable to number 0, for access by number"""
        q = st.copy(); d = M.it.wr(q, A.vars)
        vo = A.nv["value"][0]
        for i in range(A.vm):
            x = d.get(i * A.nvz + vo)
            if x and x[1].__class__ is PT and x[1].null != 2:
                A.slot(d, 0, typ | A.VA, name.rstrip("$"), x[1]); return q
        return None
    # ---- element access
    shapes = [(1, None), (5, None), (10, None), (256, None), (3, 4), (4, 3), (1, 7), (7, 1), (16, 16)]
    for name, typ in (("A", A.VN), ("AB$", A.VS)):
        for d1, d2 in shapes:
            size = d1 * (d2 or 1)
            st = declared(d1, d2, typ, 100, name)
            if st is None:
                rep.violation("dim|%s|%s" % (d1, d2), "%s: DIM of %s elements, which fit, is not carried out" % (where, (d1, d2)) )
                continue
            for how in ("name", "small", "long"):
                q = st if how == "name" else byid(st, name, typ)
                if q is None: rep.notes.append("declared array not found in the variable table"); continue
                xs = sorted({0, 1, d1 - 1, d1, d1 + 1, -d1} | set(EXT))
                if d2 is None: todo = [((x,), 0 <= x < d1) for x in xs] + ([((0, y), False) for y in (0, 1, -1, 9, 65535)])
                else:
                    ys = sorted({0, 1, d2 - 1, d2, d2 + 1, -d2} | set(EXT))
                    prs = {(x, y) for x in xs for y in (0, d2 - 1)} | {(x, y) for x in (0, d1 - 1) for y in ys} | {(d1, d2), (d1, d2 - 1), (d1 - 1, d2), (-1, 1), (1, -1), (-1, -1), (2 * d1, 0)}
                    if typ == A.VS or how == "long": prs = {p for p in prs if abs(p[0]) < 300 and abs(p[1]) < 300}
                    todo = [(p, 0 <= p[0] < d1 and 0 <= p[1] < d2) for p in sorted(prs)]
                if how == "name" and typ == A.VN: todo += [(((d1 << 12) - 1) / 4096.0 if d2 is None else None, None)] if d2 is None else []
                seen = {}
                for sub, ok in todo:
                    if sub.__class__ is float: vals = [int(sub * 4096)]; sub = (sub,)
                    else: vals = [fix(x) for x in sub]
                    r = A.run(q, acc(how, vals, name), [])
                    cnt["access"] += 1
                    key = "access|%s|%s|%s" % (how, (d1, d2), sub)
                    if r is None:
                        if A.bad: rep.violation(key, "%s: access to element %s of an array of dimension %s writes outside the array memory" % (A.bad, sub, (d1, d2)))
                        else: cnt["undecided"] += 1
                        continue
                    for e, o in r:
                        if e == "?": cnt["undecided"] += 1; continue
                        if e:
                            if ok: rep.violation(key, "%s: element %s of an array of dimension %s is rejected (access by %s)" % (where, sub, (d1, d2), how))
                            continue
                        if ok is False:
                            rep.violation(key, "%s: element %s of an array of dimension %s is accepted (access by %s)" % (where, sub, (d1, d2), how)); continue
                        n, l = top(o)
                        if l is None: cnt["undecided"] += 1; continue
                        lo = 8 * 100; hi = 8 * 400
                        if l.r is not A.mem or l.off < lo or l.off + 8 > hi:
                            rep.violation(key, "%s: element %s of an array of dimension %s is at %r" % (where, sub, (d1, d2), l)); continue
                        if n != 1: rep.violation(key, "%s: element %s of an array of dimension %s leaves %s entries on the stack" % (where, sub, (d1, d2), n))
                        if ok:
                            for s2, off in seen.items():
                                if s2 != sub and abs(off - l.off) < 8: rep.violation(key, "%s: elements %s and %s of an array of dimension %s are the same" % (where, sub, s2, (d1, d2)))
                            seen[sub] = l.off
    # ---- creation
    def corners(st, name, d1, d2):
        """extent of an array by its corner elements; None if it cannot be accessed"""
        offs = []
        for sub in [(0,), (d1 - 1,)] if d2 is None else [(0, 0), (d1 - 1, 0), (0, d2 - 1), (d1 - 1, d2 - 1)]:
            r = A.run(st, acc("name", [fix(x) for x in sub], name), [])
            if r is None: return "outside" if A.bad else None
            for e, o in r:
                if e: return None
                l = top(o)[1]
                if l is None: return None
                if l.r is not A.mem: return "outside"
                offs.append(l.off)
        return min(offs), max(offs) + 8
    big = [(x,) for x in (0, 1, 5, 50, 95, 96, 97, 98, 99, 100, 101, 399, 400, 401, 65535, 65536, 131072, 524287, -1, -2, -100, -65536, -524288)]
    big += [(x, y) for x, y in ((1, 1), (3, 4), (9, 10), (10, 9), (10, 10), (7, 14), (14, 7), (1, 98), (98, 1), (49, 2), (20, 20), (256, 256), (65536, 65536), (65536, 32768), (32768, 131072), (524287, 8192), (524287, 524287), (-1, -1), (-1, 5), (5, -1), (-2, 5), (5, -2), (-65536, -65536), (2, -262144), (262144, 16384), (4, 262144), (8192, 524287), (131072, 32768), (0, 5), (5, 0), (0, -1), (65537, 65537), (46341, 46341), (65535, 65537))]
    for used in (0, 300):
        for dims in big:
            d1, d2 = dims[0], (dims[1] if len(dims) > 1 else None)
            st = A.fresh(0, used)
            key = "create|%s|%s" % (used, dims)
            r = A.run(st, dim("A", [fix(x) for x in dims]), [])
            cnt["create"] += 1
            what = "DIM A(%s) with %d of %d cells used" % (",".join(map(str, dims)), used, A.cells)
            if r is None:
                if A.bad: rep.violation(key, "%s: %s writes outside the array memory" % (A.bad, what))
                else: cnt["undecided"] += 1
                continue
            size = d1 * (1 if d2 is None else d2)
            neg = d1 < 0 or (d2 is not None and d2 < 0)
            for e, o in r:
                if e == "?": cnt["undecided"] += 1; continue
                if e: continue
                if neg or size > A.cells - used:
                    rep.violation(key, "%s: %s is accepted" % (where, what)); continue
                if not size: continue
                x = corners(o, "A", d1, d2)
                if x is None: cnt["undecided"] += 1; continue
                if x == "outside" or x[0] < 8 * used or x[1] > 8 * A.cells or x[1] - x[0] != 8 * size:
                    rep.violation(key, "%s: %s hands out the memory %s" % (where, what, x)); continue
                # a second array is somewhere else
                for d in ((1,), (5,), (2, 3)):
                    A.watch, A.hit = x, None
                    r2 = A.run(o, dim("B", [fix(k) for k in d]), []); A.watch = None
                    if A.hit: rep.violation(key + "|second", "%s: after %s, DIM B(%s) overwrites elements of the first array" % (A.hit, what, ",".join(map(str, d))))
                    for e2, o2 in r2 or ():
                        if e2: continue
                        y = corners(o2, "B", d[0], d[1] if len(d) > 1 else None)
                        if y is None: cnt["undecided"] += 1; continue
                        if y == "outside" or y[1] > 8 * A.cells or not (y[0] >= x[1] or y[1] <= x[0]):
                            rep.violation(key + "|second", "%s: after %s, DIM B(%s) hands out the memory %s; the first array is at %s" % (where, what, ",".join(map(str, d)), y, x))
                        elif corners(o2, "A", d1, d2) != x: rep.violation(key + "|second", "%s: after %s, DIM B changes the first array" % (where, what))
    # ---- arrays that were never declared
    for how in ("name", "small"):
        for used in (0, 280, 295, 300, 385, 390, 395, 399, 400):
            for sub in ((0,), (9,), (10,), (-1,), (0, 0), (9, 9), (10, 0), (0, 10), (9, 10), (-1, -1)):
                st = A.fresh(0, used)
                if how == "small":
                    d = M.it.wr(st, A.vars); A.slot(d, 0, A.VN | A.VA, "A", NULL)
                r = A.run(st, acc(how, [fix(x) for x in sub]), [])
                cnt["access"] += 1
                key = "undeclared|%s|%s|%s" % (how, used, sub)
                what = "element %s of an array never declared, %d of %d cells used" % (sub, used, A.cells)
                if r is None:
                    if A.bad: rep.violation(key, "%s: %s: written outside the array memory" % (A.bad, what))
                    else: cnt["undecided"] += 1
                    continue
                for e, o in r:
                    if e == "?": cnt["undecided"] += 1; continue
                    if e: continue
                    l = top(o)[1]
                    if any(x < 0 or x > 9 for x in sub): rep.violation(key, "%s: %s is accepted" % (where, what))
                    elif l is None: cnt["undecided"] += 1
                    elif l.r is not A.mem or l.off < 8 * used or l.off + 8 > 8 * A.cells: rep.violation(key, "%s: %s is at %r" % (where, what, l))
    # ---- CLEAR
    import entries
    fc = [M.fn(e.fn) for e in entries.enumerate_entries(M) if e.kind == "cmd" and e.name == "CLEAR"]
    for f in fc[:1]:
        for clear in (0, 1):
            for first, second in (((5,), (5,)), ((20,), (3,)), ((3, 4), (30,)), ((300,), (300,))):
                st = A.fresh(clear, 0)
                r = A.run(st, dim("A", [fix(x) for x in first]), [])
                for e, o in r or ():
                    if e: continue
                    try: outs = A.exact(f, [A.p], o)
                    except Budget: cnt["undecided"] += 1; continue
                    for v, q in outs:
                        for e2, o2 in A.run(q, dim("B", [fix(x) for x in second]), []) or ():
                            cnt["clear"] += 1
                            if e2:
                                if e2 != "?" : rep.violation("clear|%s|%s|full" % (clear, first), "%s: after CLEAR the memory of earlier arrays is not available again" % ir_base(f.name))
                                continue
                            y = corners(o2, "B", second[0], second[1] if len(second) > 1 else None)
                            for sub in (0,), (first[0] - 1,):
                                for e3, o3 in A.run(o2, acc("name", [fix(x) for x in sub]), []) or ():
                                    if e3: continue
                                    l = top(o3)[1]
                                    if l is None or y is None or y == "outside": cnt["undecided"] += 1
                                    elif y[0] <= l.off < y[1]: rep.violation("clear|%s|%s" % (clear, first), "%s: after CLEAR an array declared earlier still uses the memory of a new array" % ir_base(f.name))
    # ---- SORT and RSORT
    for e in entries.enumerate_entries(M):
        if e.kind != "cmd" or e.name not in ("SORT", "RSORT"): continue
        f = M.fn(e.fn)
        def sort(start, size, arrs, typ=A.VN):
            """does the statement report an error? arrs: [(d1, d2) or None]"""
            st = A.fresh(0, 0); d = M.it.wr(st, M.ptc)
            d[M.o_err] = (4, C(0, 32)); d[M.o_argc] = (4, C(0, 32)); d[M.o_sti] = (1, C(2 + len(arrs), 8))
            for i, v in enumerate((start, size)):
                d[M.o_ent + 16 * i] = (1, C(A.VN, 8)); d[M.o_ent + 16 * i + 8] = (4, C(v << 12 & U32, 32))
            at = 0; dm = M.it.wr(st, A.mem); dv = M.it.wr(st, A.vars)
            for i, s in enumerate(arrs):
                k = 2 + i
                d[M.o_ent + 16 * k] = (1, C(A.VV | A.VA | typ, 8)); d[M.o_ent + 16 * k + 8] = (8, PT((Loc(A.vars, i * A.nvz + A.nv["value"][0]),)))
                if s is None: A.slot(dv, i, typ | A.VA, "ABC"[i], NULL); continue
                dm[8 * at] = (4, C(s[0], 32)); dm[8 * at + 4] = (4, C(s[1] if s[1] is not None else U32, 32))
                A.slot(dv, i, typ | A.VA, "ABC"[i], PT((Loc(A.mem, 8 * at),)))
                at += 2 + s[0] * (s[1] or 1)
            try: outs = A.exact(f, [A.p], st)
            except Budget: return False
            r = set()
            for v, o in outs:
                x = (o.mem.get(M.ptc) or {}).get(M.o_err)
                r.add(bool(x[1].lo) if x and x[1].__class__ is I and x[1].const else None)
            return r.pop() if len(r) == 1 else None if None in r else False
        cases = []
        for n in (1, 5):
            for a in sorted({-65536, -1, n, n + 1, 65536, 524287, 262144}): cases += [(a, 1, [(n, None)]), (a, n, [(n, None)]), (a, 0, [(n, None)]), (a, -a, [(n, None)])]
            for a in range(n): cases += [(a, z, [(n, None)]) for z in (n - a + 1, n + 1, 100, 524287, 524287 - a, -1, -2, -65536, -524288)]
        cases += [(0, 4, [(5, None), (3, None)]), (3, 1, [(5, None), (3, None)]), (0, 4, [(3, None), (5, None)]), (2, 2, [(5, None), (3, None)]), (0, 3, [(5, None), (5, None), (2, None)]), (2, 1, [(5, None), (5, None), (2, None)]),
                  (0, 2, [None]), (0, 2, [(5, None), None]), (0, 2, [(3, 3)]), (0, 2, [(5, None), (3, 3)]), (0, 0, [None]), (0, 2, [(5, None), (5, None), None])]
        for start, size, arrs in cases:
            if len(arrs) == 1 and arrs[0] and arrs[0][1] is None and 0 <= start < arrs[0][0] and 0 <= size <= arrs[0][0] - start: continue
            if size == 0 and arrs == [None]: pass
            cnt["sort"] += 1
            r = sort(start, size, arrs)
            if r is None: cnt["undecided"] += 1
            elif not r:
                if size == 0 and arrs[0] and arrs[0][1] is None and 0 <= start: continue      # nothing is touched
                rep.violation("%s|%s|%s|%s" % (e.name, start, size, arrs), "%s: %s from %d, %d elements, is accepted for arrays of dimension %s" % (ir_base(f.name), e.name, start, size, arrs))
    rep.cov["element accesses decided"] = cnt["access"]; rep.cov["array creations decided"] = cnt["create"]
    rep.cov["sort requests decided"] = cnt["sort"]; rep.cov["accesses after CLEAR"] = cnt["clear"]; rep.cov["undecided"] = cnt["undecided"]
    rep.need("element accesses decided", cnt["access"], 800); rep.need("array creations decided", cnt["create"], 60); rep.need("sort requests decided", cnt["sort"], 100)
    if cnt["undecided"] > (cnt["access"] + cnt["create"]) // 10: raise Broken("%d cases undecided" % cnt["undecided"])
    rep.assume += ["element access and creation are decided on representative dimensions (1 to 256 elements, one and two dimensions) and on boundary and extreme subscripts; between them the code compares and multiplies without further cases",
                   "the sort itself is entered only when the request is valid; its own positions are not examined (N02)"]
