"""Control-flow and call-graph queries over the IR."""
import ir

def funcs(m): return [f for f in m.funcs.values() if not f.decl]

def callees(m, f, tables=None):
    """direct callees, plus members of function tables the function reads"""
    out = set()
    for b in f.blocks:
        for i in b.ins:
            if i.op == "call" and i.x[0] == 'g': out.add(i.x[1])
            for o in (i.a or ()):
                if len(o) > 1 and isinstance(o[1], tuple) and o[1][0] == 'g' and o[1][1] in m.funcs: out.add(o[1][1])
                for g in globals_in(o[1] if len(o) > 1 else None):
                    if tables and g in tables: out |= tables[g]
    return out

def globals_in(v):
    if not isinstance(v, tuple): return
    if v and v[0] == 'g' and len(v) == 2 and isinstance(v[1], str): yield v[1]; return
    for x in v:
        if isinstance(x, (tuple, list)):
            for y in globals_in(tuple(x)): yield y

def fn_tables(m):
    out = {}
    for n, g in m.globals.items():
        if g.init is None: continue
        s = {x for x in globals_in(g.init if isinstance(g.init, tuple) else tuple(g.init)) if x in m.funcs}
        if s: out[n] = s
    return out

def closure(m, roots, cg):
    seen = set(); todo = list(roots)
    while todo:
        n = todo.pop()
        if n in seen: continue
        seen.add(n)
        todo += cg.get(n, ())
    return seen

def callgraph(m):
    t = fn_tables(m)
    return {f.name: callees(m, f, t) for f in funcs(m)}

def reaching(m, targets, cg):
    """functions that may call one of the targets"""
    rev = {}
    for a, bs in cg.items():
        for b in bs: rev.setdefault(b, set()).add(a)
    seen = set(targets); todo = list(targets)
    while todo:
        for a in rev.get(todo.pop(), ()):
            if a not in seen: seen.add(a); todo.append(a)
    return seen

def dominators(f):
    rpo = [b for b in f.rpo]
    dom = {rpo[0]: {rpo[0]}}
    ch = True
    full = set(rpo)
    for b in rpo[1:]: dom[b] = full
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in b.pred if p in dom]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]: dom[b] = n; ch = True
    return dom

def natural_loops(f):
    """[(header block, set of body blocks)]"""
    dom = dominators(f)
    loops = {}
    for b in f.rpo:
        for h in b.succ:
            if h in dom.get(b, ()):
                body = loops.setdefault(h, {h})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x in body: continue
                    body.add(x); todo += x.pred
    return sorted(loops.items(), key=lambda x: x[0].rpo)

def field_of(m, ins):
    """(struct type name, member index) a gep ends in, or None"""
    t = ins.x; last = None
    for ty, v in ins.a[2:]:
        nm = t[1] if t[0] == 'ns' else None
        r = m.res(t)
        if r[0] == 'st':
            if v[0] != 'c': return None
            last = (nm, v[1]); t = r[1][v[1]]
        elif r[0] in ('arr', 'vec'): t = r[2]; last = None
        else: return None
    return last

def member_index(m, struct, name):
    fs = m.fields(struct)
    if fs is None: return None
    lay = list(m.lay(m.structs['struct.' + struct])[2])
    for o, z, nm, ty in fs:
        if nm == name and o in lay: return ('struct.' + struct, lay.index(o))
    return None

class Assume:
    """evaluate conditions assuming that loads of one struct member (inside `where`)
    yield a non-zero value"""
    def __init__(s, m, member):
        s.m, s.member = m, member
        s.rets = {}
    def is_load(s, f, v, where):
        if v[0] != 'r': return False
        d = f.defs.get(v[1])
        if d is None or d.op != "load": return False
        if where is not None and not any(d in b.ins for b in where): return False
        p = d.a[0][1]
        if p[0] == 'r':
            g = f.defs.get(p[1])
            return g is not None and g.op == "gep" and field_of(s.m, g) == s.member
        return False
    def ret(s, f):
        """constant truth of an integer/bool function's result under the assumption"""
        if f.name in s.rets: return s.rets[f.name]
        s.rets[f.name] = None
        vals = set()
        for b in f.blocks:
            t = b.ins[-1]
            if t.op == "ret":
                if not t.a: return None
                # only returns that survive pruning
                if not s.reachable(f, b): continue
                vals.add(s.truth(f, t.a[0][1], None))
        r = vals.pop() if len(vals) == 1 else None
        s.rets[f.name] = r
        return r
    def reachable(s, f, b):
        seen = {(None, f.rpo[0])}; todo = [(None, f.rpo[0])]
        while todo:
            p, x = todo.pop()
            for y in s.succ(f, x, None, p):
                if (x, y) not in seen: seen.add((x, y)); todo.append((x, y))
        return any(y is b for x, y in seen)
    def truth(s, f, v, where, depth=0):
        """True / False (zero) / None for unknown"""
        if v[0] == 'c': return v[1] != 0
        if v[0] == 'zero': return False
        if v[0] != 'r' or depth > 12: return None
        if s.is_load(f, v, where): return True
        d = f.defs.get(v[1])
        if d is None: return None
        if d.op in ("zext", "sext", "freeze"): return s.truth(f, d.a[0][1], where, depth + 1)
        if d.op == "trunc":
            # trunc of a bool carried in a byte
            return s.truth(f, d.a[0][1], where, depth + 1) if d.ty == ('i', 1) else None
        if d.op == "icmp" and d.x in ("eq", "ne"):
            for k in (0, 1):
                o = d.a[1 - k][1]
                if o[0] == 'c' and o[1] == 0 or o[0] == 'null':
                    t = s.truth(f, d.a[k][1], where, depth + 1)
                    if t is None: return None
                    return t == (d.x == "ne")
            return None
        if d.op == "icmp" and d.x in ("sgt", "ugt") and d.a[1][1] == ('c', 0) and s.is_load(f, d.a[0][1], where): return True
        if d.op == "xor" and d.a[1][1] in (('c', 1), ('c', -1)) and d.ty == ('i', 1):
            t = s.truth(f, d.a[0][1], where, depth + 1)
            return None if t is None else not t
        if d.op == "and" and d.ty == ('i', 1):
            ts = [s.truth(f, o[1], where, depth + 1) for o in d.a]
            return False if False in ts else True if ts == [True, True] else None
        if d.op == "or" and d.ty == ('i', 1):
            ts = [s.truth(f, o[1], where, depth + 1) for o in d.a]
            return True if True in ts else False if ts == [False, False] else None
        if d.op == "select":
            c = s.truth(f, d.a[0][1], where, depth + 1)
            a, b = s.truth(f, d.a[1][1], where, depth + 1), s.truth(f, d.a[2][1], where, depth + 1)
            if c is not None: return a if c else b
            return a if a == b else None
        if d.op == "phi":
            if s.edge is not None and d in s.edge[1].ins:
                # the value that arrives over the edge just taken
                for v2, pb in d.x:
                    if pb == s.edge[0].name: return s.truth(f, v2, where, depth + 1)
            ts = {s.truth(f, v2, where, depth + 1) for v2, pb in d.x}
            return ts.pop() if len(ts) == 1 else None
        if d.op == "call" and d.x[0] == 'g' and d.x[1] in s.m.funcs and (where is None or any(d in b.ins for b in where)):
            g = s.m.funcs[d.x[1]]
            return s.ret(g) if not g.decl else None
        return None
    edge = None
    def succ(s, f, b, where, pred=None):
        t = b.ins[-1]
        s.edge = (pred, b) if pred is not None else None
        try: return s.succ0(f, b, t, where)
        finally: s.edge = None
    def succ0(s, f, b, t, where):
        if t.op == "br" and len(t.x) == 2:
            c = s.truth(f, t.a[0][1], where)
            if c is None: return b.succ
            return [f.bmap[t.x[0 if c else 1]]]
        return b.succ
    def stays(s, f, head, body):
        """can control come back to head inside the loop although the member is non-zero
        throughout the iteration?"""
        seen = set(); todo = [(p, head) for p in head.pred]
        while todo:
            p, x = todo.pop()
            for y in s.succ(f, x, body, p):
                if y is head: return True
                if y in body and (x, y) not in seen: seen.add((x, y)); todo.append((x, y))
        return False
