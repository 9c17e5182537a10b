"""Typestate and effect checks: the abstract interpreter carries ghost facts (locks held,
open streams, pending error, what has been written) along every path of every entry."""
import common, groups, ir
from common import Report, Broken
from groups import run_group, ir_base, ASSUME
from dom import *
import libmodel

ASSUME2 = ["library and thread calls behave as modelled in engine/libmodel.py (every file operation may fail)",
  "entry points start from the computed machine invariant (or an unrestricted state where none is computed)"]

class Base:
    """hooks of one check, attached to the interpreter before the run"""
    kinds = ()
    def __init__(s, rep): s.rep = rep
    def attach(s, M):
        s.M = M; it = M.it
        for n in ("on_write", "on_load", "on_exit", "on_call"):
            if hasattr(s, n): setattr(it, n, getattr(s, n))
        if hasattr(s, "on_entry"): M.on_entry = s.on_entry
        s.setup(M)
    def setup(s, M): pass
    def wrap(s, name, fn):
        """fn(it, ins, args, st, outs) sees and may change the outcomes of a call"""
        it = s.M.it
        old = it.models.get(name)
        def m(it, ins, args, st):
            pre = fn(it, ins, args, st, None)
            if pre is not None: return pre
            outs = old(it, ins, args, st) if old else None
            if outs is None: outs = libmodel.external(it, ins, name, args, st)
            return fn(it, ins, args, st, outs) or outs
        it.models[name] = m
    def ob(s, kind, status, msg, ins=None):
        s.M.it.ob(kind, ins or s.M.it.curins, status, msg)
    def last(s, e):
        return s.M.fn(e.fn).blocks[-1].ins[-1]

def locs(p):
    return p.t if p.__class__ is PT else ()

def extent(l, size, it=None):
    """byte range an access can touch; running out of the array it designates is the
    business of the memory checks, so the range is cut at that array"""
    lo = hi = l.off
    for d in l.ds:
        a, b = d.lo * d.st, d.hi * d.st
        if d.n is not None: a, b = max(a, 0), min(b, (d.n - 1) * d.st)
        lo += min(a, b); hi += max(a, b)
    hi += size
    if it is not None and l.r.ty is not None and (hi - lo > size or hi > (l.r.size or hi)):
        a, b = libmodel.array_at(it, l.r, l.off)
        if a < b:
            if lo < a: lo = a
            if any(d.n is None for d in l.ds) or hi > (l.r.size or hi): hi = min(hi, b)
        else: lo = hi = l.off        # designates nothing inside the object
    return lo, hi

def report(rep, M, g, kinds, label=""):
    """ghost obligations: every status-2 entry is a violation"""
    n = ok = 0
    for (kind, iid), l in sorted(g.obs.items(), key=str):
        if kind not in kinds: continue
        ins = M.ins_of(iid)
        n += 1
        bad = [x for x in l if x[0] == 2]
        if not bad: ok += 1
        for st, msg, ent, ch, tag, cnt in bad:
            rep.violation("%s|%s|%s" % (ent[0] if ent else "?", kind, common.numless(msg)),
              "%s: %s%s; entry point %s, arguments %s; call path %s" % (M.m.where(ins), label, msg, ent[0] if ent else "?", ent[1] if ent else "", " > ".join(ir_base(M.ins_of(c).fn.name) for c in ch) or "-"))
    rep.cov[label + "obligations (sites x rule)"] = n
    rep.cov[label + "discharged"] = ok
    return n

def run(rep, hooks, names, owned, least, **kw):
    pre = kw.pop("pre", None)
    def attach(M):
        hooks.attach(M)
        if pre: pre(M)
    return run_group(rep, names, owned, least, pre=attach, **kw)

# ---------------------------------------------------------------- locks
class Locks(Base):
    PROT = {"input.inkey_buf": "input.inkey_mtx", "input.current_write": "input.inkey_mtx", "input.current_base": "input.inkey_mtx",
            "input.tchx": "input.touch_mtx", "input.tchy": "input.touch_mtx", "input.tchtime": "input.touch_mtx"}
    def setup(s, M):
        s.rng = []
        for m, l in s.PROT.items():
            o, z = M.member("ptc", m)
            s.rng.append((o, o + z, m, l))
        s.lk = {M.member("ptc", l)[0]: l for l in set(s.PROT.values())}
        s.wrap("mtx_lock", s.lock); s.wrap("mtx_unlock", s.unlock)
        s.wrap("thrd_sleep", s.sleep)
        M.it.on_load = s.load
    def name(s, p):
        for l in locs(p):
            if l.r is s.M.ptc: return s.lk.get(l.off) or s.M.ptc.label(l.off)
        return "an untracked lock"
    def lock(s, it, ins, args, st, outs):
        if outs is not None: return
        n = s.name(args[0]); h = st.ghost("locks", ())
        if n in h: s.ob("lock", "viol", "%s is locked while the same thread already holds it" % n, ins)
        elif h: s.ob("lock", "viol", "%s is locked while %s is held" % (n, ", ".join(h)), ins)
        else: s.ob("lock", "ok", None, ins)
        st.setg("locks", tuple(sorted(set(h) | {n})))
    def unlock(s, it, ins, args, st, outs):
        if outs is not None: return
        n = s.name(args[0]); h = st.ghost("locks", ())
        s.ob("lock", "ok" if n in h else "viol", "%s is released but is not held" % n, ins)
        h = tuple(x for x in h if x != n)
        st.setg("locks", h or None)
    def sleep(s, it, ins, args, st, outs):
        if outs is not None: return
        h = st.ghost("locks", ())
        s.ob("lock", "viol" if h else "ok", "waits while holding %s" % ", ".join(h), ins)
    def access(s, st, ins, l, size, how):
        if l.r is not s.M.ptc: return
        lo, hi = extent(l, size, s.M.it)
        if size > 4096: return
        for a, b, m, k in s.rng:
            if lo < b and hi > a:
                s.ob("guard", "ok" if k in st.ghost("locks", ()) else "viol", "ptc.%s is %s without holding %s" % (m, how, k), ins)
    def load(s, it, ins, p, st):
        z = it.m.size(ins.ty)
        for l in locs(p): s.access(st, ins, l, z, "read")
    def on_write(s, it, st, l, size, v): s.access(st, it.curins, l, size, "written")
    def on_exit(s, it, e, desc, v, st):
        h = st.ghost("locks", ())
        it.ob("lock", s.last(e), "viol" if h else "ok", "%s is still held when it returns" % ", ".join(h))

def members_used(M, f):
    """(struct name, member index) pairs that GEPs of f select by constant index"""
    out = set()
    for b in f.blocks:
        for i in b.ins:
            if i.op != "gep": continue
            t = i.x
            for ty, v in i.a[2:]:
                if t[0] == 'ns': nm = t[1]
                else: nm = None
                r = M.m.res(t)
                if r[0] == 'st':
                    if v[0] != 'c': break
                    if nm: out.add((nm, v[1]))
                    t = r[1][v[1]]
                elif r[0] in ('arr', 'vec'): t = r[2]
                else: break
    return out

def l01(rep):
    h = Locks(rep)
    names = None
    M, g = run(rep, h, names, [], 200, maxrounds=1)
    report(rep, M, g, ("lock", "guard"))
    n = sum(1 for k, i in g.obs if k == "guard")
    rep.need("sites that touch shared input state", n, 4)
    rep.need("lock operations", sum(1 for k, i in g.obs if k == "lock" and M.ins_of(i).op == "call"), 4)
    # functions outside every entry point
    own = {m.split(".")[1] for m in Locks.PROT}
    lay = M.m.lay(M.m.structs['struct.input'])[2] if 'struct.input' in M.m.structs else []
    idx = {}
    for o, z, nm, ty in M.m.fields("input"):
        if nm in own and o in lay: idx[("struct.input", list(lay).index(o))] = nm
    seen = 0
    for f in M.m.funcs.values():
        if f.decl: continue
        u = {idx[k] for k in members_used(M, f) if k in idx}
        if not u: continue
        seen += 1
        if f.name in g.fns: continue
        if f.name in M.init_fns: continue
        rep.violation("%s|outside" % ir_base(f.name), "%s: %s is accessed outside the analysed entry points" % (ir_base(f.name), ", ".join(sorted(u))))
    rep.cov["functions that touch shared input state"] = seen
    rep.cov["exempt: initialisation before the threads start"] = sorted(ir_base(n) for n in M.init_fns if n in M.m.funcs and any(k in idx for k in members_used(M, M.m.funcs[n])))
    rep.assume += ASSUME2

# ---------------------------------------------------------------- waiting and break
class Waits(Base):
    def setup(s, M): s.wrap("thrd_sleep", s.sleep)
    def sleep(s, it, ins, args, st, outs):
        if outs is not None: return
        k = it.errkey(st)
        s.ob("wait", "viol" if k == 'N' else "ok", "waits again although a break, shutdown or error is pending", ins)

class Naps(Base):
    """each single sleep is short, so that the pending error is seen soon"""
    LIMIT = 10 ** 9
    def setup(s, M): s.wrap("thrd_sleep", s.sleep); s.seen = 0
    def sleep(s, it, ins, args, st, outs):
        if outs is not None: return
        k = it.errkey(st)
        s.ob("wait", "viol" if k == 'N' else "ok", "waits although a break, shutdown or error is already pending", ins)
        for l in locs(args[0]):
            sec = it.load_loc(st, Loc(l.r, l.off, l.ds), 8, ('i', 64))
            ns = it.load_loc(st, Loc(l.r, l.off + 8, l.ds), 8, ('i', 64))
            ok = sec.__class__ is I and sec.const and sec.lo == 0 and ns.__class__ is I and ns.sview()[1] < s.LIMIT
            s.ob("nap", "ok" if ok else "viol", "a single sleep can last a second or longer, during which a break is not noticed", ins)

def l02(rep):
    import cfg, driver, entries
    M = common.machine()
    m = M.m
    cg = cfg.callgraph(m)
    mem = cfg.member_index(m, "runner", "error")
    if mem is None: raise Broken("struct runner has no member error")
    A = cfg.Assume(m, mem)
    dispatch = [f.name for f in cfg.funcs(m) if any(i.op == "call" and i.x[0] == 'r' for b in f.blocks for i in b.ins) and any(g == "ptc_commands" for b in f.blocks for i in b.ins for o in (i.a or ()) for g in cfg.globals_in(o[1] if len(o) > 1 else None))]
    rep.need("functions that dispatch BASIC commands", len(dispatch), 1)
    prog = cfg.closure(m, dispatch, cg)          # everything that runs on the program thread because of a statement
    waiters = cfg.reaching(m, {"thrd_sleep", "cnd_wait", "cnd_timedwait", "usleep", "nanosleep", "sleep", "sfSleep"} & set(m.funcs), cg)
    rep.need("program-thread functions that can wait", len([n for n in waiters & prog if n in m.funcs and not m.funcs[n].decl]), 1)
    loops = 0
    wait_fns = {}
    for n in sorted(prog):
        f = m.funcs.get(n)
        if f is None or f.decl: continue
        for h, body in cfg.natural_loops(f):
            why = None
            for b in body:
                for i in b.ins:
                    if i.op != "call": continue
                    if i.x[0] == 'g' and i.x[1] in waiters and i.x[1] not in M_skip(m): why = why or ("waits in %s" % ir_base(i.x[1]), i)
                    elif i.x[0] == 'r' and n in dispatch: why = why or ("executes statements", i)
            if why is None: continue
            loops += 1
            if A.stays(f, h, body):
                rep.violation("%s|%s" % (ir_base(n), why[0]), "%s (%s): the loop that %s can go round again while an error, break or shutdown is pending: no test of the error that leaves the loop lies on every way round" % (m.where(why[1]), ir_base(n), why[0]))
    rep.need("loops that wait or execute statements", loops, 2)
    # the sleeps themselves
    h = Naps(rep)
    es = [e for e in entries.enumerate_entries(M) if e.kind != "win" and M.fn(e.fn).name in waiters and not (cfg.closure(m, [e.fn], cg) & set(dispatch))]
    names = sorted({e.name for e in es})
    rep.cov["statements that can wait"] = names
    h.attach(M)
    g = driver.Group(M, es, [], 1)
    g.run(0)
    report(rep, M, g, ("wait", "nap"), "sleeps: ")
    direct = {f.name for f in cfg.funcs(m) if f.name in prog and any(i.op == "call" and i.x == ('g', "thrd_sleep") for b in f.blocks for i in b.ins)}
    for n in sorted(direct - g.fns - set(dispatch)):
        rep.violation("%s|unreached" % ir_base(n), "%s sleeps but is not reached from any analysed statement" % ir_base(n))
    rep.need("functions that sleep", len(direct), 1)
    rep.assume.append("a loop iteration sees the value the error cell has when the iteration loads it")

def M_skip(m): return ()

def _uses(i, g):
    import cfg
    return any(x == g for o in (i.a or ()) for x in cfg.globals_in(o[1] if len(o) > 1 else None))

# ---------------------------------------------------------------- raised errors stay
class ErrorStays(Base):
    def setup(s, M):
        # names from the table of packaged resources are valid (shown by the check of R04)
        m = M.m
        s.pk = {f.name for f in m.funcs.values() if not f.decl and any(i.op in ("gep", "call", "load") and _uses(i, "package_resources") for b in f.blocks for i in b.ins)}
        v = [f for n, f in m.funcs.items() if ir.base(n) == "get_verified_resource_type" and not f.decl]
        for f in v:
            def mod(it, ins, args, st, f=f):
                if not it.stack or it.stack[-1] not in s.pk: return None
                return [(v, o) for v, o in it.call_fn(f, args, st, ins) if it.errkey(o) != 'N']
            M.it.models[ir.base(f.name)] = mod
    def on_write(s, it, st, l, size, v):
        M = s.M
        if l.r is not M.ptc or l.ds: return
        if not (l.off <= M.o_err < l.off + size): return
        if it.entry and it.entry[0].startswith("window"):
            # another thread may raise a break at any time; it must not clear anything
            if v.__class__ is I and has(v, 0): s.ob("error", "viol", "the window thread clears the program's error")
            else: s.ob("error", "ok", None)
            return
        k = it.errkey(st)
        if k != 'N': s.ob("error", "ok", None); return
        if size == 4 and l.off == M.o_err:
            if v.__class__ is I and v.const and v.lo == 0: s.ob("error", "viol", "clears an error that was raised before")
            elif s.same(it, st, v): s.ob("error", "ok", None)
            else: s.ob("error", "viol", "replaces an error that was raised before with another one")
        else:
            if v == 0: s.ob("error", "viol", "clears an error that was raised before")
            else: s.ob("error", "ok", None)      # structure copies are judged by their effect, below
    def same(s, it, st, v):
        """the stored value is the pending error itself"""
        d = st.mem.get(s.M.ptc)
        c = d.get(s.M.o_err) if d else None
        return c is not None and c[1] is v

def l03(rep):
    h = ErrorStays(rep)
    M, g = run(rep, h, None, [], 200, maxrounds=1)
    report(rep, M, g, ("error",))
    rep.assume.append("the names in package_resources are valid resource types (decided by the check of R04)")
    rep.need("sites that store the error", sum(1 for k, i in g.obs if k == "error"), 40)
