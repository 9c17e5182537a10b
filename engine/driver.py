"""Group fixpoint: run a set of entries from the machine invariant, join their exit
states into the invariant of the subsystems they own, repeat until nothing changes, and
collect the proof obligations of the final pass."""
import os, sys, time, pickle, traceback
import ir, absint, entries
from absint import State, Budget
from dom import *
from machine import Machine, Anchor

TH = sorted({-(1 << 31), -(1 << 19), -32768, -1, 0, 1, 2, 3, 7, 8, 15, 16, 23, 24, 31, 32, 63, 64, 99, 100, 127, 128, 191, 192, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 32767, 65535, 65536, (1 << 19), (1 << 31) - 1})

def enc(M, v):
    c = v.__class__
    if c is I: return ('I', v.lo, v.hi, v.w, v.ql, v.qh, v.s, v.xs)
    if c is F: return ('F', v.lo, v.hi, v.nan, v.ex)
    if c is FN: return ('N', v.names)
    if c is PT:
        t = []; unk = v.unk
        for l in v.t:
            r = l.r
            if r.user is not None: r = M.stored
            if r.pid is None:
                if r.kind == "global" and r.const is not None:
                    t.append((r.name, l.off, tuple((d.st, d.lo, d.hi, d.n, d.ql, d.qh) for d in l.ds)))
                else: unk = True
                continue
            x = (r.pid, l.off, tuple((d.st, d.lo, d.hi, d.n, d.ql, d.qh) for d in l.ds))
            if x not in t: t.append(x)
        return ('P', tuple(t), v.null, v.ex, unk)
    return None

def dec(M, e):
    k = e[0]
    if k == 'I': return I(e[1], e[2], e[3], e[4], e[5], E, e[6], e[7])
    if k == 'F': return F(e[1], e[2], e[3], e[4])
    if k == 'N': return FN(e[1])
    t = []
    for p, off, ds in e[1]:
        r = M.it.greg_of(p[1:]) if isinstance(p, str) else M.pregs[p]
        t.append(Loc(r, off, tuple(D(*d) for d in ds)))
    return PT(tuple(t), e[2], e[3], e[4])

def one_pass(M, e, base, part, vidx, cells, finals, quiet):
    it = M.it; f = M.fn(e.fn); n = 0
    for i, (desc, args, st) in enumerate(entries.variants(M, e, base)):
        if part and i % part != vidx: continue
        n += 1
        it.entry = (e.id, desc)
        if args is None: args = [PT((Loc(M.ptc, 0),))]
        it.steps = 0
        hk = getattr(M, "on_entry", None)
        sts = [st]
        if hk:
            sts = hk(it, e, desc, args, st)
            if not sts: continue
            if sts is True: sts = [st]
        outs = []
        for st in sts:
            it.steps = 0
            try: outs += it.call_fn(f, args, st)
            except Budget as x:
                it.budget.append((e.id, desc, str(x))); continue
            except RecursionError as x:
                it.budget.append((e.id, desc, "recursion")); continue
        for v, o in outs:
            if it.on_exit and it.rec: it.on_exit(it, e, desc, v, o)
            finals.append(final(M, e, desc, o))
            for r, d in o.mem.items():
                if r.pid is None or r.pid >= M.nexp: continue
                for off, (z, val) in d.items():
                    if val is TOP or val is None: continue
                    k = (r.pid, off)
                    if o.jt and (vorg(val) & o.jt) or not o.pq: val = deg(val)
                    val = M.clean(val)
                    if val is TOP: continue
                    old = cells.get(k)
                    if old is None: cells[k] = (z, val)
                    elif old[0] == z: cells[k] = (z, join(old[1], val))
    return n

def run_job(M, job):
    """-> dict of results, picklable"""
    e, vidx, part, base, rec = job
    it = M.it
    it.obs = {}; it.rec = rec; it.reads = set(); it.budget = []; it.heap = dict(M.heap0); it.tainted = []; it.cmpth = {}; it.extra = {}
    it.fnset = set()
    f = M.fn(e.fn)
    t0 = time.time()
    cells = {}
    finals = []
    # entries of other threads run any number of times: close their effect on their own first
    saved = {}
    if e.kind == "win":
        it.rec = 0
        for k in range(30):
            cs = {}
            one_pass(M, e, base, None, 0, cs, [], 1)
            ch = False
            for key, (z, v) in cs.items():
                old = it.inv.get(key)
                if old is None or old[0] != z: continue
                j = join(old[1], v)
                if j is TOP or samev(j, old[1]): continue
                saved.setdefault(key, old)
                if k >= 1: j = widen(old[1], j, TH)
                if k >= 22 and j.__class__ is I: j = full(j.w, False)
                it.inv[key] = (z, j); ch = True
            if not ch: break
        it.rec = rec; it.obs = {}
        for key in saved: cells[key] = it.inv[key]
    n = one_pass(M, e, base, part, vidx, cells, finals, 0)
    it.inv.update(saved)
    obs = []
    fi = M.insid
    for (k, ins), ob in it.obs.items():
        obs.append((k, fi(ins), ob.st, ob.msg, ob.n, ob.entry, tuple(fi(c) for c in ob.chain if c is not None), ob.tag))
    cc = {}
    for k, (z, v) in cells.items():
        if v.__class__ is _T: continue
        x = enc(M, v)
        if x is not None: cc[k] = (z, x)
    return dict(id=e.id, obs=obs, cells=cc, reads=it.reads, budget=it.budget, n=n, finals=finals, wall=time.time() - t0, taint=[(r.pid, c) for r, c in it.tainted if r.pid is not None and r.pid < M.nexp], fns=it.fnset, cmp=it.cmpth, extra={k: (fi(i), tuple(fi(c) for c in ch if c is not None), x) for k, (i, ch, x) in it.extra.items()})
_T = TOP.__class__

def final(M, e, desc, o):
    """what the evaluation stack and error cell look like when the entry returns"""
    d = o.mem.get(M.ptc, {})
    c = d.get(M.o_sti)
    sti = c[1] if c else None
    k = M.it.errkey(o)
    top = None
    if sti.__class__ is I and sti.const and sti.lo >= 1 and sti.lo < 100:
        t = d.get(M.o_ent + 16 * (sti.lo - 1))
        top = (t[1].lo, t[1].hi) if t and t[1].__class__ is I else None
    return (desc, k, (sti.lo, sti.hi, sti.ql and o.pq, sti.qh and o.pq) if sti.__class__ is I else None, top, o.pq)

_M = None
def _work(q):
    try: return run_job(_M, q)
    except Exception:
        return dict(id=q[0].id, crash=traceback.format_exc())

class Group:
    def __init__(s, M, ents, owned=None, maxrounds=16, procs=None, heavy=()):
        """owned: ptc member names whose invariant is computed by this group; cells of
        other members are unknown"""
        s.M, s.ents = M, ents
        s.owned = owned
        s.procs = procs or min(8, os.cpu_count() or 1)
        s.maxrounds = maxrounds
        s.log = []; s.why = {}
        s.heavy = set(heavy)
    def prepare(s):
        M = s.M; it = M.it
        M.heap0 = dict(it.heap)
        if s.owned is None: return
        rng = []
        for n in s.owned:
            o, z = M.member("ptc", n)
            rng.append((o, o + z))
        for (pid, off), (z, v) in list(it.inv.items()):
            if pid == M.ptc.pid:
                if any(a <= off < b for a, b in rng): continue
                if v.__class__ is I: it.inv[(pid, off)] = (z, I(-(1 << (v.w - 1)), (1 << (v.w - 1)) - 1, v.w, False, False) if v.w > 1 else I(0, 1, 1, False, False, E, frozenset((0, 1))))
        s.rng = rng
    def mine(s, k):
        if s.owned is None: return True
        pid, off = k
        if pid != s.M.ptc.pid: return True
        return any(a <= off < b for a, b in s.rng)
    def jobs(s, ents, base, rec):
        out = []
        for e in ents:
            n = 8 if e.name in HEAVY else 1
            for i in range(n): out.append((e, i, n if n > 1 else 0, base, rec))
        out.sort(key=lambda j: -WEIGHT.get(j[0].name, 1))
        return out
    def pool(s, jobs):
        import multiprocessing as mp
        global _M
        _M = s.M
        if s.procs == 1 or len(jobs) == 1: return [_work(j) for j in jobs]
        ctx = mp.get_context("fork")
        # entries hold only plain data, so they pickle
        with ctx.Pool(s.procs, maxtasksperchild=1) as p:      # a fresh process for each entry: no entry sees what another left in caches
            return p.map(_work, jobs, 1)
    def run(s, base=0):
        M = s.M; it = M.it
        s.prepare()
        early = [e for e in s.ents if e.name not in LATE or s.maxrounds == 1]
        late = [e for e in s.ents if e not in early]
        pend = {e.id for e in late}
        todo = early or late
        if not early: pend = set()
        s.res = {}; s.cmpth = {}; s.wn = {}
        for rnd in range(s.maxrounds):
            last = False
            R = s.pool(s.jobs(todo, base, 1))
            byid = {}
            for r in R:
                if "crash" in r: raise RuntimeError("%s: %s" % (r["id"], r["crash"]))
                byid.setdefault(r["id"], []).append(r)
            for rs in byid.values():
                for r in rs:
                    for k, c in r["cmp"].items(): s.cmpth.setdefault(k, set()).update(c)
            changed = set()
            for id, rs in byid.items(): s.res[id] = rs
            for rs in byid.values():
                for r in rs:
                    for pid, ch in r["taint"]:
                        reg = M.pregs[pid]
                        if not reg.esc:
                            reg.esc = True; s.log.append("region %s written at an untracked offset by %s (%s)" % (reg.name, r["id"], "/".join(ch)))
                            changed |= {k for k in it.inv if k[0] == pid}
                    for k, (z, e) in r["cells"].items():
                        if not s.mine(k): continue
                        v = dec(M, e)
                        old = it.inv.get(k)
                        if old is None:
                            it.inv[k] = (z, v if v.__class__ is not I else v); changed.add(k); continue
                        if old[0] != z: continue
                        j = join(old[1], v)
                        if j is TOP: continue
                        if not samev(j, old[1]):
                            n = s.wn.get(k, (0, -1))
                            if n[1] != rnd: n = s.wn[k] = (n[0] + 1, rnd)
                            if n[0] > 2:
                                c = s.cmpth.get(k)
                                j = widen(old[1], j, sorted({x + y for x in c for y in (-1, 0, 1)}) if c and n[0] < 9 else TH if not c else [])
                            if (n[0] > 4 if not s.cmpth.get(k) else n[0] > 9) and j.__class__ is I and j.w > 1: j = I(-(1 << (j.w - 1)), (1 << (j.w - 1)) - 1, j.w, False, False)
                            it.inv[k] = (z, j); changed.add(k)
                            s.why.setdefault(k, []).append((rnd, r["id"], repr(old[1]), repr(v), repr(j)))
            tm = {}
            for id, rs in byid.items(): tm[id] = sum(r["wall"] for r in rs)
            s.times = getattr(s, "times", {}); 
            for k, v in tm.items(): s.times[k] = s.times.get(k, 0) + v
            s.log.append("round %d: %d entries, %d invariant cells changed" % (rnd, len(todo), len(changed)))
            todo = [e for e in s.ents if e.id in s.res and any(k in changed for r in s.res[e.id] for k in r["reads"])]
            pend |= {e.id for e in todo if e.name in LATE}
            todo = [e for e in todo if e.name not in LATE]
            if not todo:
                todo = [e for e in late if e.id in pend]; pend = set()
            if not todo: break
        s.rounds = rnd + 1
        return s.collect()
    def collect(s):
        obs = {}
        s.budget = []; s.finals = {}; s.nvar = 0; s.fns = set(); s.extra = {}
        for id, rs in s.res.items():
            for r in rs:
                s.nvar += r["n"]; s.budget += r["budget"]; s.fns |= r["fns"]
                s.finals.setdefault(id, []).extend(r["finals"])
                for k, x in r["extra"].items(): s.extra.setdefault(id, {}).setdefault(k, x)
                for k, ins, st, msg, n, ent, ch, tag in r["obs"]:
                    obs.setdefault((k, ins), []).append((st, msg, ent, ch, tag, n))
        s.obs = obs
        return obs

LATE = {"INPUT", "LINPUT"}
HEAVY = {"PRINT", "INPUT", "READ", "EXEC", "LOAD", "FILES"}
WEIGHT = {"READ": 50, "INPUT": 30, "PRINT": 30, "EXEC": 20, "LOAD": 10, "FILES": 9, "SAVE": 5, "GOTO": 4, "GOSUB": 4, "APPEND": 3, "LINPUT": 5}
