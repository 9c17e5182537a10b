"""What each entry point may change: redraw marks, subsystem confinement, inactive sprites,
draw page confinement."""
import re
import common, groups, ir, restype
from common import Broken
from groups import ir_base
from dom import *
from absint import Region
from ghost import Base, locs, extent, report, run, ASSUME2

def top_members(M):
    """[(lo, hi, name)] of struct ptc and of its resources and execution records"""
    id = M.m.struct_id("ptc"); out = []
    for o, z, nm, ty in M.m.members(id):
        if nm in ("res", "exec", "stack"):
            t = M.m.strip_td(ty)
            for o2, z2, n2, ty2 in M.m.members(t): out.append((o + o2, o + o2 + z2, nm + "." + n2))
        else: out.append((o, o + z, nm))
    return sorted(out)

def pointed(M, member):
    """regions that a pointer member (or table of pointers) of struct ptc designates"""
    o, z = M.member("ptc", member); out = set()
    for (pid, off), (zz, v) in M.it.inv.items():
        if pid == M.ptc.pid and o <= off < o + z and v.__class__ is PT: out |= {l.r for l in v.t if l.r is not M.ptc}
    return out

def roles(M):
    """persistent regions named after the member of struct ptc that reaches them"""
    id = M.m.struct_id("ptc"); out = {}
    for n in ("chr", "scr", "grp", "col"):
        for r in pointed(M, "res." + n): out.setdefault(r, "res." + n)
    def visit(r0, depth):
        for (pid, off), (z, v) in list(M.it.inv.items()):
            if pid != r0.pid or v.__class__ is not PT: continue
            for l in v.t:
                if l.r is M.ptc or l.r.kind == "global" or l.r in out: continue
                if r0 is M.ptc:
                    t = [n for a, b, n in top if a <= off < b]
                    out[l.r] = t[0] if t else "?"
                else: out[l.r] = out[r0]
                if depth < 3: visit(l.r, depth + 1)
    top = top_members(M)
    visit(M.ptc, 0)
    return out

# ---------------------------------------------------------------- V01 redraw marks
class Redraw(Base):
    def setup(s, M):
        s.img = pointed(M, "res.chr") | pointed(M, "res.all_banks"); s.col = pointed(M, "res.col") | pointed(M, "res.col_banks")
        if not s.img or not s.col: raise Broken("character or colour memory not found")
        s.split = restype.Split(M)
        s.rc = M.member("ptc", "res.regen_chr"); s.rl = M.member("ptc", "res.regen_col")
    def on_write(s, it, st, l, size, v):
        if l.r is s.M.ptc and l.off == s.M.o_err and size == 4 and v.__class__ is I and not has(v, 0):
            st.gh = (); return                 # a run that ends with an error is not judged
        if it.errkey(st) == 'N': return
        if l.r in s.img: st.setg("images", 1); it.extra["images"] = (it.curins, (), "")
        elif l.r in s.col: st.setg("colours", 1); it.extra["colours"] = (it.curins, (), "")
        elif l.r is s.M.ptc and size <= 8:
            on = v.__class__ is I and not has(v, 0)
            for (o, z), g in ((s.rc, "images"), (s.rl, "colours")):
                if o <= l.off < o + z:
                    if on: st.setg(g, None)
                    elif st.ghost(g): s.ob("mark", "viol", "a redraw mark for %s is cleared by the program" % g)
                    it.extra["mark " + g] = (it.curins, (), "")
    def on_entry(s, it, e, desc, args, st):
        # the variant with a text of any length includes the others
        return not (e.name in ("LOAD", "EXEC") and desc != "S/sNone")
    def on_exit(s, it, e, desc, v, st):
        if it.errkey(st) == 'N': return
        for g in ("images", "colours"):
            it.ob("redraw " + g, s.last(e), "viol" if st.ghost(g) else "ok", "completes without marking changed %s for redrawing" % g)

def v01(rep):
    h = Redraw(rep)
    M, g = run(rep, h, None, [], 200, maxrounds=1, only=lambda e: e.thread == "program" or e.name == "press_key" or e.name == "set_input")
    report(rep, M, g, ("mark", "redraw images", "redraw colours"))
    w = sorted({id for id, x in g.extra.items() if "images" in x or "colours" in x})
    rep.cov["entry points that change images or colours"] = w
    rep.need("entry points that change images or colours", len(w), 6)
    rep.need("entry points that set redraw marks", sum(1 for x in g.extra.values() if "mark images" in x or "mark colours" in x), 6)
    # the image table and the mark table are indexed alike, for every resource type
    restype.agree(rep, M)
    rep.assume += ASSUME2

# ---------------------------------------------------------------- V03 inactive sprites
NEEDS_SPRITE = "SPOFS SPANGLE SPSCALE SPSETV SPCOL SPCOLVEC SPHOME".split()
class Inactive(Base):
    """phase 0: every sprite is off; phase 1: any state, writes need a test of the same element"""
    def setup(s, M):
        s.base, s.size = M.member("ptc", "sprites.info")
        s.act, _ = M.member("ptc", "sprites.info")
        o, z = s.sub(M, "active")
        s.act = (s.base + o, z)
        s.elem = M.m.size(('ns', 'struct.sprite_info'))
        M.it.on_load = s.load
    def sub(s, M, n):
        for o, z, nm, ty in M.m.fields_list("sprite_info") if hasattr(M.m, "fields_list") else M.m.members(M.m.struct_id("sprite_info")):
            if nm == n: return o, z
        raise Broken("struct sprite_info has no member %s" % n)
    def sig(s, l):
        return ((l.off - s.base) // s.elem, tuple((d.st, d.lo, d.hi) for d in l.ds if d.st >= s.elem))
    def load(s, it, ins, p, st):
        for l in locs(p):
            if l.r is s.M.ptc and s.base <= l.off < s.base + s.size and (l.off - s.act[0]) % s.elem == 0 and it.m.size(ins.ty) == s.act[1]:
                t = st.ghost("tested", frozenset())
                st.setg("tested", t | {s.sig(l)})
    def on_entry(s, it, e, desc, args, st):
        a = st.copy()
        d = it.wr(a, s.M.ptc); n = 0
        for pid, off in it.inv:
            if pid == s.M.ptc.pid and s.base <= off < s.base + s.size and (off - s.act[0]) % s.elem == 0:
                d[off] = (s.act[1], C(0, 8 * s.act[1])); n += 1
        if not n: raise Broken("sprite state cells not found")
        a.setg("off", 1)
        return [a, st]
    def on_write(s, it, st, l, size, v):
        if l.r is not s.M.ptc or not (s.base <= l.off < s.base + s.size): return
        if st.ghost("off"): s.ob("sprite", "viol", "changes a sprite although no sprite is set up"); return
        ok = s.sig(l) in st.ghost("tested", frozenset())
        s.ob("sprite", "ok" if ok else "viol", "changes a sprite without having tested that this sprite is set up")
    def on_exit(s, it, e, desc, v, st):
        if not st.ghost("off"): return
        k = it.errkey(st)
        it.ob("exit", s.last(e), "ok" if k == 'N' else "viol", "completes without an error although no sprite is set up")

def v03(rep):
    h = Inactive(rep)
    M, g = run(rep, h, NEEDS_SPRITE + ["SPGETV"], [], len(NEEDS_SPRITE), maxrounds=1)
    n = report(rep, M, g, ("sprite", "exit"))
    rep.need("sites that change a sprite", sum(1 for k, i in g.obs if k == "sprite"), 6)
    rep.assume += ASSUME2

# ---------------------------------------------------------------- V04 draw page
DRAW = "GBOX GCIRCLE GCLS GCOPY GFILL GLINE GPAINT GPSET GPUTCHR".split()
class DrawPage(Base):
    def setup(s, M):
        o, z = M.member("ptc", "res.grp")
        s.grp = o; s.n = z // 8
        s.pages = [Region("graphics page %d" % i, 49152, None, "data", M.m) for i in range(s.n)]
        for r in pointed(M, "res.grp"):
            for p in s.pages: p.size = r.size
        s.scr = M.member("ptc", "graphics.screen")
        s.info = M.member("ptc", "graphics.info")
        ty = [t for o, z, nm, t in M.m.members(M.m.struct_id("graphics")) if nm == "info"]
        el = M.m.strip_td(ty[0])
        if "DW_TAG_array_type" in M.m.md.get(el, ""): el = M.m.strip_td(M.m.mdget(el, "baseType").lstrip("!"))
        o = [(o, z) for o, z, nm, t in M.m.members(el) if nm == "drawpage"]
        if not o: raise Broken("draw page selectors not found")
        w = s.info[1] // 2
        s.dp = [o[0][0], w + o[0][0]]
    def on_entry(s, it, e, desc, args, st):
        out = []
        for screen, page in ((0, 0), (0, 2), (1, 1), (1, 3)):
            a = st.copy(); d = it.wr(a, s.M.ptc)
            for i, r in enumerate(s.pages): d[s.grp + 8 * i] = (8, PT((Loc(r, 0),)))
            d[s.scr[0]] = (s.scr[1], C(screen, 8 * s.scr[1]))
            for k in (0, 1): d[s.info[0] + s.dp[k]] = (1, C(page if k == screen else (page + 1) % s.n, 8))
            a.setg("page", page)
            out.append(a)
        return out
    def on_write(s, it, st, l, size, v):
        if l.r not in s.pages: return
        k = s.pages.index(l.r); w = st.ghost("page")
        s.ob("page", "ok" if k == w else "viol", "writes graphics page %d while page %d is selected" % (k, w))

def v04(rep):
    h = DrawPage(rep)
    M, g = run(rep, h, DRAW, [], len(DRAW), maxrounds=1)
    report(rep, M, g, ("page",))
    rep.need("sites that write pixels", sum(1 for k, i in g.obs if k == "page"), 2)
    ents = {x[2][0] for (k, i), l in g.obs.items() for x in l if k == "page" and x[2]}
    rep.assume += ASSUME2

# ---------------------------------------------------------------- V02 subsystem confinement
ANY = {"stack.entry", "stack.stack_i", "exec.error", "exec.error_info", "new string", "string use count"}
FLOW = "exec.index exec.argcount exec.data_index exec.data_offset"
FILE = "*exec.prg *res.chr *res.grp *res.col *res.scr res.mem res.mem_str res.mem_ptr res.package res.prgname res.regen_chr res.regen_col res.result res.visible exec.prg"
MAY = [   # (entry points, what they may change besides ANY)
 ("PRINT LOCATE COLOR FILES TABSTEP=", "console"),
 ("CLS", "console *panel"),
 ("INPUT LINPUT", "console input panel *panel *res.chr *res.scr res.regen_chr"),
 ("BGCLR BGCOPY BGFILL BGPUT", "*res.scr"),
 ("BGCLIP BGOFS BGPAGE step_background", "background"),
 ("GBOX GCIRCLE GCLS GCOPY GFILL GLINE GPAINT GPSET", "*res.grp"),
 ("GPUTCHR", "*res.grp *res.col res.regen_col"),
 ("GCOLOR GDRAWMD GPAGE GPRIO", "graphics"),
 ("SPANGLE SPANIM SPCHR SPCLR SPCOL SPCOLVEC SPHOME SPOFS SPPAGE SPSCALE SPSET SPSETV SPHIT SPHITRC SPHITSP step_sprites", "sprites"),
 ("PNLSTR KEY ICONSET ICONCLR ICONPAGE= ICONPMAX= ICONPUSE=", "panel *panel"),
 ("PNLTYPE", "panel *panel *res.scr *res.chr res.regen_chr"),
 ("VISIBLE", "res.visible"),
 ("CHRINIT CHRSET", "*res.chr res.regen_chr " "*exec.prg *res.grp *res.scr *res.col res.mem"),
 ("COLINIT COLSET", "*res.col res.regen_col"),
 ("CHRREAD COLREAD BGREAD SPREAD DTREAD TMREAD SWAP", "variable argument"),
 ("READ", "variable argument exec.data_index exec.data_offset"),
 ("=", "variable argument"),
 ("RESTORE", "exec.data_index exec.data_offset"),
 ("LOAD APPEND", FILE + " console"),
 ("EXEC RUN", FILE + " " + FLOW),
 ("SAVE", "res.result"),
 ("NEW", "exec.prg"),
 ("BREPEAT", "input"), ("INKEY$", "input"),
 ("POKE POKEH POKEB MEMCOPY MEMFILL", "interpreter memory"),
 ("MEM$=", "res.mem res.mem_ptr res.mem_str"), ("MEMSAFE=", "memapi"),
 ("FOR NEXT GOSUB RETURN", "calls exec.index"), ("GOTO ON ELSE IF END STOP CONT", "exec.index"),
 ("CLEAR", "vars arrs strs *vars *arrs *strs"), ("ADDR", "vars *vars"), ("DIM ARRAY [] (", "vars arrs *vars *arrs"),
 ("set_input", "input"), ("set_inkey set_touch", "input"), ("inc_time", "time"),
 ("press_key", "input panel *panel *res.chr res.regen_chr"),
]
FREE = {"ACLS"}      # runs a program of its own that resets everything
class Effects(Base):
    """records every target of every write, per entry point. A write belongs to the object its
    base address lies in: running over the end of it is the business of the memory checks"""
    def setup(s, M):
        s.top = top_members(M)
        s.roles = roles(M)
        s.uses = [o for o, z, nm, t in M.m.members(M.m.struct_id("string")) if nm == "uses"][0]
    def target(s, it, l, size):
        r = l.r
        if r is s.M.ptc:
            own = [(a, b, n) for a, b, n in s.top if a <= l.off < b]
            lo, hi = extent(l, size, it)
            if own and hi - lo > own[0][1] - own[0][0]: return [own[0][2]]
            t = [n for a, b, n in s.top if lo < b and hi > a]
            return t if len(t) <= 3 else ()          # the position is not known
        if r in s.roles: return ["*" + s.roles[r]]
        if r.kind == "global": return ["global " + r.name]
        if r.kind in ("alloca", "local", "sink"): return ()
        n = common.numless(r.name).replace("#", "").strip() if hasattr(common, "numless") else r.name
        if n.startswith("new string"): return ["new string"]
        if n.startswith(("string argument", "label argument")) and l.off == s.uses: return ["string use count"]
        for k in ("variable argument", "string argument"):
            if n.startswith(k): return [k]
        return [n]
    def on_write(s, it, st, l, size, v):
        for t in s.target(it, l, size):
            if t not in it.extra: it.extra[t] = (it.curins, tuple(it.chain), "")

def v02(rep):
    h = Effects(rep)
    M, g = run(rep, h, None, [], 200, maxrounds=1)
    may = {}
    for ns, ts in MAY:
        for n in ns.split(): may.setdefault(n, set()).update(ts.split() if " argument" not in ts and "memory" not in ts else [])
    for ns, ts in MAY:
        for k in ("variable argument", "interpreter memory"):
            if k in ts:
                for n in ns.split(): may[n].add(k)
                rest = ts.replace(k, "").split()
                for n in ns.split(): may[n].update(rest)
    n = quiet = 0; seen = {}
    for id in sorted(g.res):
        kind, name = entry_name(id)
        if name in FREE: continue
        ok = ANY | may.get(name + ("=" if kind == "assignment check" else ""), set())
        for t, (i, ch, x) in sorted(g.extra.get(id, {}).items()):
            n += 1
            seen.setdefault(name, set()).add(t)
            if t in ok: quiet += 1; continue
            ins = M.ins_of(i)
            rep.violation("%s|%s" % (id, t), "%s: %s changes %s, which is not among what it is documented to change (%s); call path %s" % (M.m.where(ins), id, t, ", ".join(sorted(ok - ANY)) or "nothing", " > ".join(ir_base(M.ins_of(c).fn.name) for c in ch if c is not None) or "-"))
    rep.cov["entry point x changed part pairs"] = n
    rep.cov["within the documented parts"] = quiet
    rep.cov["entry points that change nothing but their result"] = sum(1 for id in g.res if not (set(g.extra.get(id, {})) - ANY))
    rep.need("pairs", n, 300)
    rep.need("entry points that change a subsystem", sum(1 for id in g.res if set(g.extra.get(id, {})) - ANY), 70)
    rep.cov["exempt"] = sorted(FREE)
    rep.assume += ASSUME2

def entry_name(id):
    for k in ("assignment check", "command", "function", "operator", "variable", "window"):
        if id.startswith(k + " "): return k, id[len(k) + 1:]
    return "", id
