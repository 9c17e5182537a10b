"""Properties decided by the abstract interpreter over groups of entry points."""
import re, os, json
import common
from common import Report, Broken, numless

WIN_INPUT = ["set_input", "set_inkey", "set_touch", "press_key"]
G = {
 "M01": dict(names="BGCLIP BGCLR BGCOPY BGFILL BGOFS BGPAGE BGPUT BGREAD CHRINIT CHRREAD CHRSET COLINIT COLREAD COLSET GBOX GCIRCLE GCLS GCOLOR GCOPY GDRAWMD GFILL GLINE GPAGE GPAINT GPRIO GPSET GPUTCHR SPANGLE SPANIM SPCHR SPCLR SPCOL SPCOLVEC SPHOME SPOFS SPPAGE SPREAD SPSCALE SPSET SPSETV VISIBLE BGCHK GSPOIT SPCHK SPGETV SPHIT SPHITRC SPHITSP SPHITNO SPHITX SPHITY SPHITT step_sprites step_background".split(),
   owned="background sprites graphics res".split(), least=27),
 "M02": dict(names="PRINT LOCATE COLOR CLS INPUT LINPUT PNLSTR PNLTYPE KEY ICONSET ICONCLR CHKCHR CSRX CSRY TABSTEP ICONPUSE ICONPAGE ICONPMAX".split() + WIN_INPUT,
   owned="console panel input res".split(), least=12),
 "M03": dict(names="ASC CHR$ HEX$ INSTR LEFT$ LEN MID$ RIGHT$ STR$ SUBST$ VAL INKEY$ + * == != < > <= >= TIME$ DATE$ PRGNAME$ PACKAGE$ MEM$ DTREAD TMREAD READ CHRREAD BGREAD PTR$".split(),
   owned="strs res".split(), least=16),
 "M05": dict(names="LOAD EXEC APPEND FILES SAVE".split(), owned="res".split(), least=3),
 "M08": dict(names="INKEY$ BTRIG BUTTON ICONCHK KEYBOARD FUNCNO TCHX TCHY TCHST TCHTIME ICONSET ICONCLR KEY BREPEAT PNLTYPE ICONPUSE ICONPAGE ICONPMAX".split() + WIN_INPUT,
   owned="panel input".split(), least=12),
 "C07": dict(names="FOR TO STEP NEXT GOSUB RETURN GOTO ON".split(), owned="calls".split(), least=4),
}
KINDS = ("bound", "null", "abort", "div", "und")

def run_group(rep, names, owned, least, base=0, maxrounds=16, pre=None, skip=(), only=None):
    import entries, driver
    M = common.machine()
    if pre: pre(M)
    es = entries.enumerate_entries(M)
    if names is not None: es = [e for e in es if e.name in names]
    es = [e for e in es if e.name not in skip and (only is None or only(e))]
    rep.need("entry points", len(es), least)
    g = driver.Group(M, es, owned, maxrounds)
    g.run(base)
    rep.cov["entry states (entry x argument form x string length)"] = g.nvar
    rep.cov["fixpoint rounds"] = g.rounds
    rep.cov["functions analysed"] = len(g.fns)
    if g.budget: rep.notes.append("entry states beyond the step budget (not decided): " + "; ".join("%s %s" % (a, b) for a, b, c in g.budget[:10]))
    return M, g

def text_key(M, ins, entry, kind, msg):
    return "%s|%s|%s|%s" % (entry[0] if entry else "?", ir_base(ins.fn.name), kind, numless(msg))
def ir_base(n):
    import ir
    return ir.base(n)

def und_key(entry, kind, msg):
    """what an obligation the intervals do not settle is about, independent of where in the
    code it sits: entry point, kind and object; plus the numeric range"""
    t = re.sub(r"%[\w.]+ in [\w.]+", "a local object", msg)
    r = re.search(r"(index|byte offset) (-?\d+)\.\.(-?\d+)", t)
    rng = (int(r.group(2)), int(r.group(3))) if r else None
    t = re.sub(r"\b(index|byte offset) .*", r"\1", t)
    t = re.sub(r"\b(read|write) (of|through)", r"access \2", t)
    return "%s %s|%s|%s" % (entry[0] if entry else "?", entry[1].split("/")[0] if entry else "", kind, numless(t)), rng

_res = None
def residue(pid):
    """obligations that the intervals cannot settle on the reviewed tree (relations between
    variables, file contents): {key: [lo, hi] or null}"""
    global _res
    if _res is None:
        _res = json.load(open(RESIDUE)) if os.path.exists(RESIDUE) else {}
    return _res.get(pid, {})
WILD = 1 << 17      # ranges beyond this are artefacts of widening
LOST = 1 << 31      # no range at all: the analysis lost track of an object it already could not track
RESIDUE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "residue.json")

def obligations(rep, M, g, want, label=""):
    """count obligations selected by want(kind, ins, status, msg, tag, entry); report
    violations: bounds that are attained, and bounds that are not proven and are not among
    the reviewed ones"""
    n = ok = und = 0
    kinds = {}
    samples = []
    known = residue(rep.pid)
    for (kind, iid), l in sorted(g.obs.items(), key=str):
        ins = M.ins_of(iid)
        l = [x for x in l if want(kind, ins, x)]
        if not l: continue
        n += 1
        w = max(x[0] for x in l)
        kinds[kind] = kinds.get(kind, 0) + 1
        if w == 0: ok += 1
        elif w == 1: und += 1
        if w == 1 and len(samples) < 12:
            x = [x for x in l if x[0] == 1][0]
            samples.append("%s: %s [%s]" % (M.m.where(ins), x[1], x[2][0] if x[2] else ""))
        for x in l:
            if x[0] == 0: continue
            st, msg, ent, ch, tag, cnt = x
            how = ""
            key = text_key(M, ins, ent, kind, msg)
            if st == 1:
                uk, rng = und_key(ent, kind, msg)
                o = rep.residue.get(uk, 0)
                rep.residue[uk] = rng if o == 0 or rng is None or o is None else (min(o[0], rng[0]), max(o[1], rng[1]))
                if uk in known:
                    k = known[uk]
                    if k is None or rng is None or ((k[0] <= rng[0] or k[0] < -WILD or rng[0] < -LOST) and (rng[1] <= k[1] or k[1] > WILD or rng[1] > LOST)): continue
                how = " (not shown to be safe; the reviewed tree is)"
                key += "|unproven"
            rep.violation(key,
                "%s: %s%s%s; entry point %s, arguments %s; call path %s" % (M.m.where(ins), label, msg, how, ent[0] if ent else "?", ent[1] if ent else "", " > ".join(ir_base(M.ins_of(c).fn.name) for c in ch) or "-"))
    rep.cov[label + "obligations"] = n
    rep.cov[label + "discharged"] = ok
    rep.cov[label + "undecided"] = und
    for k, v in kinds.items(): rep.cov["%sobligations: %s" % (label, k)] = v
    if samples: rep.cov[label + "undecided samples"] = samples
    return n

MEM = ("bound", "null", "abort", "icall")
def mem_check(rep):
    c = G[rep.pid]
    M, g = run_group(rep, c["names"], c["owned"], c["least"])
    n = obligations(rep, M, g, lambda kind, ins, x: kind in MEM and x[4] != "newstr")
    if n < 50: raise Broken("only %d obligations" % n)
    rep.assume += ASSUME

ASSUME = ["an obligation the intervals cannot settle is reported unless checks/residue.json, the list reviewed by hand, names it with a range at least as wide",
  "library calls behave as modelled in engine/libmodel.py (failing or succeeding, file contents arbitrary)",
  "one persistent string, variable and bytecode object stands for all of its kind"]
