"""Entry points of the interpreter and their accepted argument forms."""
import sys, os, time, itertools
import ir, absint
from absint import State, Region, norm, Budget
from dom import *
from machine import Machine, Anchor

CUSTOM = {
    "PRINT": ["", "N", "S", "NoN", "SpS", "No", "Np", "oS", "NN"],
    "VISIBLE": ["NNNNNN", "oooooo", "NoNoNo", "NNNNNS", "N", "No"],
    "FOR": [""], "TO": ["N"], "STEP": ["NN"], "THEN": [""], "ELSE": [""], "[ENDIF]": [""],
    "GOTO": ["L", "l", "NL", "Nll", "NlL"], "GOSUB": ["L", "l", "NL", "Nll"],
}
SKIP_CMD = {"DIM", "DATA"}

GROUPS = {}

def forms(fmt):
    """argument kind strings a format admits (repeats cut at two)"""
    out = []
    for alt in fmt.split(","):
        if alt == "": continue
        if alt == "0": out.append(""); continue
        if "*" in alt: continue
        base = alt
        opts = [""]
        for ch in base:
            if ch == "v": opts = [o + x for o in opts for x in (("",) if o else ()) + ("n", "s", "ns", "ss")]
            elif ch == "l": opts = [o + x for o in opts for x in ("L", "LL")]
            elif ch == "a": opts = [o + x for o in opts for x in ("", "A", "AA")]
            elif ch == ";": opts = [o + "p" for o in opts]
            elif base.endswith("s") and base[-2:] == ";s" and ch == "s": opts = [o + "s" for o in opts]
            else: opts = [o + ch for o in opts]
        for o in opts:
            if o not in out: out.append(o)
    return out

LENS = (0, 1, 2, 17, 127, 255, 256)

class Entry:
    __slots__ = ("id", "kind", "name", "fn", "idx", "forms", "group", "thread")
    def __init__(s, id, kind, name, fn, idx, forms):
        s.id, s.kind, s.name, s.fn, s.idx, s.forms = id, kind, name, fn, idx, forms
        s.group = None; s.thread = "program"
    def __repr__(s): return s.id

def enumerate_entries(M):
    out = []
    for i, n in enumerate(M.cmd_names):
        if i >= len(M.commands) or n in SKIP_CMD or M.commands[i] is None: continue
        fmt = M.cmd_format[i] if i < len(M.cmd_format) else ""
        fs = CUSTOM.get(n) or forms(fmt or "")
        if n in CUSTOM and fmt and "*" not in fmt: fs = list(dict.fromkeys(fs + forms(fmt)))
        out.append(Entry("command " + n, "cmd", n, M.commands[i], i, fs))
    for i, n in enumerate(M.func_names):
        if i >= len(M.functions) or M.functions[i] is None: continue
        out.append(Entry("function " + n, "func", n, M.functions[i], i, forms(M.func_format[i] or "")))
    for i, n in enumerate(M.op_names):
        if i >= len(M.operators) or M.operators[i] is None: continue
        fmt = M.op_format[i] or ""
        fs = [""] if "*" in fmt else forms(fmt)
        out.append(Entry("operator " + n, "op", n, M.operators[i], i, fs))
    for i, n in enumerate(M.sys_names):
        if i < len(M.sysvars) and M.sysvars[i]:
            out.append(Entry("variable " + n, "sys", n, M.sysvars[i], i, [""]))
        if i < len(M.sysvalid) and M.sysvalid[i]:
            out.append(Entry("assignment check " + n, "sysv", n, M.sysvalid[i], i, [""]))
    W = [("window set_input", "set_input"), ("window set_inkey", "set_inkey"), ("window set_touch", "set_touch"),
         ("window press_key", "press_key"), ("window step_sprites", "step_sprites"), ("window step_background", "step_background"),
         ("window inc_time", "inc_time")]
    for id, f in W:
        e = Entry(id, "win", f, f, 0, [""]); e.thread = "window"
        if f in M.m.funcs: out.append(e)
    return out

def _few_input(form):
    """prompts and targets do not interact: vary the prompt with one number variable only"""
    k = sum(1 for c in form if c in "sSLl")
    if form == "Spn": return [((l,), "s") for l in (0, 1, 17, 256)] + [((1,), "w"), ((1,), "S")]
    return [((1,) * k or None, "s")]
def _few_print(form):
    k = sum(1 for c in form if c in "sSLl")
    if form == "S": return [((l,), "s") for l in LENS] + [((l,), "w") for l in (0, 1, 256)] + [((l,), "S") for l in (0, 127)]
    return [((40,) * k or None, "s")]
def _few_one(form):
    k = sum(1 for c in form if c in "sSLl")
    return [((1,) * k or None, "s")]
FEW = {"INPUT": _few_input, "PRINT": _few_print, "READ": _few_one, "LINPUT": _few_input}

# lengths at which a statement does its work (resource types, colours, images, clock strings)
MORE = {"CHRINIT": [(3,), (4,), (5,)], "CHRREAD": [(3, 0), (5, 256)], "CHRSET": [(3, 64), (4, 64), (5, 64)],
    "COLINIT": [(2,), (3,)], "COLREAD": [(2,), (3,)], "COLSET": [(2, 6), (3, 6)], "GPUTCHR": [(3,), (4,), (5,)],
    "PNLTYPE": [(3,)], "DTREAD": [(10,)], "TMREAD": [(8,)], "BGPUT": [(4,)], "BGFILL": [(4,)], "KEY": [(4,), (5,)],
    "LOAD": [(5,), (8,), (12,), (14,)], "SAVE": [(5,), (8,), (12,), (14,)], "APPEND": [(5,), (8,), (12,), (14,)], "EXEC": [(5,), (8,), (12,)],
    "ADDR": [(5,), (16,)], "VAL": [(3,)], "RESTORE": [(16,)]}

def variants(M, e, base=0):
    """initial states for one entry: list of (description, fn args or None, State)"""
    it = M.it
    if e.kind == "win":
        pt = PT((Loc(M.ptc, 0),))
        def sub(n): return PT((Loc(M.ptc, M.member("ptc", n)[0]),))
        f = M.fn(e.fn)
        def arg(name, lo, hi, w): return I(lo, hi, w, True, True, frozenset((("win", name),)))
        st = State()
        d = it.wr(st, M.ptc)
        a = {"set_input": lambda: [pt, arg("b", 0, 4095, 32)],
             "set_inkey": lambda: [sub("input"), arg("k", 0, 0x1ff, 16)],
             "set_touch": lambda: [sub("input"), arg("t", 0, 1, 1), arg("x", 0, 255, 32), arg("y", 0, 191, 32)],
             "press_key": lambda: [pt, arg("t", 0, 1, 1), arg("x", 0, 255, 32), arg("y", 0, 191, 32)],
             "step_sprites": lambda: [sub("sprites")], "step_background": lambda: [sub("background")],
             "inc_time": lambda: [sub("time")]}[e.fn]()
        a = a[:len(f.args)]
        # match integer widths
        fixed = []
        for v, t in zip(a, f.argt):
            if v.__class__ is I and t[0] == 'i' and v.w != t[1]: v = I(v.lo, v.hi, t[1], v.ql, v.qh, v.org)
            fixed.append(v)
        yield ("", fixed, st); return
    for form in e.forms:
        n = len(form)
        ns = sum(1 for c in form if c in "sSLl")
        out_only = ns and not any(c in "SLl" for c in form)
        combos = [(None, 's')]
        if ns:
            combos = []
            ls = LENS
            if out_only: combos += [((l,) * ns, 's') for l in (0, 256)]
            elif ns == 1: combos += [((l,), 's') for l in ls]
            elif ns == 2: combos += [((a, b), 's') for a, b in ((0, 0), (1, 1), (255, 1), (1, 256), (256, 256))] 
            else: combos += [((l,) * ns, 's') for l in (0, 1, 256)]
            if out_only: wl = ()
            else: wl = (0, 1, 256) if ns == 1 else (1,)
            combos += [((l,) * ns, 'w') for l in wl]
            combos += [] if out_only else [((l,) * ns, 'S') for l in ((0, 1, 127) if ns == 1 else (1,))]
        if e.name in FEW: combos = [c for c in FEW[e.name](form) ]
        if ns and not out_only and "l" not in form: combos += [((None,) * ns, 's')]
        for x in MORE.get(e.name, ()):
            if len(x) == ns: combos += [(x, 's'), (x, 'S')] + ([(x, 'w')] if ns == 1 else [])
        # the translator rejects label literals of more than 16 characters
        if "l" in form: combos = [(tuple(x if x is None else min(x, 16) for x in c[0]) if c[0] else c[0], c[1]) for c in combos]
        for lens, styp in dict.fromkeys(combos):
            st = M.entry_state(list(form), base, n, lens, styp)
            desc = form + ("/%s%s" % (styp, ",".join(map(str, lens))) if lens else "")
            if e.kind == "sysv":
                # the assigned value is already stored in the variable's own cell
                h = M.sysvars[e.idx]
                rec, it.rec = it.rec, 0
                fills = [("", None)]
                for v, o in it.call_fn(M.fn(h), [PT((Loc(M.ptc, 0),))], st.copy()):
                    d = o.mem.get(M.ptc, {})
                    c = d.get(M.o_ent + 16 * base + 8); t = d.get(M.o_ent + 16 * base)
                    if c and c[1].__class__ is PT and len(c[1].t) == 1 and not c[1].t[0].ds:
                        l = c[1].t[0]
                        if t and t[1].__class__ is I and t[1].const and t[1].lo & 2:
                            fills = [("%s%d" % (k, n), (l, n, k)) for k in "sSw" for n in (0, 1, 127 if k == "S" else 256)]
                        else: fills = [("", (l, None, None))]
                it.rec = rec
                for fd, fill in fills:
                    s2 = st.copy()
                    if fill:
                        l, n, k = fill
                        if k is None: it.store_loc(s2, l, 4, M.num(0), False)
                        else: it.store_loc(s2, l, 8, M.set_str(s2, 0, k, n), False)
                    yield (desc + fd, None, s2)
                continue
            yield (desc, None, st)

def run_entry(M, e, deep=False):
    it = M.it
    outs = []
    f = M.fn(e.fn)
    for desc, args, st in variants(M, e):
        it.entry = (e.id, desc)
        if args is None: args = [PT((Loc(M.ptc, 0),))]
        it.steps = 0
        try:
            outs += [(desc, v, o) for v, o in it.call_fn(f, args, st)]
        except Budget as x:
            it.budget = getattr(it, "budget", []) + [(e.id, desc, str(x))]
    return outs
