"""More properties decided by the abstract interpreter: arithmetic, strings running out,
argument use, stack effects, the memory window."""
import common, groups
from common import Report, Broken, numless
from groups import run_group, obligations, ASSUME, G, text_key, ir_base

def pick(names):
    return names

NUMERIC = "ABS ATAN CEIL COS DEG EXP FLOOR LOG POW RAD RND SIN SGN SQR TAN VAL HEX$ STR$".split()
OPS = "+ - * / % ( ) ! ~ AND OR XOR".split()

def a01(rep):
    c = G["M01"]
    M, g = run_group(rep, c["names"], c["owned"], c["least"])
    n = obligations(rep, M, g, lambda kind, ins, x: kind in ("div", "shift"), "drawing and sprite updates: ")
    r2 = Report(rep.pid, rep.tier); r2.residue = rep.residue
    M, g = run_group(r2, None, [], 120, maxrounds=1, skip={"INPUT", "LINPUT"} | set(c["names"]))
    n += obligations(r2, M, g, lambda kind, ins, x: kind in ("div", "shift"), "")
    merge(rep, r2, "all other entry points: ")
    if n < 8: raise Broken("only %d divisions and shifts found" % n)
    rep.assume += ASSUME

def merge(rep, r2, pre):
    for k, v in r2.cov.items(): rep.cov[pre + k] = v
    for k, t in r2.viol: rep.violation(k, t)
    rep.notes += [pre + n for n in r2.notes]

def a02(rep):
    import entries
    M, g = run_group(rep, None, [], 20, maxrounds=1, only=lambda e: e.kind in ("op", "func") and (e.kind == "op" or e.name in NUMERIC))
    n = obligations(rep, M, g, lambda kind, ins, x: kind in ("fptoi", "trunc"))
    if n < 5: raise Broken("only %d narrowing conversions found" % n)
    rep.assume += ASSUME

def s01(rep):
    M, g = run_group(rep, None, [], 200, maxrounds=1)
    n = obligations(rep, M, g, lambda kind, ins, x: x[4] == "newstr")
    rep.need("calls of get_new_str", sum(1 for f in M.m.funcs.values() for b in f.blocks for i in b.ins if i.op == "call" and i.x == ('g', "get_new_str")), 8)
    rep.assume += ASSUME
