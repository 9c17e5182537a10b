"""M06: with memory safety on, the raw memory statements stay inside the memory window.

The argument space is covered by boxes: addresses are cut around both ends of the window
(single values next to the ends, one box for the inside and one for each outside), lengths
into a few ranges and single values, and for each single length also single addresses around
the point where the block ends at the window's end. Every box is analysed."""
import common, groups
from common import Broken
from dom import *
from ghost import Base, locs, run, report, ASSUME2

RAW = {"POKE": (0,), "POKEH": (0,), "POKEB": (0,), "PEEK": (0,), "PEEKH": (0,), "PEEKB": (0,), "ADDR": (1,), "MEMFILL": (0,), "MEMCOPY": (0, 1)}
LO, HI = -(1 << 31), (1 << 31) - 1
FRAC = 4096
WMIN = 0x02000000

class Window(Base):
    def setup(s, M):
        s.safe = M.member("ptc", "memapi.sys_memsafe")
        s.size = M.mem_size()
        s.min, s.max = WMIN, WMIN + s.size - 1
        s.boxes = 0
    def addresses(s, block=None):
        """boxes covering all addresses, single values where they matter"""
        near = set(range(s.min - 2, s.min + 3)) | set(range(s.max - 9, s.max + 3)) | {0, LO, HI}
        if block: near |= set(range(s.max - block - 2, s.max - block + 3))
        out = []; p = LO
        for x in sorted(near):
            if x > p: out.append((p, x - 1))
            out.append((x, x)); p = x + 1
        if p <= HI: out.append((p, HI))
        return out
    def lengths(s):
        return [(LO, -1), (0, FRAC - 1), (FRAC, FRAC), (FRAC + 1, 3 * FRAC - 1), (3 * FRAC, 3 * FRAC), (3 * FRAC + 1, HI - FRAC), (HI - FRAC + 1, HI)]
    def put(s, it, st, args, i, lo, hi, q=True):
        v = C(lo, 32) if lo == hi else I(lo, hi, 32, q, q, frozenset((("arg", i),)))
        if args[i] == 'n': it.wr(st, s.M.ucell[i])[0] = (4, v)
        else: it.wr(st, s.M.ptc)[s.M.o_ent + 16 * i + 8] = (4, v)
    def on_entry(s, it, e, desc, args, st):
        args = desc.split("/")[0]
        it.wr(st, s.M.ptc)[s.safe[0]] = (s.safe[1], C(4096, 8 * s.safe[1]))
        a = [i for i in RAW[e.name] if i < len(args) and args[i] in "Nn"]
        if not a: return [st]
        if e.kind == "command" and len(args) < max(RAW[e.name]) + 1: return [st]
        out = []
        if e.name in ("MEMFILL", "MEMCOPY"):
            k = len(args) - 1
            for lo, hi in s.lengths():
                n = lo // FRAC if lo == hi else None
                for i in a:
                    for x, y in s.addresses(n):
                        # the other address is well inside and does not overlap
                        o = s.min + (s.size >> 1) if (x + y) // 2 < s.min + (s.size >> 2) else s.min + 4096
                        b = st.copy(); q = lo == hi or x == y      # two ranges: the worst combination need not pass the tests
                        s.put(it, b, args, k, lo, hi, q); s.put(it, b, args, i, x, y, q)
                        for j in a:
                            if j != i: s.put(it, b, args, j, o, o)
                        out.append(b)
            if len(a) > 1:
                for lo, hi in s.lengths():
                    b = st.copy(); s.put(it, b, args, k, lo, hi, False)
                    for i in a: s.put(it, b, args, i, LO, HI, False)
                    out.append(b)
        else:
            for x, y in s.addresses():
                b = st.copy(); s.put(it, b, args, a[0], x, y); out.append(b)
        s.boxes += len(out)
        return out
    def on_write(s, it, st, l, size, v):
        if l.r is s.M.membase:
            if it.errkey(st) == 'N': s.ob("order", "viol", "writes memory after an error was raised")
            else: s.ob("order", "ok", None); st.setg("written", 1)
        elif l.r is s.M.ptc and l.off == s.M.o_err and size == 4 and v.__class__ is I and not has(v, 0) and st.ghost("written"):
            s.ob("order", "viol", "raises an error after having written memory")

def m06(rep):
    h = Window(rep)
    M, g = run(rep, h, list(RAW), [], len(RAW), maxrounds=1)
    n = groups.obligations(rep, M, g, lambda kind, ins, x: kind in ("bound", "null") and ("interpreter memory" in (x[1] or "") or "unknown pointer" in (x[1] or "") or x[0] == 0), "")
    if n < 40: raise Broken("only %d obligations" % n)
    report(rep, M, g, ("order",), "order of tests and writes: ")
    rep.assume += ASSUME2
