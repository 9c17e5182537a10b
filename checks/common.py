"""Shared parts of the checks: building the IR, reporting, known findings, evidence."""
import os, sys, re, json, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "engine")); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import ir, build

class Broken(Exception):
    """the analysis lost what it is anchored to: neither a pass nor a violation"""

KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS")

def known(pid):
    """{key: text} of findings recorded for a property"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3)
    return out

def numless(s):
    return re.sub(r"-?\d[\d.]*(e[+-]?\d+)?", "#", s)

class Report:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier
        s.viol = []       # (key, text)
        s.cov = {}
        s.assume = []
        s.notes = []
        s.residue = {}    # obligations neither proven nor refuted
    def violation(s, key, text):
        """key identifies the failing site independent of line numbers"""
        key = re.sub(r"\s+", " ", key).replace(" :: ", " ")
        if not any(k == key for k, _ in s.viol): s.viol.append((key, text))
    def need(s, name, n, least):
        """instance counts below what was confirmed by hand mean the rule lost its anchor"""
        s.cov[name] = n
        if n < least: raise Broken("%s: %d instances found, at least %d expected" % (name, n, least))

def finish(rep, t0, level="other", explanation=""):
    kn = known(rep.pid)
    if os.environ.get("SBC_RESIDUE_OUT"):      # only tools/mkresidue.py sets this
        json.dump({k: v for k, v in sorted(rep.residue.items())}, open(os.environ["SBC_RESIDUE_OUT"], "w"))
    new = []
    for k, t in rep.viol:
        if k in kn: print("KNOWN-FINDING: property=%s %s [%s]" % (rep.pid, kn[k], k))
        else: new.append((k, t))
    cov = dict(rep.cov)
    cov["explanation"] = explanation
    cov["known_findings_seen"] = sum(1 for k, _ in rep.viol if k in kn)
    if rep.notes: cov["notes"] = rep.notes
    ev = dict(property=rep.pid, tier=rep.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=level,
              coverage=cov, assumptions=rep.assume, wall_s=round(time.time() - t0, 2), violations=len(new))
    d = os.path.join(ROOT, "evidence"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if new:
        o = os.path.join(ROOT, "out"); os.makedirs(o, exist_ok=True)
        p = os.path.join(o, "%s.txt" % rep.pid)
        with open(p, "w") as f:
            for k, t in new: f.write("%s\n    key: %s\n" % (t, k))
        for k, t in new[:40]: print(t); print("    key:", k)
        print("VIOLATION property=%s replay=%s" % (rep.pid, p))
        return 1
    print("property %s holds on everything analysed: %s" % (rep.pid, ", ".join("%s=%s" % (k, v) for k, v in rep.cov.items() if isinstance(v, int))))
    return 0

_mod = None
def module():
    global _mod
    if _mod is None:
        text, units = build.build_ir()
        _mod = ir.Module(text); _mod.units = units; _mod.text = text
    return _mod

def machine():
    import machine as mc
    m = mc.Machine.__new__(mc.Machine)
    m.m = module()
    m.tables(); m.layout()
    m.init()
    return m
