"""Compile /repo's current C sources to one LLVM-IR module (clang -O0 + mem2reg only).

Nothing is executed: the IR text is what the analyses read.  The unit list is the
one the project's own build uses (all .c files of the same directories)."""
import os, subprocess, tempfile, shutil, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SBC_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
DIRS = ["source", "source/graphics/pc", "source/graphics", "source/interpreter",
        "source/subsystem", "source/extension"]
INC = ["source", "source/graphics/pc", "source/graphics", "source/interpreter",
       "source/subsystem", "source/extension"]

class BuildError(Exception):
    pass

def units(repo=None):
    repo = repo or REPO
    out = []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(repo, d, "*.c"))):
            b = os.path.basename(f)
            if b == "opengl_test.c":
                continue
            out.append(os.path.relpath(f, repo))
    return out

def _run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + r.stderr[-3000:])
    return r.stdout

def build_ir(repo=None):
    """returns (ir_text, [unit files])"""
    repo = repo or REPO
    us = units(repo)
    tmp = tempfile.mkdtemp(prefix="sbcir.")
    try:
        def one(u):
            o = os.path.join(tmp, u.replace("/", "_")[:-2] + ".bc")
            _run([LLVM + "clang", "-std=c11", "-DPC", "-g", "-O0", "-Xclang", "-disable-O0-optnone",
                  "-fno-discard-value-names", "-fno-inline", "-w", "-emit-llvm", "-c"]
                 + ["-I" + os.path.join(repo, i) for i in INC] + [os.path.join(repo, u), "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(one, us))
        linked = os.path.join(tmp, "all.bc")
        _run([LLVM + "llvm-link"] + bcs + ["-o", linked])
        out = os.path.join(tmp, "all.ll")
        _run([LLVM + "opt", "-S", "-passes=mem2reg,early-cse", linked, "-o", out])
        with open(out, encoding="latin-1") as f:
            text = f.read()
        return text, us
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    if "--selftest" in sys.argv:
        t, u = build_ir()
        print("tools available; %d units, %d lines of IR" % (len(u), t.count("\n")))
        sys.exit(0)
    t, u = build_ir()
    sys.stderr.write("%d units, %d lines of IR\n" % (len(u), t.count("\n")))
    if len(sys.argv) > 1:
        open(sys.argv[1], "w", encoding="latin-1").write(t)
