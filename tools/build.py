#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree (instrumented) plus /verif/sim.

Objects are cached under /verif/build by a hash of everything that goes into them, so an unchanged file is not
compiled twice; nothing is ever taken from /repo's own build output."""
import glob, hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
INC = ["-I", f"{REPO}/include", "-I", f"{REPO}/src", "-I", f"{REPO}/athena", "-isystem", "/usr/lib/llvm-19/include"]
BASE = ["-std=c++17", "-O1", "-DNDEBUG", "-w", "-pthread"]
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
REDEF = [x for n in ("malloc", "calloc", "realloc", "aligned_alloc", "posix_memalign") for x in ("--redefine-sym", f"{n}=simrepo_{n}")]
PCH_SRC = """#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/Value.h>
#include <llvm/IR/Function.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
"""

class BuildError(Exception):
    pass

def sh(cmd, ok=True):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode and ok:
        raise BuildError(" ".join(cmd[:3]) + " ... " + cmd[-1] + "\n" + p.stdout[-4000:])
    return p

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def headers(dirs):
    r = []
    for d in dirs:
        for root, _, files in os.walk(d):
            if "/test" in root[len(d):]:
                continue
            r += [os.path.join(root, f) for f in files if f.endswith((".h", ".hpp", ".inc", ".def"))]
    return sorted(r)

def build():
    os.makedirs(OUT, exist_ok=True)
    srcs = sorted(glob.glob(f"{REPO}/src/**/*.cc", recursive=True)) + sorted(glob.glob(f"{REPO}/athena/*.cc"))
    repo_h = headers([f"{REPO}/include", f"{REPO}/src", f"{REPO}/athena"])
    hsum = digest(*[x for p in repo_h for x in (p, read(p))])
    sim_dir = f"{VERIF}/sim"
    ssum = digest(*[x for p in headers([sim_dir]) for x in (p, read(p))])
    tool = digest(read(os.path.abspath(__file__)))
    pch_key = digest("pch", PCH_SRC, BASE, COV, tool)
    pch = f"{OUT}/pch-{pch_key}.pch"
    if not os.path.exists(pch):
        with open(f"{OUT}/pch.h", "w") as f:
            f.write(PCH_SRC)
        tmp = pch + f".{os.getpid()}"
        if sh([CXX, *BASE, *COV, *INC, "-x", "c++-header", "-fpch-instantiate-templates", f"{OUT}/pch.h", "-o", tmp], ok=False).returncode == 0:
            os.rename(tmp, pch)
        else:
            pch = None
    jobs = []   # (object, function)
    objs, objs_b = [], []
    def repo_obj(src):
        o = f"{OUT}/r-{digest(src, read(src), hsum, BASE, COV, tool)}.o"
        def run():
            tmp = f"{o}.{os.getpid()}"
            cmd = [CXX, *BASE, *COV, *INC, "-c", src, "-o", tmp]
            if not pch or sh([*cmd, "-include-pch", pch], ok=False).returncode:
                sh(cmd)
            sh(["objcopy", *REDEF, tmp])
            os.rename(tmp, o)
        return o, run
    def sim_obj(src, extra):
        o = f"{OUT}/s-{digest(src, read(src), ssum, hsum, BASE, extra, tool)}.o"
        def run():
            tmp = f"{o}.{os.getpid()}"
            sh([CXX, *BASE, *extra, *INC, "-c", src, "-o", tmp])
            os.rename(tmp, o)
        return o, run
    sim_src = sorted(glob.glob(f"{sim_dir}/*.cc"))
    for s in sim_src:
        if s.endswith("/rt.cc"):
            o, r = sim_obj(s, ["-fno-builtin-malloc", "-fno-builtin"]); objs.append(o); jobs.append((o, r, os.path.getsize(s)))
            o, r = sim_obj(s, ["-fno-builtin-malloc", "-fno-builtin", "-DSIM_B"]); objs_b.append(o); jobs.append((o, r, os.path.getsize(s)))
        else:
            o, r = sim_obj(s, []); objs.append(o); objs_b.append(o); jobs.append((o, r, 10 * os.path.getsize(s)))
    for s in srcs:
        o, r = repo_obj(s); objs.append(o); objs_b.append(o); jobs.append((o, r, os.path.getsize(s) * (4 if "/function/" in s else 1)))
    todo = [(o, r) for o, r, _ in sorted(jobs, key=lambda j: -j[2]) if not os.path.exists(o)]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(lambda j: j[1](), todo))
    key = digest(*objs, *objs_b, tool)
    exe, exe_b = f"{OUT}/sim-{key}", f"{OUT}/simB-{key}"
    link = ["-no-pie", "-rdynamic", "-pthread", "-L/usr/lib/llvm-19/lib", "-Wl,-rpath,/usr/lib/llvm-19/lib", "-lLLVM-19", "-ldl"]
    def ln(out, o, extra):
        if not os.path.exists(out):
            sh([CXX, *o, "-o", out + ".tmp", *extra, *link])
            os.rename(out + ".tmp", out)
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda a: ln(*a), [(exe, objs, []), (exe_b, objs_b, ["-Wl,-Ttext-segment=0x20000000"])]))
    # keep the cache small
    keep = set(objs + objs_b + [exe, exe_b, pch, f"{OUT}/pch.h"])
    if os.environ.get("SIM_KEEP") is None:
        old = [f for f in glob.glob(f"{OUT}/*") if os.path.isfile(f) and f not in keep]
        old.sort(key=os.path.getmtime)
        for f in old[:max(0, len(old) - 150)]:
            try: os.remove(f)
            except OSError: pass
    return exe, exe_b

if __name__ == "__main__":
    import time
    t = time.time()
    try:
        print(*build())
    except BuildError as e:
        print("BUILD FAILED:", e, file=sys.stderr)
        sys.exit(2)
    print(f"built in {time.time()-t:.1f} s", file=sys.stderr)
