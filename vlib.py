"""Build and run machinery shared by all checks: compile /repo to LLVM bitcode, run the symbolic executor on a
harness, replay what it finds against natively compiled code."""
import hashlib, json, os, subprocess, sys, time, glob, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VS_REPO", "/repo")
BUILD = os.environ.get("VS_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
LLVM = "/usr/lib/llvm-18/bin/"
def tool(n):
    return LLVM + n if os.path.exists(LLVM + n) else shutil.which(n + "-18") or n
DEFS = ["-DSPVGENTWO_ENABLE_OPERANDVALIDATION=1", "-DSPVGENTWO_LOGGING=1", "-DSPVGENTWO_REPLACE_PLACEMENTNEW=1", "-DSPVGENTWO_REPLACE_TRAITS=1"]
INCS = ["-I", f"{REPO}/lib/include", "-I", f"{REPO}/common/include", "-I", f"{VERIF}/rt", "-I", f"{VERIF}/harness"]
BCFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-fno-vectorize", "-fno-slp-vectorize",
           "-fno-stack-protector", "-gline-tables-only", "-fno-discard-value-names", "-w", "-emit-llvm", "-c"]
OPT = "function(sroa,early-cse,simplifycfg,instsimplify),cgscc(inline),function(sroa,early-cse,simplifycfg,instsimplify),globaldce"

class Inconclusive(Exception):
    pass

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)

def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode()); m.update(b"\0")
    return m.hexdigest()[:20]

def _read(p):
    with open(p, "rb") as f: return f.read()

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(f"{REPO}/lib/include/**/*", recursive=True) + glob.glob(f"{REPO}/common/include/**/*", recursive=True) + glob.glob(f"{VERIF}/rt/*.h") + glob.glob(f"{VERIF}/harness/*.h"))
        _hdr = _h(*[f.encode() + _read(f) for f in fs if os.path.isfile(f)])
    return _hdr

def compile_one(src, flags, ext):
    key = _h(header_hash(), src, _read(src), " ".join(flags), CXX)
    d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"{os.path.basename(src)}.{key}{ext}")
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        cc = [CXX] + flags if not src.endswith(".c") else [CXX.replace("++", "")] + [f for f in flags if not f.startswith("-std") and f not in ("-fno-rtti", "-fno-threadsafe-statics")]
        r = sh(cc + DEFS + INCS + [src, "-o", tmp])
        if r.returncode: raise Inconclusive(f"compilation of {src} failed:\n{r.stdout[-4000:]}")
        os.replace(tmp, out)
    return out

def repo_sources(which=("lib", "common")):
    out = []
    for w in which: out += sorted(glob.glob(f"{REPO}/{w}/source/*.cpp"))
    return out

def build_engine():
    r = sh(["make", "-s", "-j4", "-C", f"{VERIF}/engine", f"OUT={BUILD}"])
    if r.returncode: raise Inconclusive("engine build failed:\n" + r.stdout[-3000:])
    return os.path.join(BUILD, "symex")

def build_bitcode(harness, defs=(), skip=()):
    flags = BCFLAGS
    srcs = [s for s in repo_sources() if os.path.basename(s) not in skip]
    with ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(compile_one, s, flags, ".bc") for s in srcs]
        hf = ex.submit(compile_one, harness, flags + list(defs), ".bc")
        lf = ex.submit(compile_one, f"{VERIF}/rt/libc.c", [f for f in flags] + ["-fno-builtin"], ".bc")
        objs = [f.result() for f in futs]; h = hf.result(); l = lf.result()
    key = _h(*objs, h, l, OPT)
    out = os.path.join(BUILD, "obj", f"{os.path.basename(harness)}.{key}.linked.bc")
    if not os.path.exists(out):
        tmp = f"{out}.{os.getpid()}.tmp"
        r = sh([tool("llvm-link"), h, l] + objs + ["-o", tmp + "1"])
        if r.returncode: raise Inconclusive("llvm-link failed: " + r.stdout[-2000:])
        r = sh([tool("opt"), "-passes=internalize,globaldce," + OPT, "-internalize-public-api-list=harness_main,memcpy,memset,strlen,memcmp", tmp + "1", "-o", tmp])
        if r.returncode: raise Inconclusive("opt failed: " + r.stdout[-2000:])
        os.unlink(tmp + "1"); os.replace(tmp, out)
    return out

SAN = {"asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment,enum,float-cast-overflow,signed-integer-overflow,nonnull-attribute", "-fsanitize-recover=undefined"],
       "msan": ["-fsanitize=memory", "-fsanitize-memory-track-origins=1"], "plain": []}
def build_native(harness, san, defs=(), skip=()):
    base = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-c", "-fno-exceptions", "-fno-rtti"] + SAN[san]
    srcs = [s for s in repo_sources() if os.path.basename(s) not in skip]
    def fl(s): return [("-O0" if f == "-O1" and "Grammar.cpp" in s else f) for f in base]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: compile_one(s, fl(s), f".{san}.o"), srcs))
        h = compile_one(harness, base + list(defs), f".{san}.o")
        n = compile_one(f"{VERIF}/rt/native.cpp", base, f".{san}.o")
    key = _h(*objs, h, n)
    out = os.path.join(BUILD, "obj", f"{os.path.basename(harness)}.{key}.{san}")
    if not os.path.exists(out):
        lib = os.path.join(BUILD, "obj", f"repo.{_h(*objs)}.{san}.a")
        if not os.path.exists(lib):
            t = f"{lib}.{os.getpid()}.tmp"
            r = sh(["ar", "rcs", t] + objs)
            if r.returncode: raise Inconclusive("ar failed " + r.stdout)
            os.replace(t, lib)
        tmp = f"{out}.{os.getpid()}.tmp"
        r = sh([CXX] + SAN[san] + [n, h, lib, "-o", tmp])
        if r.returncode: raise Inconclusive("native link failed:\n" + r.stdout[-3000:])
        os.replace(tmp, out)
    return out

def run_native(exe, inputs, params, obs=None, timeout=60, halt=1):  # halt=0: undefined behaviour without a memory error is reported, but does not end the run
    cmd = [exe, inputs]
    for k, v in params.items(): cmd += ["--param", f"{k}={v}"]
    if obs: cmd += ["--obs", obs]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=1", UBSAN_OPTIONS=f"print_stacktrace=1:halt_on_error={halt}:exitcode=66", MSAN_OPTIONS="exitcode=67")
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", str(e.stdout or "")[-2000:]
