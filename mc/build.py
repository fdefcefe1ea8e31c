"""Builds harness binaries from /repo's working tree. Object files are cached by content hash."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
SRC = REPO + "/src"

INCS = [REPO + "/include"] + [SRC + d for d in ("", "/utils", "/base_alloc", "/coarse", "/ravl", "/critnib",
        "/provider", "/memspaces", "/memtargets", "/uthash", "/ctl", "/pool", "/proxy_lib")] + ["/usr/include/level_zero"]
CDEFS = ['-DUMF_ALL_CMAKE_VARIABLES="verif"', "-DUMF_NO_CUDA_PROVIDER=1", "-DUMF_VERSION=0.0.0",
         "-DUMF_POOL_SCALABLE_ENABLED=1"]
BASE = ["-g", "-fPIC", "-U_FORTIFY_SOURCE", "-w", "-fno-omit-frame-pointer"]
VARIANT = {
    "asan": ["-O1", "-fsanitize=address", "-U__SANITIZE_ADDRESS__"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-inline-small-functions"],
    "plain": ["-O1"],
}
PTHREAD_WRAPS = ["pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_lock", "pthread_mutex_trylock",
                 "pthread_mutex_unlock", "pthread_rwlock_init", "pthread_rwlock_destroy", "pthread_rwlock_rdlock",
                 "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once"]
BA_WRAPS = ["umf_ba_global_alloc", "umf_ba_global_aligned_alloc", "umf_ba_global_free",
            "umf_ba_global_malloc_usable_size", "umf_ba_destroy_global", "umf_ba_global_is_destroyed",
            "umf_ba_create", "umf_ba_alloc", "umf_ba_free", "umf_ba_destroy"]

class BuildError(Exception):
    pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])

def hfile(h, p):
    h.update(p.encode()); h.update(open(p, "rb").read())

def headers_hash():
    h = hashlib.sha256()
    for root in (REPO + "/include", SRC, VERIF + "/mc", VERIF + "/harness"):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc")):
                    hfile(h, os.path.join(d, f))
    return h.hexdigest()

_hh = None
def compile_one(src, flags, cc):
    global _hh
    if _hh is None:
        _hh = headers_hash()
    h = hashlib.sha256()
    h.update((_hh + " ".join(flags) + cc).encode()); hfile(h, src)
    if os.path.basename(src).startswith("px_"):  # includes these
        for p in sorted(glob.glob(SRC + "/proxy_lib/*.c")):
            hfile(h, p)
    obj = f"{BUILD}/obj/{os.path.basename(src)}.{h.hexdigest()[:24]}.o"
    if not os.path.exists(obj):
        tmp = obj + f".{os.getpid()}.tmp"
        sh([cc] + flags + ["-c", src, "-o", tmp])
        if "-fsanitize=thread" in flags:  # let the run time see block copies made by UMF code (only)
            sh(["objcopy", "--redefine-sym", "memcpy=mc_memcpy", "--redefine-sym", "memset=mc_memset", tmp])
        os.rename(tmp, obj)
    return obj

def repo_sources(exclude=()):
    out = []
    for p in sorted(glob.glob(SRC + "/**/*.c", recursive=True)):
        b = os.path.basename(p)
        if "windows" in b or "macosx" in b or "/proxy_lib/" in p:
            continue
        if b in exclude:
            continue
        out.append(p)
    return out

def build(name, harness, variant="asan", ba_wrap=True, wraps=(), exclude=(), only=None, extra_src=(), defs=(), libs=(),
          cflags=(), rdynamic=False, pthread_wraps=True):
    """Returns the path of the built binary."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    os.makedirs(BUILD + "/replays", exist_ok=True)
    global _hh
    if _hh is None:
        _hh = headers_hash()
    cinc = ["-I" + d for d in INCS]
    cfl = BASE + VARIANT[variant] + CDEFS + list(defs) + list(cflags) + cinc
    hv = {"asan": ["-O1", "-fsanitize=address"], "tsan": ["-O1"], "plain": ["-O1"]}[variant]
    hfl = BASE + hv + ["-std=c++17"] + CDEFS + list(defs) + cinc + [f"-I{VERIF}/mc", f"-I{VERIF}/harness"]
    if variant == "tsan":
        hfl.append("-DMC_TSAN=1")
    srcs = repo_sources(exclude) if only is None else [SRC + "/" + o for o in only]
    jobs = [(s, cfl, "gcc") for s in srcs]
    mc = ["engine.cpp", "sched.cpp"] + (["ba_wrap.cpp"] if ba_wrap else [])
    jobs += [(f"{VERIF}/mc/{m}", hfl, "g++") for m in mc]
    hs = [harness] if isinstance(harness, str) else list(harness)
    jobs += [(f"{VERIF}/harness/{h}", hfl, "g++") for h in hs]
    jobs += [(s, (cfl if s.endswith(".c") else hfl), "gcc" if s.endswith(".c") else "g++") for s in extra_src]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    w = list(wraps) + (BA_WRAPS if ba_wrap else []) + (PTHREAD_WRAPS if pthread_wraps else [])
    h = hashlib.sha256(" ".join(objs + w + list(libs)).encode()).hexdigest()[:16]
    out = f"{BUILD}/bin/{name}-{h}"
    if not os.path.exists(out):
        link = ["g++"] + (["-fsanitize=address"] if variant == "asan" else []) + objs
        link += ["-Wl,--wrap=" + x for x in w] + ["-lhwloc", "-lpthread", "-ldl", "-lrt", "-no-pie" if variant != "asan" else "-pie"]
        if rdynamic:
            link.append("-rdynamic")
        link += list(libs)
        sh(link + ["-o", out + ".tmp"])
        os.rename(out + ".tmp", out)
    return out
