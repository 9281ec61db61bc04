#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's working tree and /verif/sim.

Objects are cached by the hash of everything that goes into them (preprocessed
source included), under /verif/.build, so an unchanged tree costs nothing.
"""
import concurrent.futures, glob, hashlib, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, ".build")
CXX = "clang++-18"
BORING = "/usr/lib/x86_64-linux-gnu/android"
COMMON = ["-std=c++17", "-g1", "-O1", "-fno-omit-frame-pointer", "-I" + os.path.join(VERIF, "sim"),
          "-I" + REPO, "-isystem", "/usr/include/android", "-Wall", "-Wno-sign-compare", "-Wno-unused-variable",
          "-Wno-deprecated-declarations", "-Wno-implicit-const-int-float-conversion"]
ABSL = ["absl_hash", "absl_city", "absl_low_level_hash", "absl_raw_hash_set", "absl_hashtablez_sampler",
        "absl_strings", "absl_strings_internal", "absl_time", "absl_time_zone", "absl_int128", "absl_base",
        "absl_synchronization", "absl_raw_logging_internal", "absl_throw_delegate", "absl_spinlock_wait",
        "absl_bad_optional_access", "absl_bad_variant_access", "absl_civil_time"]

# libc calls of instrumented code go to wrappers that report what they touch
RENAME = ["memcmp", "bcmp", "memchr", "strlen", "memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "snprintf", "sprintf",
          "malloc", "free", "calloc", "realloc", "strdup", "strtok", "gmtime", "localtime", "ctime", "asctime", "rand"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"]

TARGETS = {
    "sim_deploy": {
        "sim": ["core.cc", "main.cc", "seams.cc", "keys.cc", "gen_deploy.cc", "world_deploy.cc"],
        "flags": SAN, "repo_flags": [], "worlds": "&kDeploy", "repo": "src/*.cc",
    },
    "sim_cache": {
        "sim": ["core.cc", "main.cc", "seams.cc", "world_cache.cc"],
        "flags": SAN, "repo_flags": [], "worlds": "&kCache", "repo": None,  # headers only
    },
    "sim_sched": {
        "sim": ["core.cc", "main.cc", "seams.cc", "keys.cc", "simsched.cc", "world_threads.cc"],
        "flags": ["-DSIM_SCHED"],
        "repo_flags": ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fno-builtin-malloc",
                       "-isystem", os.path.join(VERIF, "sim", "inc")],
        "instrumented": ["threads_body.cc"],
        "worlds": "&kThreads", "repo": "src/*.cc",
    },
}


def fixtures():
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(VERIF, "sim", "fixtures")
    lines = []
    for f in sorted(os.listdir(d)):
        t = open(os.path.join(d, f)).read()
        lines.append('{"%s", R"FIX(%s)FIX"},\n' % (f, t))
    text = "".join(lines)
    p = os.path.join(OUT, "fixtures.inc")
    if not os.path.exists(p) or open(p).read() != text:
        tmp = p + ".%d" % os.getpid()
        open(tmp, "w").write(text)
        os.replace(tmp, p)


def compile_one(src, flags, rename=False):
    """-> (object path, error text)"""
    cmd = [CXX] + COMMON + ["-I" + OUT] + flags
    pp = subprocess.run(cmd + ["-E", src], capture_output=True)
    if pp.returncode:
        return None, pp.stderr.decode(errors="replace")
    h = hashlib.sha256(pp.stdout + "\0".join(cmd + [src] + (RENAME if rename else [])).encode()).hexdigest()[:24]
    obj = os.path.join(OUT, "o_%s_%s.o" % (os.path.basename(src).replace(".", "_"), h))
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True)
        if r.returncode:
            return None, r.stderr.decode(errors="replace")
        if rename:
            r2 = subprocess.run(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (f, f) for f in RENAME] + [tmp], capture_output=True)
            if r2.returncode:
                return None, r2.stderr.decode(errors="replace")
        os.replace(tmp, obj)
        if r.stderr and os.environ.get("SIM_WARN"):
            sys.stderr.write(r.stderr.decode(errors="replace"))
    return obj, None


def build(name):
    """Builds one binary; returns its path. Raises RuntimeError with the compiler's output."""
    t = TARGETS[name]
    fixtures()
    jobs = []
    # instrumented objects first: of functions defined inline in several places the linker takes the first
    for s in t.get("instrumented", []):
        jobs.append((os.path.join(VERIF, "sim", s), t["flags"] + t["repo_flags"], True))
    for s in sorted(glob.glob(os.path.join(REPO, t["repo"]))) if t["repo"] else []:
        jobs.append((s, t["flags"] + t["repo_flags"], "instrumented" in t))
    for s in t["sim"]:
        jobs.append((os.path.join(VERIF, "sim", s), t["flags"] + ["-DSIM_WORLDS=" + t["worlds"]], False))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count()) as ex:
        res = list(ex.map(lambda j: compile_one(*j), jobs))
    errs = [e for _, e in res if e]
    if errs:
        raise RuntimeError("\n".join(errs))
    objs = [o for o, _ in res]
    libs = ["-L" + BORING, "-Wl,-rpath," + BORING, os.path.join(BORING, "libcrypto.so"), "-lprotobuf"]
    for a in ABSL:
        if glob.glob("/usr/lib/x86_64-linux-gnu/lib%s.so*" % a):
            libs.append("-l" + a)
    libs += ["-ldl", "-lpthread"]
    lflags = [f for f in t["flags"] if f.startswith("-f")]
    dyn = os.path.join(VERIF, "sim", "dynamic.list")
    lflags += ["-Wl,--dynamic-list=" + dyn, "-pie"]
    link = [CXX] + lflags + ["-o"]
    h = hashlib.sha256(("\0".join(objs + libs + link) + open(dyn).read()).encode()).hexdigest()[:24]
    out = os.path.join(OUT, "%s_%s" % (name, h))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(link + [tmp] + objs + libs, capture_output=True)
        if r.returncode:
            raise RuntimeError(r.stderr.decode(errors="replace"))
        os.replace(tmp, out)
    return out


def prune(keep_days=2):
    now = time.time()
    for f in glob.glob(os.path.join(OUT, "*")):
        try:
            if now - os.path.getmtime(f) > keep_days * 86400:
                os.unlink(f)
        except OSError:
            pass


if __name__ == "__main__":
    for n in sys.argv[1:] or [t for t in TARGETS if os.path.exists(os.path.join(VERIF, "sim", TARGETS[t]["sim"][-1]))]:
        t0 = time.time()
        try:
            print(n, build(n), "%.1fs" % (time.time() - t0))
        except RuntimeError as e:
            sys.stderr.write(str(e))
            sys.exit(2)
