#!/usr/bin/env python3
"""Build the simulator with the code under test taken from /repo's working tree.
Objects are cached by content (source + every header the compiler read + flags)."""
import os, re, subprocess, hashlib, sys, json, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("QM_REPO", "/repo")
BUILD = os.environ.get("QM_BUILD", os.path.join(VERIF, ".build"))

WRAP = """malloc free calloc realloc posix_memalign aligned_alloc
pthread_create pthread_join pthread_detach pthread_self pthread_exit
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_once pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
sem_init sem_destroy sem_wait sem_trywait sem_timedwait sem_post sem_getvalue
sched_yield nanosleep usleep sleep clock_nanosleep gettimeofday clock_gettime time clock
rand srand random srandom rand_r drand48 lrand48 srand48 exit _exit abort
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit""".split()

INC = ["-I.", "-Iext/kissfft", "-Iext/kissfft/tools", "-Dkiss_fft_scalar=double"]
COMMON = ["-O2", "-g1", "-DNDEBUG", "-DUSE_PTHREADS", "-msse2", "-mfpmath=sse", "-fno-pie", "-w", "-fno-omit-frame-pointer", "-fno-builtin", "-DQM_VERIF"]   # -fno-builtin: the compiler may otherwise remove a heap block that is written and never read, and with it the leak of that block
TSAN = ["-fsanitize=thread"]
EDGE = ["-fsanitize-coverage=trace-pc-guard"]   # code under test: counts control-flow edges, so work that touches no memory is seen too
CINC = ["-DNO_BLAS_WRAP", "-DADD_", "-Iext/clapack/include", "-Iext/cblas/include"]
COV = ["-fprofile-instr-generate", "-fcoverage-mapping"] if os.environ.get("QM_COV") else []   # development only: coverage of the code under test
# worlds that compile header-only code under test: instrumented
INSTR = ["w_thread.cpp", "hdr.cpp"]
PLAIN = ["rt.cpp", "main.cpp"]

def sut_sources():
    t = open(os.path.join(REPO, "build/general/Makefile.inc")).read().replace("\\\n", " ")
    out = []
    for var in ("SOURCES", "CLAPACK_SRC", "CBLAS_SRC"):
        m = re.search(r"^%s\s*:?=(.*)$" % var, t, re.M)
        if m:
            out += [x for x in m.group(1).split() if x.endswith((".c", ".cpp"))]
    seen = []
    for s in out:
        if s not in seen:
            seen.append(s)
    return seen

def sha(b):
    return hashlib.sha256(b).hexdigest()

_filehash = {}
def fhash(p):
    if p not in _filehash:
        try:
            _filehash[p] = sha(open(p, "rb").read())
        except OSError:
            _filehash[p] = "missing"
    return _filehash[p]

def compile_one(job):
    src, cmds, cwd = job  # cmds: list of alternatives
    err = ""
    for cmd in cmds:
        key = sha((src + "\0" + "\0".join(cmd)).encode())[:24]
        man = os.path.join(BUILD, "obj", key + ".json")
        obj = os.path.join(BUILD, "obj", key + ".o")
        if os.path.exists(man) and os.path.exists(obj):
            try:
                deps = json.load(open(man))
                if all(fhash(d) == h for d, h in deps.items()):
                    return obj, None
            except ValueError:
                pass
        dfile = obj + ".d"
        r = subprocess.run(cmd + ["-MD", "-MF", dfile, "-c", src, "-o", obj + ".tmp"], cwd=cwd, capture_output=True, text=True)
        if r.returncode != 0:
            err = r.stderr[-3000:]
            continue
        os.replace(obj + ".tmp", obj)
        deps = open(dfile).read().replace("\\\n", " ").split(":", 1)[1].split()
        deps = [d if d.startswith("/") else os.path.join(cwd, d) for d in deps]
        deps = {d: fhash(d) for d in deps if not d.startswith("/usr/")}
        json.dump(deps, open(man + ".tmp", "w"))
        os.replace(man + ".tmp", man)
        os.remove(dfile)
        return obj, None
    return None, "%s: %s" % (src, err)

def build(verbose=False):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(verbose)

def _build(verbose):
    jobs, sut = [], sut_sources()
    tsan_g = ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"]
    for s in sut:
        src = os.path.join(REPO, s)
        if s.endswith(".cpp"):
            alts = [["clang++"] + COMMON + TSAN + EDGE + COV + ["-std=c++98"] + INC, ["clang++"] + COMMON + TSAN + EDGE + ["-std=gnu++17"] + INC, ["g++"] + COMMON + tsan_g + ["-fsanitize-coverage=trace-pc", "-std=c++98"] + INC]
        else:
            alts = [["clang"] + COMMON + TSAN + EDGE + COV + INC + CINC, ["gcc"] + COMMON + tsan_g + ["-fsanitize-coverage=trace-pc"] + INC + CINC]
        jobs.append((src, alts, REPO))
    simdir = os.path.join(VERIF, "sim")
    hs = ["-I" + simdir] + [x.replace("-I", "-I" + REPO + "/").replace("/.", "/") if x.startswith("-I") else x for x in INC + CINC]
    harness = sorted(f for f in os.listdir(simdir) if f.endswith(".cpp"))
    nsut = len(jobs)
    for f in harness:
        plain = f in PLAIN
        fl = ["-O2", "-g1", "-std=gnu++17", "-w", "-fno-pie", "-msse2", "-mfpmath=sse", "-DUSE_PTHREADS"] + hs
        if plain:
            alts = [["clang++"] + fl, ["g++"] + fl]
        elif f in INSTR:
            alts = [["clang++"] + TSAN + COV + ["-fno-omit-frame-pointer"] + fl]
        else:
            alts = [["clang++"] + fl]
        jobs.append((os.path.join(simdir, f), alts, simdir))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        res = list(ex.map(compile_one, jobs))
    bad = [e for o, e in res if e]
    if bad:
        sys.stderr.write("build failed:\n" + "\n".join(bad) + "\n")
        return None
    objs = [o for o, e in res]
    # order: code under test, instrumented harness units, then the rest (first COMDAT wins)
    instr = [objs[nsut + i] for i, f in enumerate(harness) if f in INSTR]
    rest = [objs[nsut + i] for i, f in enumerate(harness) if f not in INSTR]
    order = objs[:nsut] + instr + rest
    key = sha("\0".join(fhash(o) for o in order).encode())[:24]
    exe = os.path.join(BUILD, "sim-" + key)
    if not os.path.exists(exe):
        cmd = ["clang++", "-static", "-no-pie", "-o", exe + ".tmp"] + COV + order + ["-Wl,--wrap=" + w for w in WRAP] + ["-lm", "-lpthread"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write("link failed:\n" + r.stderr[-4000:] + "\n")
            return None
        os.replace(exe + ".tmp", exe)
        # keep the cache small
        olds = sorted((f for f in os.listdir(BUILD) if f.startswith("sim-")), key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
        for f in olds[:-6]:
            os.remove(os.path.join(BUILD, f))
    return exe

if __name__ == "__main__":
    e = build(True)
    if not e:
        sys.exit(2)
    print(e)
