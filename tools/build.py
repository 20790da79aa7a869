#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree.

  build.py plain|race  ->  prints the path of the simctl binary

Objects are cached in /verif/build, keyed by a hash of the preprocessed source,
the compiler version and the flags, so that any change in /repo is seen.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
LIB = os.path.join(REPO, "distributed_vector_ole")
CXX = "/usr/bin/g++"
LIBDIR = "/usr/lib/x86_64-linux-gnu"

BASE = ["-std=c++17", "-O2", "-g1", "-fopenmp", "-fno-omit-frame-pointer", "-Wno-ignored-attributes",
        "-I" + SIM, "-I" + os.path.join(SIM, "include"), "-I" + REPO,
        "-I/usr/include/eigen3", "-isystem", "/usr/include/android",
        "-ffile-prefix-map=" + REPO + "=."]
GUARD = ["-DDVO_SIM"]
REDIRECT = [("memcpy", "__race_memcpy"), ("memset", "__race_memset"), ("memmove", "__race_memmove"), ("memcmp", "__race_memcmp"),
            ("free", "__race_free"), ("_ZdlPv", "__race_delete"), ("_ZdaPv", "__race_delete_v"), ("_ZdlPvm", "__race_delete_n"),
            ("_ZdaPvm", "__race_delete_vn"), ("_ZdlPvSt11align_val_t", "__race_delete_a")]


class BuildError(Exception):
    pass


def lib_sources():
    out = []
    for d in (LIB, os.path.join(LIB, "internal")):
        for f in sorted(glob.glob(os.path.join(d, "*.cpp")) + glob.glob(os.path.join(d, "*.cc"))):
            b = os.path.basename(f)
            stem = b.rsplit(".", 1)[0]
            if stem.endswith("_test") or stem.endswith("_benchmark") or stem.endswith("_main"):
                continue
            out.append(f)
    return out


def units(mode):
    """(source, flags, instrumented) triples."""
    core = [os.path.join(SIM, "core", f) for f in ("sched.cpp", "alloc.cpp", "net.cpp", "omp.cpp", "threads.cpp")]
    core.append(os.path.join(SIM, "core", "hb_race.cpp" if mode == "race" else "hb_none.cpp"))
    drv = sorted(glob.glob(os.path.join(SIM, "work", "*.cpp")))
    us = []
    inst = ["-fsanitize=thread", "--param=tsan-distinguish-volatile=0"] if mode == "race" else []
    defs = ["-DSIM_RACE"] if mode == "race" else []
    for f in core:
        us.append((f, defs))
    for f in drv:
        b = os.path.basename(f)
        if mode == "race" and (b.startswith("drv_") or b.startswith("vole_") or b in ("hash_ops.cpp", "prim_ops.cpp")):
            us.append((f, defs + inst))
        else:
            us.append((f, defs))
    for f in lib_sources():
        us.append((f, inst))
    return us


def compile_one(u, ver):
    src, flags = u
    cmd = [CXX] + BASE + GUARD + flags
    pp = subprocess.run(cmd + ["-E", src], capture_output=True)
    if pp.returncode:
        return None, "preprocessing %s failed:\n%s" % (src, pp.stderr.decode(errors="replace")[-3000:])
    h = hashlib.sha256()
    h.update(ver)
    h.update(" ".join(flags + BASE + GUARD).encode())
    h.update(repr(REDIRECT).encode())
    h.update(pp.stdout)
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True)
        if r.returncode:
            return None, "compiling %s failed:\n%s" % (src, r.stderr.decode(errors="replace")[-6000:])
        if "-fsanitize=thread" in flags:
            # block operations and deallocations of instrumented code are accesses too
            r = subprocess.run(["objcopy"] + ["--redefine-sym=%s=%s" % x for x in REDIRECT] + [tmp], capture_output=True)
            if r.returncode:
                return None, "objcopy on %s failed:\n%s" % (src, r.stderr.decode(errors="replace"))
        os.replace(tmp, obj)
    return obj, ""


def order(us):
    # longest first
    def w(u):
        b = os.path.basename(u[0])
        if b.startswith("vole_") or b.startswith("drv_"):
            return 0
        if b in ("session.cpp", "scenarios.cpp", "hash_ops.cpp"):
            return 1
        return 2
    return sorted(us, key=w)


def build(mode):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    ver = subprocess.run([CXX, "--version"], capture_output=True).stdout
    us = order(units(mode))
    objs, errs, inst = [], [], set()
    with cf.ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", "0")) or os.cpu_count() or 8) as ex:
        for u, (o, e) in zip(us, ex.map(lambda u: compile_one(u, ver), us)):
            if o is None:
                errs.append(e)
            else:
                objs.append(o)
                if "-fsanitize=thread" in u[1]:
                    inst.add(o)
    if errs:
        raise BuildError("\n".join(errs))
    # what instrumented and other objects both contain is taken from the former
    objs.sort()
    if mode == "race":
        objs = sorted(o for o in objs if o in inst) + sorted(o for o in objs if o not in inst)
    key = hashlib.sha256(("%s\n" % mode + "\n".join(objs)).encode()).hexdigest()[:20]
    exe = os.path.join(BUILD, "simctl-%s-%s" % (mode, key))
    if not os.path.exists(exe):
        absl = sorted(glob.glob(LIBDIR + "/libabsl_*.a"))
        tmp = exe + ".%d.tmp" % os.getpid()
        wraps = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_once", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"]
        cmd = [CXX, "-no-pie", "-g1", "-o", tmp] + objs
        cmd += ["-Wl,--wrap=" + w for w in wraps]
        cmd += ["-Wl,--start-group"] + absl + ["-Wl,--end-group"]
        cmd += [LIBDIR + "/libntl.a", LIBDIR + "/libgmp.a"]
        gf2x = glob.glob(LIBDIR + "/libgf2x.so.*")
        cmd += sorted(gf2x)[:1]
        cmd += [LIBDIR + "/android/libcrypto.so", "-Wl,-rpath," + LIBDIR + "/android", "-lpthread", "-lm"]
        r = subprocess.run(cmd, capture_output=True)
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stderr.decode(errors="replace")[-6000:])
        os.replace(tmp, exe)
    prune()
    return exe


def prune():
    # keep the cache bounded
    fs = glob.glob(BUILD + "/obj/*.o") + glob.glob(BUILD + "/simctl-*")
    if len(fs) < 400:
        return
    fs.sort(key=os.path.getmtime)
    now = time.time()
    for f in fs[:len(fs) // 2]:
        if now - os.path.getmtime(f) > 3600:
            try:
                os.unlink(f)
            except OSError:
                pass


if __name__ == "__main__":
    t = time.time()
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else "plain"))
        print("build took %.1f s" % (time.time() - t), file=sys.stderr)
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(3)
