#!/usr/bin/env python3
"""Build the code under test (from /repo's working tree) plus a check program.

build(flavour, check) -> path of an executable in /verif/build.
"""
import os, sys, glob, hashlib, subprocess, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CC = os.environ.get("CC_FOR_MC", "gcc")

BASE = ["-D_GNU_SOURCE", "-g", "-pthread", "-w", "-std=gnu11", "-DXXH_STATIC_LINKING_ONLY",
        "-DSPLINTERDB_PLATFORM_DIR=platform_linux", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
        "-fno-omit-frame-pointer", "-fno-strict-aliasing", "-march=native",
        '-DGIT_VERSION="mc"']
TSAN = ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "--param", "tsan-instrument-func-entry-exit=0"]
FLAVOURS = {
    # name: (flags for the code under test, flags for harness, link flags)
    "seq": (["-O2"], [], []),
    "dbg": (["-O1", "-DSPLINTER_DEBUG"], ["-DSPLINTER_DEBUG"], []),
    "mc": (["-O1"] + TSAN, [], []),
    "mcdbg": (["-O1", "-DSPLINTER_DEBUG"] + TSAN, ["-DSPLINTER_DEBUG"], []),
    "asan": (["-O1", "-fsanitize=address", "-fno-sanitize-address-use-after-scope"], ["-DMC_ASAN"], ["-fsanitize=address"]),
}

class HarnessError(RuntimeError):
    pass

def inc():
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "src/platform_linux")]

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def repo_files():
    c = glob.glob(os.path.join(REPO, "src/**/*.c"), recursive=True)
    h = glob.glob(os.path.join(REPO, "src/**/*.h"), recursive=True) + \
        glob.glob(os.path.join(REPO, "include/**/*.h"), recursive=True)
    return sorted(c), sorted(h)

def build(flavour, check):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock." + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(flavour, check)

def _build(flavour, check):
    cflags, hflags, ldflags = FLAVOURS[flavour]
    d = os.path.join(OUT, flavour)
    os.makedirs(d, exist_ok=True)
    cs, hs = repo_files()
    rt = sorted(glob.glob(os.path.join(VERIF, "rt/*")))
    dg = digest(cs + hs + [os.path.join(VERIF, "rt/syms.txt"), os.path.join(VERIF, "rt/pre.h")], repr((BASE, cflags, "4")))
    libo = os.path.join(d, "repo.o")
    stamp = os.path.join(d, "repo.stamp")
    pre = os.path.join(VERIF, "rt/pre.h")
    if not (os.path.exists(libo) and os.path.exists(stamp) and open(stamp).read() == dg):
        if os.path.exists(stamp):
            os.unlink(stamp)
        objs = []
        jobs = []
        for c in cs:
            o = os.path.join(d, os.path.relpath(c, REPO).replace("/", "_") + ".o")
            objs.append(o)
            jobs.append([CC] + BASE + cflags + ["-include", pre] + inc() + ["-c", c, "-o", o])
        jobs.sort(key=lambda j: -os.path.getsize(j[-3]))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        for o in objs:
            # see the definitions in checks/common.h
            if o.endswith("src_trunk.c.o"):
                run(["objcopy", "--redefine-sym", "routing_filter_estimate_unique_fp=mc_estimate_unique_fp",
                     "--redefine-sym", "task_perform_one_if_needed=mc_perform_one_if_needed", o])
            if o.endswith("src_trunk.c.o") or o.endswith("src_memtable.c.o"):
                run(["objcopy", "--redefine-sym", "platform_batch_rwlock_unclaim=mc_rwlock_unclaim",
                     "--redefine-sym", "platform_batch_rwlock_unlock=mc_rwlock_unlock", o])
            if o.endswith("src_splinterdb.c.o"):
                run(["objcopy", "--redefine-sym", "rc_allocator_unmount=mc_rc_allocator_unmount", o])
        run(["ld", "-r", "-o", libo] + objs)
        run(["objcopy", "--redefine-syms=" + os.path.join(VERIF, "rt/syms.txt"), libo])
        with open(stamp, "w") as f:
            f.write(dg)
    src = os.path.join(VERIF, "checks", check + ".c")
    exe = os.path.join(d, check)
    hdr = sorted(glob.glob(os.path.join(VERIF, "checks/*.h")))
    dg2 = digest([src] + rt + hdr, dg + repr(hflags))
    st2 = exe + ".stamp"
    if not (os.path.exists(exe) and os.path.exists(st2) and open(st2).read() == dg2):
        ro = []
        jobs = []
        for c in ("mc.c", "sched.c", "simio.c"):
            o = os.path.join(d, "rt_" + c + "." + check + ".o")
            ro.append(o)
            jobs.append([CC, "-O2", "-g", "-w", "-std=gnu11", "-pthread", "-U_FORTIFY_SOURCE"] + hflags + ["-I" + os.path.join(VERIF, "rt"), "-c", os.path.join(VERIF, "rt", c), "-o", o])
        o = os.path.join(d, "chk_" + check + ".o")
        ro.append(o)
        jobs.append([CC] + BASE + ["-O2"] + hflags + inc() + ["-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "checks"), "-c", src, "-o", o])
        try:
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(run, jobs))
            run([CC, "-no-pie", "-rdynamic", "-o", exe] + ldflags + ro + [libo, "-lxxhash", "-lm", "-lpthread"])
        except RuntimeError as e:
            raise HarnessError(str(e))
        with open(st2, "w") as f:
            f.write(dg2)
    return exe

if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[2]))
    except RuntimeError as e:
        import re
        sys.exit("\n".join(l for l in str(e).splitlines() if "error" in l or "undefined" in l)[:2000] or str(e)[-1500:])
