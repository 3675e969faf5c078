#!/usr/bin/env python3
"""Builds the pinocchio-free core of /repo's *current working tree* and the model-checking
harnesses of /verif against it.  Nothing is written outside /verif/build.

build(variant, harness) -> path of the harness executable

Variants
  seq  : single-threaded library, NDEBUG (as released), double only, with Eigen's index/size checks,
         libstdc++ assertions and NaN-initialised Eigen storage switched on
  seqf : seq plus the float instantiations (only the scalar-cast check executes them)
  mt   : seq with CROCODDYL_WITH_MULTITHREADING; OpenMP constructs and memory accesses are lowered by
         gcc to GOMP_* and __tsan_* calls that the harness' own controlled runtime (rt_omp.cpp) implements
  mb   : seq plus src/multibody, with harness/mini standing in for pinocchio
  asan : seq with AddressSanitizer

/repo/{src,include} are mirrored into the build tree *by content* (a file whose content did not change
keeps its timestamp), so that ninja's decision what to rebuild depends on contents only.
"""
import fcntl, hashlib, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HAR = os.path.join(VERIF, "harness")
ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = ["-std=c++14", "-DNDEBUG", "-DCROCODDYL_WITH_IPOPT", "-D_GLIBCXX_ASSERTIONS",
          "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-w", "-fno-strict-aliasing", "-ffp-contract=off", "-O1"]
MT = ["-DCROCODDYL_WITH_MULTITHREADING", "-DCROCODDYL_WITH_NTHREADS=2", "-fopenmp", "-g1", "-fsanitize=thread"]
VARIANTS = {"seq": [], "mb": [], "seqf": ["-DMC_WITH_FLOAT"], "mt": MT, "asan": ["-g1", "-fsanitize=address"]}
LINK = {"seq": "", "mb": "", "seqf": "", "asan": "-fsanitize=address", "mt": "-lpthread " + " ".join("-Wl,--wrap=" + f for f in "memcpy memmove memset malloc calloc realloc aligned_alloc "
                                  "posix_memalign __cxa_guard_acquire __cxa_guard_release".split())}
# float instantiations are referenced by cast functions only; where they are not built the references
# stay unresolved and calling one crashes
NOFLOAT = "-no-pie -Wl,--unresolved-symbols=ignore-all"
# these reach CppADCodeGen or hpp-fcl and cannot be built here
EXCLUDE = re.compile(r"/codegen/|pair-collision")


def put(path, data, stamp=None):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    if stamp:
        os.utime(path, (stamp, stamp))


def mirror(src, dst, stamp):
    seen = set()
    for d, dirs, fs in os.walk(src):
        dirs.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            seen.add(rel)
            with open(p, "rb") as fd:
                put(os.path.join(dst, rel), fd.read(), stamp)
    for d, dirs, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in seen:
                os.remove(os.path.join(dst, rel))


def newest(bd):
    t = time.time()
    for d, dirs, fs in os.walk(bd):
        for f in fs:
            try:
                t = max(t, os.path.getmtime(os.path.join(d, f)))
            except OSError:
                pass
    return t


def lib_sources(bd, variant, stamp):
    out = []
    top = os.path.join(bd, "repo", "src")
    for d, dirs, fs in [w for part in ["core"] + ["multibody"] * (variant == "mb") for w in sorted(os.walk(os.path.join(top, part)))]:
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, top)
            if EXCLUDE.search("/" + rel):
                continue
            if f.endswith(".cpp"):
                out.append(p)
            elif f.endswith(".cpp.in") or f.endswith(".cpp_fptype.in"):
                stem = re.sub(r"\.cpp(_fptype)?\.in$", "", rel)
                text = open(p).read()
                for sc in ("double", "float"):
                    if sc == "float" and variant != "seqf":
                        continue
                    g = os.path.join(bd, "gen", "%s-%s.cpp" % (stem, sc))
                    put(g, text.replace("@SCALAR_TYPE@", sc), stamp)
                    out.append(g)
    return out


def build(variant, harness, quiet=True, also=()):
    bd = os.path.join(ROOT, variant)
    os.makedirs(bd, exist_ok=True)
    lock = open(os.path.join(ROOT, variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    stamp = newest(bd)
    for sub in ("src", "include"):
        mirror(os.path.join(REPO, sub), os.path.join(bd, "repo", sub), stamp)
    mirror(HAR, os.path.join(bd, "harness"), stamp)
    har = os.path.join(bd, "harness")
    ov = os.path.join(bd, "overlay")
    put(os.path.join(ov, "crocoddyl/config.hpp"), open(os.path.join(HAR, "stubs/config.hpp")).read(), stamp)
    # core/numdiff only needs multibody/fwd.hpp's forward declarations, not pinocchio's headers
    if variant != "mb":
        put(os.path.join(ov, "crocoddyl/multibody/pch.hpp"), "#pragma once\n", stamp)
    flags = COMMON + VARIANTS[variant]
    inc = ["-I" + ov, "-I" + har + "/stubs"] + ["-I" + har + "/mini"] * (variant == "mb") + [ "-I" + bd + "/repo/include", "-I" + har,
           "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/coin-or",
           "-isystem", "/usr/include/coin"]
    pre = {}
    n = ["ninja_required_version = 1.3", "builddir = " + bd, "cxxflags = " + " ".join(flags + inc),
         "rule pch\n  command = g++ $cxxflags $opt -x c++-header -MMD -MF $out.d $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule cxx\n  command = g++ $cxxflags $opt -include $pre -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule ar\n  command = rm -f $out && ar crs $out $in",
         "rule link\n  command = g++ %s $in -o $out %s -lipopt -lboost_serialization -lboost_filesystem "
         "-lboost_system -ldl" % ("" if variant == "seqf" else NOFLOAT, LINK[variant])]
    for k, opt in (("pre", ""), ("pre0", "-O0")):
        if opt and variant != "seqf":
            continue
        pre[k] = os.path.join(bd, k, "vpre.hpp")
        put(pre[k], open(os.path.join(HAR, "prelude.hpp")).read(), stamp)
        n.append("build %s.gch: pch %s\n  opt = %s" % (pre[k], pre[k], opt))
    rt = ""
    if variant == "mt":
        rt = os.path.join(bd, "obj", "rt_omp.o")
        n.append("rule rt\n  command = g++ -std=c++14 -O2 -g1 -w -I%s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % har)
        n.append("build %s: rt %s" % (rt, os.path.join(har, "rt_omp.cpp")))
    exe = None
    more = []
    for f in sorted(os.listdir(har)):
        if f.startswith("p_") and f.endswith(".cpp"):
            name = f[:-4]
            o = os.path.join(bd, "obj", name + ".o")
            e = os.path.join(bd, name)
            n.append("build %s: cxx %s | %s.gch\n  pre = %s" % (o, os.path.join(har, f), pre["pre"], pre["pre"]))
            n.append("build %s: link %s %s %s" % (e, o, rt, os.path.join(bd, "libcroc.a")))
            if name == harness:
                exe = e
            elif name in also:
                more.append(e)
    objs = []
    for s in lib_sources(bd, variant, stamp):
        o = os.path.join(bd, "obj", os.path.relpath(s, bd) + ".o")
        objs.append(o)
        lo = s.endswith("-float.cpp")
        p = pre["pre0" if lo else "pre"]
        n.append("build %s: cxx %s | %s.gch\n  pre = %s\n  opt = %s" % (o, s, p, p, "-O0" if lo else ""))
    lib = os.path.join(bd, "libcroc.a")
    n.append("build %s: ar %s" % (lib, " ".join(objs)))
    if harness != "lib" and exe is None:
        raise SystemExit("no such harness " + harness)
    put(os.path.join(bd, "build.ninja"), "\n".join(n) + "\n", stamp)
    r = subprocess.run(["ninja", "-C", bd, exe or lib] + more, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and re.search(r"Killed|terminated|virtual memory exhausted|Cannot allocate", r.stdout):  # (the machine was out of memory)
        r = subprocess.run(["ninja", "-C", bd, "-j", "2", exe or lib] + more, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-8000:])
        raise RuntimeError("build failed")
    fcntl.flock(lock, fcntl.LOCK_UN)
    if not quiet:
        print("built %s in %.1fs" % (exe or lib, time.time() - t0))
    return exe or lib


if __name__ == "__main__":
    build(sys.argv[1], sys.argv[2], quiet=False)
