#!/usr/bin/env python3
"""Builds and runs the check of one property.

  check.py <property> [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] [--only TARGET]

Environment: VERIF_SEED, VERIF_TIER; VERIF_REPO overrides /repo (used only while developing).
Exit: 0 held, 1 violated (with a VIOLATION line), 2 the check itself could not run.
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

SAN = ["-fsanitize=address,bounds,return,unreachable,signed-integer-overflow,shift,integer-divide-by-zero,bool",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
DEFS = ["-DFEATURE_ESTD_COMPILE_VERBOSITY=0", "-DFEATURE_ESTD_COMPILE_STRICTNESS=4"]
LIBSRC = ["src/estd/internal/string_convert.cpp", "src/estd/internal/utility.cpp"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(args):
    cmd, obj = args
    r = sh(cmd)
    return obj, r.returncode, r.stdout, " ".join(cmd)


def compile_all(jobs):
    with ThreadPoolExecutor(max_workers=8) as ex:
        out = list(ex.map(compile_one, jobs))
    ok = True
    for obj, rc, text, cmd in out:
        if rc:
            ok = False
            sys.stderr.write("BUILD FAILED: %s\n%s\n" % (cmd, text[:3500]))
    return ok


def engine_obj(bdir, cxx, fuzz):
    src = os.path.join(ROOT, "engine/pbt.cpp")
    h = hashlib.sha256((cxx + str(fuzz) + open(src).read() + open(os.path.join(ROOT, "engine/pbt.h")).read()).encode()).hexdigest()[:16]
    edir = os.path.join(ROOT, "build", "engine")
    os.makedirs(edir, exist_ok=True)
    obj = os.path.join(edir, "pbt-%s.o" % h)
    if not os.path.exists(obj):
        tmp = obj + ".%d" % os.getpid()
        cmd = [cxx, "-std=gnu++17", "-O1", "-g", "-fno-omit-frame-pointer"] + (["-DPBT_FUZZ", "-fsanitize=fuzzer-no-link"] if fuzz else []) + ["-fsanitize=address", "-I" + ROOT + "/engine", "-c", src, "-o", tmp]
        r = sh(cmd)
        if r.returncode:
            sys.stderr.write(r.stdout)
            sys.exit(2)
        os.replace(tmp, obj)
    return obj


def nostd_flags(cxx):
    """estd finds no standard library of its own (harness/nostd/nostd.h), the harness's oracles do."""
    dirs, on = [], False
    for line in sh([cxx, "-E", "-v", "-x", "c++", "/dev/null"]).stdout.splitlines():
        if line.startswith("#include <"):
            on = True
        elif line.startswith("End of search list"):
            on = False
        elif on and "/c++/" in line:
            dirs.append(os.path.normpath(line.strip()))
    h = os.path.join(ROOT, "harness")
    r = ["-nostdinc++"]
    for d in dirs + [h + "/nostd/after"]:
        r += ["-idirafter", d]
    return r + ["-DARDUINO=10800", "-D__AVR__=1", "-D__AVR_ARCH__=5", "-DFEATURE_STD_NEW=1", "-DFEATURE_TOOLCHAIN_OVERFLOW_BUILTIN=0", "-DFEATURE_ESTD_TO_CHARS_LIBC_DIV=1", "-I" + h + "/nostd", "-I" + h + "/devices"]


def build(prop, spec, cxx="g++", std="gnu++17", fuzz=False, opt="-O1", extra=()):
    tag = "%s-%s-%s%s" % (prop, cxx.replace("+", "x"), std.replace("+", "x"), "-fuzz" if fuzz else "")
    bdir = os.path.join(ROOT, "build", tag)
    if REPO != "/repo":
        bdir = os.path.join("/tmp/verif-build-" + hashlib.sha256(REPO.encode()).hexdigest()[:8], tag)
    os.makedirs(bdir, exist_ok=True)
    exe = os.path.join(bdir, "check")
    if os.path.exists(exe):
        os.remove(exe)
    eng = engine_obj(bdir, cxx, fuzz)
    jobs, objs = [], [eng]
    common = [cxx, "-std=" + std, opt, "-g1", "-w", "-fmax-errors=4", "-fno-strict-aliasing"] + SAN + DEFS + list(spec.get("defs", [])) + list(extra) + \
             ["-I" + ROOT + "/engine", "-I" + ROOT + "/harness"] + ["-I%s/harness/%s" % (ROOT, d) for d in spec.get("inc", [])] + ["-I" + REPO + "/src"]
    if cxx.startswith("clang"):
        common += ["-Wno-c++11-narrowing"]      # a warning with gcc, an error here
    if fuzz:
        common += ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"]
    nostd = nostd_flags(cxx) if spec.get("nostd") else []
    for f in spec["sources"]:
        src = os.path.join(ROOT, "harness", f)
        obj = os.path.join(bdir, f.replace("/", "_") + ".o")
        group = ['-DPBT_GROUP="%s/"' % f.split(".")[0]] if spec.get("group") else []
        # the repository comes before the forced include
        jobs.append((common + group + nostd + (["-include", "nostd.h"] if nostd else []) + ["-c", src, "-o", obj], obj))
        objs.append(obj)
    for f in LIBSRC + list(spec.get("libsrc", [])):
        src = os.path.join(REPO, f)
        obj = os.path.join(bdir, f.replace("/", "_") + ".o")
        cmd = list(common) + ([] if f.endswith(".c") or not nostd else nostd + ["-include", "nostd.h"])
        if f.endswith(".c"):
            cmd[0:2] = [{"g++": "gcc", "clang++": "clang"}[cxx], "-std=gnu11"]
        jobs.append((cmd + ["-c", src, "-o", obj], obj))
        objs.append(obj)
    if not compile_all(jobs):
        return None
    r = sh([cxx] + SAN + (["-fsanitize=fuzzer"] if fuzz else []) + objs + ["-o", exe, "-lpthread"])
    if r.returncode:
        sys.stderr.write("LINK FAILED\n" + r.stdout[-4000:])
        return None
    return exe


def known(path):
    return ["--known", path] if os.path.exists(path) else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--cxx", default="g++")
    ap.add_argument("--std")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.setup:
        # the engine object is shared by all checks; checks themselves rebuild from the current tree
        engine_obj(None, a.cxx, False)
        return 0
    spec = json.load(open(os.path.join(ROOT, "checks.json")))[a.prop]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    std = a.std or spec.get("std", "gnu++17")
    exe = build(a.prop, spec, cxx=a.cxx, std=std)
    if exe is None:
        # something may have begun to require copies of what can only be moved: let such values be
        # copied, and have the run catch it doing so
        sys.stderr.write("building again, with move-only values which report being copied\n")
        exe = build(a.prop, spec, cxx=a.cxx, std=std, extra=["-DPBT_COPYABLE"])
        if exe is None:
            return 2
    sys.stdout.write("built in %.1f s\n" % (time.time() - t0))
    sys.stdout.flush()
    if a.build_only:
        return 0
    if a.replay:
        return subprocess.call([exe, "--replay", a.replay])
    rdir = os.path.join(ROOT, "replays")
    evid = os.path.join(ROOT, "evidence", a.prop + ".json")
    if os.environ.get("VERIF_NOEVIDENCE"):  # development runs against a scratch copy
        rdir = "/tmp/verif-dev/replays"
        evid = "/tmp/verif-dev/%s.json" % a.prop
        os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.dirname(evid), exist_ok=True)
    cases = a.cases or spec["cases"] * (spec.get("thorough_factor", 15) if tier == "thorough" else 1)
    cmd = [exe, "--prop", a.prop, "--tier", tier, "--seed", str(a.seed), "--cases", str(cases), "--evidence", evid,
           "--replay-dir", rdir, "--rule", spec["rule"], "--max-wall", "600" if tier == "quick" else "3000"] + known(os.path.join(ROOT, "known_findings.txt"))
    if a.only:
        cmd += ["--only", a.only]
    rc = subprocess.call(cmd)
    if rc not in (0, 1):
        return 2
    if rc == 0 and tier == "thorough" and not a.only:
        import thorough
        rc = thorough.run(a, spec, evid, rdir, build)
    return rc


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    sys.exit(main())
