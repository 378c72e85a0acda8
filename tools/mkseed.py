#!/usr/bin/env python3
"""Development tool: turns seed specifications (tools/seedspecs/*.py) into /verif/seeded/<id>/ after confirming each one.

  mkseed.py [--only ID,...] [--spec FILE] [--detect-only] [--lab N]

A specification file calls seed(id, property, edits, demo, needs, breaks); edits are (file, old, new).
Each seed is applied in a scratch copy of /repo, built, run through the existing tests, its demonstration run
with and without the change, and finally the property's check run against the scratch copy.
"""
import argparse, glob, json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("VERIF_REPO", "/repo")
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


DEMO_SH = """#!/bin/bash
# exit 0: behaves as specified; non-zero: does not
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ -std=gnu++17 -O1 -g -w -fsanitize=address -DFEATURE_ESTD_COMPILE_VERBOSITY=0 -DFEATURE_ESTD_COMPILE_STRICTNESS=4 -Isrc "$here/demo.cpp" src/estd/internal/string_convert.cpp src/estd/internal/utility.cpp%s -o "$out/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$out/demo"
"""


def lab_setup(lab):
    repo = lab + "/repo"
    if not os.path.exists(repo):
        os.makedirs(lab, exist_ok=True)
        sh("cp -a /repo %s && rm -rf %s/_build" % (repo, repo))
        sh("cp -a /opt/vp %s/vp" % lab)
        sh("grep -rlZ /repo %s/vp | xargs -0 sed -i 's#/repo#%s#g; '" % (lab, repo))
        sh("sed -i 's#/opt/vp#%s/vp#g' %s/vp/*.sh %s/vp/*.py" % (lab, lab, lab))
    sh("cd %s && git checkout -q -- . && git clean -fdq -e _build && git fetch -q %s HEAD && git checkout -q -f FETCH_HEAD" % (repo, BASE))
    return repo


def tests(lab):
    r = sh("bash %s/vp/test.sh %s/out.json" % (lab, lab))
    try:
        o = json.load(open(lab + "/out.json"))
    except Exception:
        return False, r.stdout[-1500:]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) if False else None
    return len(o["passed"]) >= 648 and not o["failed"], r.stdout[-600:]


def demo_ok(d, repo):
    r = sh(["bash", d + "/demo.sh"], cwd=repo)
    return r.returncode, r.stdout[-1200:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--only"); ap.add_argument("--spec"); ap.add_argument("--lab", default="1"); ap.add_argument("--detect-only", action="store_true"); ap.add_argument("--seed", default="1")
    ap.add_argument("--new", action="store_true", help="skip seeds already in /verif/seeded")
    a = ap.parse_args()
    for f in sorted(glob.glob(ROOT + "/tools/seedspecs/*.py")):
        if a.spec and a.spec not in f:
            continue
        exec(compile(open(f).read(), f, "exec"), dict(seed=seed))
    lab = "/tmp/seedlab" + a.lab
    repo = lab_setup(lab)
    only = a.only.split(",") if a.only else None
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        d = ROOT + "/seeded/" + s["id"]
        if a.new and os.path.exists(d + "/meta.json"):
            continue
        status = []
        try:
            for f, old, new in s["edits"]:
                p = repo + "/src/estd/" + f
                t = open(p).read()
                n = t.count(old)
                if n != 1:
                    raise Exception("edit of %s matches %d times" % (f, n))
                open(p, "w").write(t.replace(old, new))
            diff = sh("git -C %s diff -U0" % repo).stdout
            cur = None
            for line in diff.splitlines():
                if line.startswith("+++ b/"): cur = sh(["git", "-C", "/repo", "show", "be691af:" + line[6:]]).stdout.splitlines()
                elif line.startswith("-") and not line.startswith("---") and line[1:].strip() and line[1:] not in cur:
                    raise Exception("not an original line: " + line)
            diff = sh("git -C %s diff" % repo).stdout
            tmp = lab + "/cand"
            shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            open(tmp + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
            extra = ""
            if "bipbuffer" in s["demo"] or "bip" in s["id"]:
                extra = ' -x c src/estd/ext/willemt/bipbuffer/bipbuffer.c -x none'
            sh_text = DEMO_SH % extra
            if "FREERTOS_DEMO" in s["demo"]:      # runs on the stand-in kernel, which goes along
                for f in glob.glob(ROOT + "/harness/freertos/*.h"):
                    shutil.copy(f, tmp)
                sh_text = sh_text.replace("-Isrc", '-I"$here" -Isrc')
            if "DEVICES_DEMO" in s["demo"]:       # so do the stand-in devices
                shutil.copytree(ROOT + "/harness/devices", tmp + "/devices")
                sh_text = sh_text.replace("-Isrc", '-I"$here/devices" -DARDUINO=10800 -DLIB_PICO_STDIO=1 -Isrc').replace("src/estd/internal/utility.cpp", "src/estd/internal/utility.cpp src/estd/port/posix/streambuf.cpp")
            if "NOSTD_DEMO" in s["demo"]:         # and what hides the standard library from estd
                for f in ("devices", "nostd"):
                    shutil.copytree(ROOT + "/harness/" + f, tmp + "/" + f)
                sh_text = sh_text.replace("g++ ", """after=(-nostdinc++); for d in $(g++ -E -v -x c++ /dev/null 2>&1 | grep '^ /.*c++') "$here/nostd/after"; do after+=(-idirafter "$d"); done\ng++ "${after[@]}" """, 1).replace(
                    "-Isrc", '-DARDUINO=10800 -D__AVR__=1 -D__AVR_ARCH__=5 -DFEATURE_STD_NEW=1 -I"$here/nostd" -I"$here/devices" -Isrc -include nostd.h')
            open(tmp + "/demo.sh", "w").write(sh_text)
            open(tmp + "/patch.diff", "w").write(diff)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
            if not a.detect_only:
                rc, out = demo_ok(tmp, BASE)
                if rc != 0:
                    raise Exception("demo fails on the unchanged tree (%d): %s" % (rc, out))
                rc, out = demo_ok(tmp, repo)
                if rc == 0:
                    raise Exception("demo passes with the change")
                if rc == 2:
                    raise Exception("demo does not build with the change: " + out)
                ok, out = tests(lab)
                if not ok:
                    raise Exception("tests fail with the change: " + out)
                shutil.rmtree(d, ignore_errors=True)
                shutil.copytree(tmp, d)
                status.append("kept")
            if s["prop"]:
                r = sh([sys.executable, ROOT + "/check.py", s["prop"], "--seed", a.seed], env=dict(os.environ, VERIF_REPO=repo, VERIF_NOEVIDENCE="1"))
                hit = r.returncode == 1 and any(l.startswith("VIOLATION property=%s " % s["prop"]) for l in r.stdout.splitlines())
                status.append("CAUGHT" if hit else "MISSED rc=%d" % r.returncode)
                if r.returncode not in (0, 1):
                    status.append(r.stdout[-500:])
        except Exception as e:
            status.append("REJECTED " + str(e))
        sh("git -C %s checkout -q -- ." % repo)
        print("%-34s %s %s" % (s["id"], s["prop"], " ".join(status)), flush=True)


main()
