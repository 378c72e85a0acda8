"""The deep end of a check: the same targets in other builds and other seeds, then coverage-guided search.

Called by check.py after the seeded run of the thorough tier held. Everything found is confirmed, shrunk
and reported by the ordinary build of the check, so a report here is replayed like any other.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

# (compiler, language standard, optimisation, seeds added to --seed)
BUILDS = [("g++", "gnu++17", "-O1", (101, 102, 103)), ("g++", "gnu++20", "-O2", (201,)),
          ("clang++", "gnu++17", "-O1", (301,)), ("g++", "gnu++17", "-O3", (401,)), ("g++", "gnu++14", "-O2", (501,))]


def fuzz(a, spec, build, exe, rdir, seconds, jobs):
    """libFuzzer over the choice sequences; returns (exit code, executions, corpus size)"""
    fexe = build(a.prop, spec, cxx="clang++", fuzz=True)
    if fexe is None:
        return 0, 0, 0, "the fuzzing build does not compile"
    work = tempfile.mkdtemp(prefix="verif-fuzz-")
    rc, execs, note = 0, 0, ""
    try:
        corpus = os.path.join(work, "corpus")
        os.makedirs(corpus)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0")
        procs = []
        for j in range(jobs):
            log = open(os.path.join(work, "w%d.log" % j), "w")
            cmd = [fexe, corpus, "-max_total_time=%d" % seconds, "-seed=%d" % (a.seed * 1000 + j + 1), "-max_len=1024", "-len_control=50", "-timeout=25",
                   "-rss_limit_mb=3000", "-reload=10", "-artifact_prefix=%s/crash%d-" % (work, j), "-print_final_stats=1", "-use_value_profile=%d" % (j % 2)]
            procs.append(subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=work))
        for p in procs:
            try:
                p.wait(seconds + 120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
        for j in range(jobs):
            for line in open(os.path.join(work, "w%d.log" % j), errors="replace"):
                if line.startswith("stat::number_of_executed_units:"):
                    execs += int(line.split()[-1])
        for art in sorted(glob.glob(os.path.join(work, "crash*-*"))):
            dump = art + ".replay"
            subprocess.run([fexe, art], env=dict(env, PBT_DUMP=dump), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(dump):
                r = subprocess.run([exe, "--shrink", dump, "--prop", a.prop, "--replay-dir", rdir])
                if r.returncode == 1:
                    rc = 1
                    break
                note = "an input the fuzzer stopped at does not fail in the ordinary build"
        n = len(os.listdir(corpus))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc, execs, n, note


def run(a, spec, evid, rdir, build):
    t0 = time.time()
    ev = json.load(open(evid))
    more, rc = [], 0
    cases = (a.cases or spec["cases"]) * 2
    for cxx, std, opt, seeds in BUILDS:
        if rc:
            break
        exe = build(a.prop, spec, cxx=cxx, std=std, opt=opt)
        if exe is None:
            more.append({"build": "%s -std=%s %s" % (cxx, std, opt), "covered": False, "why": "the harness does not compile in this mode"})
            continue
        for s in seeds:
            tmp = evid + ".part"
            r = subprocess.run([exe, "--prop", a.prop, "--tier", "thorough", "--seed", str(a.seed + s), "--cases", str(cases), "--evidence", tmp, "--replay-dir", rdir,
                                "--rule", spec["rule"], "--max-wall", "1200", "--known", os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.txt")],
                               stdout=subprocess.PIPE, text=True)
            sys.stdout.write("".join(l + "\n" for l in r.stdout.splitlines() if not l.startswith("KNOWN-FINDING")))
            part = json.load(open(tmp)) if os.path.exists(tmp) else {"coverage": {"evaluations": 0, "distinct_nontrivial": 0}}
            if os.path.exists(tmp):
                os.remove(tmp)
            more.append({"build": "%s -std=%s %s" % (cxx, std, opt), "seed": a.seed + s, "covered": True, "evaluations": part["coverage"]["evaluations"],
                         "distinct_nontrivial_within_run": part["coverage"]["distinct_nontrivial"]})
            if r.returncode == 1:
                rc = 1
                break
            if r.returncode:
                return 2
    if not rc:
        exe = build(a.prop, spec)
        seconds = int(os.environ.get("VERIF_FUZZ_SECONDS", "300"))
        frc, execs, corpus, note = fuzz(a, spec, build, exe, rdir, seconds, 8)
        more.append({"build": "clang++ libFuzzer, coverage-guided", "seconds_per_process": seconds, "processes": 8, "executions": execs, "corpus": corpus, "note": note})
        rc = frc
    ev["coverage"]["further_runs"] = more
    ev["wall_s"] = ev["wall_s"] + time.time() - t0
    ev["violations"] = ev.get("violations", 0) + (1 if rc else 0)
    json.dump(ev, open(evid, "w"), indent=1)
    return rc
