#!/usr/bin/env python3
"""Driver of the checks.

  check.py ID            run the check of property ID (tier from VERIF_TIER)
  check.py ID --replay F rerun a replay file against /repo's working tree
  check.py --selftest    compile the engine (setup)

Builds /repo's current working tree (all of src/, out of tree, in a scratch
directory) together with harness/props/<id>.cpp, in two variants (plain -O2 and
address+undefined sanitizers), runs the generated cases, and reports.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken.
Exit 2: error of the check itself.
"""
import array, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
JOBS = max(2, min(8, os.cpu_count() or 2))

COMMON = ["-std=gnu++17", "-g1", "-w", "-DBOOST_CB_DISABLE_DEBUG",
          "-DBOOST_BIND_GLOBAL_PLACEHOLDERS",
          "-I", os.path.join(HARN, "include"), "-I", HARN,
          "-I", REPO, "-I", "/usr/include/eigen3"]
VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O2", "-DPBT_VARIANT=plain"], link=[]),
    "asan": dict(cxx="g++", flags=["-O1", "-DPBT_VARIANT=asan",
                 "-fsanitize=address,undefined", "-fno-sanitize=vptr",
                 "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-DPBT_VARIANT=tsan", "-fsanitize=thread"],
                 link=["-fsanitize=thread", "-pthread"]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-DPBT_VARIANT=fuzz", "-DPBT_FUZZ",
                 "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize=vptr,function",
                 "-fno-sanitize-recover=all"],
                 link=["-fsanitize=fuzzer,address,undefined"]),
}
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:"
           "allocator_may_return_null=0:hard_rss_limit_mb=3000:handle_abort=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:die_after_fork=0:report_thread_leaks=0",
           UBSAN_OPTIONS="print_stacktrace=1", LC_ALL="C.UTF-8")


class CheckError(Exception):
    pass


def props():
    sys.path.insert(0, HARN)
    import registry
    return registry.PROPS


def find_sources(dirs):
    src = []
    for d in dirs:
        src += glob.glob(os.path.join(REPO, "src", d, "**", "*.cpp"), recursive=True)
    return sorted(set(src))


def compile_one(cxx, flags, src, obj):
    r = subprocess.run([cxx] + flags + COMMON + ["-c", src, "-o", obj],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout[-6000:]))
    return obj


def build(pid, spec, work, variants):
    dirs = spec.get("dirs", ["types", "tools", "dsp", "geometrics"])
    sources = find_sources(dirs)
    if not sources:
        raise CheckError("no sources under %s/src" % REPO)
    sources += [os.path.join(REPO, f) for f in spec.get("sources", [])]
    made = []
    if spec.get("gen"):
        import gen
        g = os.path.join(work, "gen")
        os.makedirs(g, exist_ok=True)
        try:
            for k in spec["gen"]:
                gen.MAKERS[k](REPO, g)
        except (OSError, gen.GenError) as e:
            raise CheckError(str(e))
        made = ["-I", g]
    jobs = []
    for v in variants:
        d = os.path.join(work, v)
        os.makedirs(d, exist_ok=True)
        V = VARIANTS[v]
        extra = made + spec.get("flags", [])
        own = [os.path.join(HARN, "props", pid.lower() + ".cpp"),
               os.path.join(HARN, "pbt_main.cpp")]
        if v == "tsan":  # the facets of the other properties, to be run in several threads
            for o in spec.get("others", []):
                s = os.path.join(HARN, "props", o.lower() + ".cpp")
                jobs.append((v, V["cxx"], V["flags"] + extra + ['-DPBT_LIBRARY="%s"' % o], s,
                             os.path.join(d, o + "_other.o")))
        for s in own + sources:
            obj = os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", s) + ".o")
            jobs.append((v, V["cxx"], V["flags"] + extra, s, obj))
    # biggest first, so that the pool stays busy
    heavy = ["props/", "urdf", "collada", "qianim"]
    jobs.sort(key=lambda j: min([i for i, h in enumerate(heavy) if h in j[3]] + [9]))
    objs = {v: [] for v in variants}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fs = {ex.submit(compile_one, c, f, s, o): v for v, c, f, s, o in jobs}
        for f in concurrent.futures.as_completed(fs):
            objs[fs[f]].append(f.result())
    bins = {}
    for v in variants:
        V = VARIANTS[v]
        b = os.path.join(work, "run_" + v)
        r = subprocess.run([V["cxx"]] + sorted(objs[v]) + V["link"] + ["-o", b],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("link failed:\n" + r.stdout[-4000:])
        bins[v] = b
    return bins


def load_findings():
    """known_findings.txt: lines 'known: property=ID sig=SIG text' and
    'fixed: property=ID commit text' (the latter suppress nothing)."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known:\s+property=(\S+)\s+sig=(\S+)\s+(.*)", l.strip())
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known


def replay(binary, facet, tape, timeout=300):
    try:
        r = subprocess.run([binary, "replay", facet, tape], env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -99, "replay timed out"
    return r.returncode, r.stdout.decode("utf8", "replace")


def replay_history(binary, seed, path, timeout=300):
    try:
        r = subprocess.run([binary, "history", path, "--seed", str(seed)], env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -99, "replay timed out"
    return r.returncode, r.stdout.decode("utf8", "replace")


def report_history(pid, bins, variant, f, seed, scale, workers, work):
    """A failing case which passes alone: its worker's earlier cases are run again before
    it, then as few of them as possible. Returns the path of a replay file, or None."""
    b = bins[variant]
    facet, index = f["facet"], f["index"]
    wid = index % workers
    order = [l.split() for l in subprocess.run(
        [b, "facets", "--scale", repr(scale)], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    pos = [n for n, _ in order].index(facet)
    tmp = os.path.join(work, "history.txt")

    def fails(cases):
        with open(tmp, "w") as o:
            for n, i in cases:
                o.write("%s %d %d 1\n" % (n, i, i))
        code, out = replay_history(b, seed, tmp)
        return out if code != 0 else None
    end = (facet, index)
    own = [(facet, i) for i in range(wid, index, workers)]
    before = [(n, i) for n, c in order[:pos] for i in range(wid, int(c), workers)]
    past = None
    k = 1
    while past is None and k < 2 * len(own):
        if fails(own[-k:] + [end]) is not None:
            past = own[-k:]
        k *= 4
    if past is None and fails(own + [end]) is not None:
        past = own
    if past is None and fails(before + own + [end]) is not None:
        past = before + own
    if past is None:
        return None, ""
    t0 = time.time()
    step = max(1, len(past) // 2)
    while time.time() - t0 < 40:
        i = 0
        smaller = False
        while i < len(past) and time.time() - t0 < 40:
            c = past[:i] + past[i + step:]
            if fails(c + [end]) is not None:
                past = c
                smaller = True
            else:
                i += step
        if step == 1 and not smaller:
            break
        step = max(1, step // 2)
    out = fails(past + [end])
    if out is None:
        return None, ""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%s.replay" % (pid, facet, variant))
    with open(path, "w") as o:
        o.write("property: %s\nfacet: %s\nvariant: %s\nkind: history\nmessage: %s\nhistory: %d\n" % (
            pid, facet, variant, f["message"].replace("\n", " "), seed))
        for n, i in past + [end]:
            o.write("case: %s %d %d 1\n" % (n, i, i))
        o.write("# the last case passes when run alone; as run (check.py %s --replay %s):\n" % (pid, path))
        for l in out.splitlines():
            o.write("# " + l + "\n")
    return path, out


def parse_replay(path):
    d = {}
    for l in open(path, encoding="utf8", errors="replace"):
        m = re.match(r"(property|facet|variant|history): (\S+)", l)
        if m:
            d.setdefault(m.group(1), m.group(2))
    return d


def report_failure(pid, bins, variant, facet, tape, kind, message, stderr, work):
    """shrink, confirm three times, write the replay file; returns its path or None"""
    b = bins[variant]
    final = tape
    # in the variant which runs threads a failure may depend on the schedule: it is
    # replayed until it comes back. A report of ThreadSanitizer, or results which differ
    # between threads, tell of a race even when that schedule is not met again.
    threads = variant == "tsan"
    proof = threads and (kind == "failure" or "WARNING: ThreadSanitizer" in stderr)

    def fails(t):
        for _ in range(40 if threads else 1):
            code, out = replay(b, facet, t)
            if code != 0:
                return out
        return None
    if kind != "hang":
        short = os.path.join(work, "short.tape")
        try:
            subprocess.run([b, "shrink", facet, tape, short, "--budget", "25"], env=ENV,
                           timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(short) and fails(short) is not None:
                final = short
        except subprocess.TimeoutExpired:
            pass
    outs = []
    for _ in range(1 if threads else 3):
        out = fails(final)
        if out is None:
            if not proof:
                return None, out
            out = "(this schedule was not met again in 40 runs; the report is below)"
        outs.append(out)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%s.replay" % (pid, facet, variant))
    with open(path, "w") as f:
        f.write("property: %s\nfacet: %s\nvariant: %s\nkind: %s\nmessage: %s\n" % (
            pid, facet, variant, kind, message.replace("\n", " ")))
        f.write(open(final).read())
        f.write("# minimal case, as run (check.py %s --replay %s):\n" % (pid, path))
        for l in outs[-1].splitlines():
            f.write("# " + l + "\n")
        for l in stderr.splitlines()[:60]:
            f.write("#! " + l + "\n")
    return path, outs[-1]


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "--selftest":
        props()
        with tempfile.TemporaryDirectory(prefix="verif_setup_") as w:
            compile_one("g++", VARIANTS["plain"]["flags"], os.path.join(HARN, "pbt_main.cpp"),
                        os.path.join(w, "main.o"))
        print("engine compiles")
        return 0
    pid = args[0]
    spec = props()[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        if "--replay" in args:
            path = os.path.abspath(args[args.index("--replay") + 1])
            d = parse_replay(path)
            bins = build(pid, spec, work, [d["variant"]])
            if "history" in d:
                h = os.path.join(work, "history.txt")
                with open(h, "w") as o:
                    o.writelines(l[6:] for l in open(path) if l.startswith("case: "))
                code, out = replay_history(bins[d["variant"]], d["history"], h)
                print(out)
                if code:
                    print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1 if code else 0
            for _ in range(40 if d["variant"] == "tsan" else 1):  # any schedule
                code, out = replay(bins[d["variant"]], d["facet"], path)
                if code:
                    break
            print(out)
            if code:
                print("VIOLATION property=%s replay=%s" % (pid, path))
                return 1
            return 0
        return run(pid, spec, tier, seed, work, t0, args)
    finally:
        if "--keep" in args:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, spec, tier, seed, work, t0, args):
    thorough = tier == "thorough"
    fuzz_seconds = spec.get("fuzz_thorough", 120) if thorough else spec.get("fuzz_quick", 0)
    # (variant, share of the cases, workers): they run side by side and together use every core
    plan = spec.get("plan") or [("plain", 1.0, max(1, JOBS - 2)), ("asan", spec.get("asan_share", 0.1), 2)]
    variants = [v for v, _, _ in plan] + (["fuzz"] if fuzz_seconds else [])
    bins = build(pid, spec, work, variants)
    t_build = time.time() - t0
    scale = spec.get("thorough_scale", 20.0) if thorough else 1.0
    if "--scale" in args:
        scale *= float(args[args.index("--scale") + 1])
    cap = 480 if thorough else 400
    procs = []
    for v, share, wk in plan:
        sc = scale * share
        out = os.path.join(work, v + ".json")
        only = ["--only", args[args.index("--only") + 1]] if "--only" in args else []
        procs.append((v, out, subprocess.Popen(
            [bins[v], "run", out, "--seed", str(seed), "--scale", repr(sc),
             "--workers", str(wk), "--max-seconds", str(cap)] + only,
            env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    res = {}
    for v, out, p in procs:
        p.wait()
        try:
            res[v] = json.load(open(out))
        except Exception as e:
            raise CheckError("runner %s gave no result (%s, exit %s)" % (v, e, p.returncode))
    failures = []
    for v in res:
        f = res[v]["failure"]
        if f:
            if not f["running"] and f["kind"] != "failure":
                raise CheckError("worker of %s died outside a case: %s" % (v, f))
            failures.append((v, f))
    fuzz_stats = None
    if fuzz_seconds and not failures:
        fuzz_stats, ff = run_fuzz(pid, spec, bins, work, seed, fuzz_seconds)
        failures += ff
    violations = []
    for v, f in failures[:2]:
        path, out = report_failure(pid, bins, v, f["facet"], f["tape"], f["kind"],
                                   f["message"], f["stderr"], work)
        if path is None and "index" in f:
            share, wk = [(s, w) for n, s, w in plan if n == v][0]
            path, out = report_history(pid, bins, v, f, seed, scale * share, wk, work)
        if path is None:
            raise CheckError("failure did not replay (not reported): %s %s" % (f, out))
        violations.append((path, f, out))
    known = load_findings().get(pid, {})
    seen = {}
    for v in res:
        for sig, k in res[v]["knowns"].items():
            seen.setdefault(sig, k["detail"])
    unlisted = [s for s in seen if s not in known]
    for sig in unlisted:
        path = os.path.join(VERIF, "replays", "%s-finding-%s.txt" % (pid, re.sub(r"\W", "_", sig)))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        open(path, "w").write("%s: %s\n" % (sig, seen[sig]))
        violations.append((path, {"facet": sig, "message": seen[sig], "kind": "finding"}, seen[sig]))
    labels = {}
    facets = {}
    for v in res:
        for k, n in res[v]["labels"].items():
            labels[k] = labels.get(k, 0) + n
        for k, n in res[v]["facets"].items():
            f = facets.setdefault(k, {"cases": 0, "nontrivial": 0})
            f["cases"] += n["cases"]
            f["nontrivial"] += n["nontrivial"]
    samples = []
    for v in res:
        for smp in res[v]["samples"]:
            if len(samples) < 12 and sum(x["facet"] == smp["facet"] for x in samples) < 2:
                samples.append(smp)
    cov = {
        "evaluations": sum(r["evaluations"] for r in res.values()) + (fuzz_stats or {}).get("runs", 0),
        "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in res.values()),
        "rule": spec["rule"],
        "samples": samples or [{"facet": f["facet"], "case": o[:1500]} for _, f, o in violations],
        "facets": facets,
        "labels": labels,
        "by_variant": {v: {"evaluations": r["evaluations"], "seconds": r["seconds"],
                           "stopped_by_time": r["truncated"]} for v, r in res.items()},
        "build_seconds": round(t_build, 2),
        "known_findings_seen": sorted(seen),
    }
    if fuzz_stats:
        cov["libfuzzer"] = fuzz_stats
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
          "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for sig, text in known.items():
        if sig in seen:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, sig, text))
    print("%s %s: %d cases (%d distinct non-trivial), build %.1fs, total %.1fs" % (
        pid, tier, cov["evaluations"], cov["distinct_nontrivial"], t_build, time.time() - t0))
    if violations:
        for path, f, out in violations:
            print("--- %s %s: %s" % (f["facet"], f["kind"], f["message"]))
            print(out[-2500:])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def run_fuzz(pid, spec, bins, work, seed, seconds):
    """coverage-guided tapes (libFuzzer); failures are converted to tapes and judged by
    the sanitizer build of the runner"""
    cdir = os.path.join(work, "corpus")
    adir = os.path.join(work, "artifacts") + "/"
    os.makedirs(cdir)
    os.makedirs(adir)
    seeds = os.path.join(HARN, "corpus", pid.lower())
    dirs = [cdir] + ([seeds] if os.path.isdir(seeds) else [])
    n = JOBS
    ps = []
    for j in range(n):
        log = open(os.path.join(work, "fuzz%d.log" % j), "w")
        ps.append(subprocess.Popen(
            [bins["fuzz"], "-seed=%d" % (seed * 1000 + j + 1), "-max_total_time=%d" % seconds,
             "-max_len=%d" % spec.get("fuzz_len", 2048), "-timeout=60", "-rss_limit_mb=3000",
             "-artifact_prefix=" + adir, "-print_final_stats=1", "-reload=0" if j % 2 else "-reload=1",
             "-len_control=20"] + dirs,
            env=ENV, stdout=log, stderr=log, cwd=work))
    for p in ps:
        try:
            p.wait(timeout=seconds + 120)
        except subprocess.TimeoutExpired:
            p.kill()
    runs = cov = 0
    for j in range(n):
        t = open(os.path.join(work, "fuzz%d.log" % j), errors="replace").read()
        m = re.findall(r"stat::number_of_executed_units:\s+(\d+)", t)
        runs += int(m[-1]) if m else 0
        m = re.findall(r"cov: (\d+)", t)
        cov = max(cov, int(m[-1]) if m else 0)
    fails = []
    for a in sorted(glob.glob(adir + "*")):
        if os.path.basename(a).startswith(("slow-unit", "timeout", "oom")):
            continue
        tape = a + ".tape"
        r = subprocess.run([bins["asan"], "totape", a, tape], env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True)
        facet = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else None
        if not facet:
            continue
        for v in ("asan", "plain"):
            code, out = replay(bins[v], facet, tape)
            if code:
                fails.append((v, {"facet": facet, "tape": tape, "kind": "failure" if code == 3 else "crash",
                                  "message": (re.findall(r"FAILURE: (.*)", out) or ["crash"])[0],
                                  "stderr": ""}))
                break
        if fails:
            break
    return {"seconds": seconds, "runs": runs, "edges_covered": cov,
            "artifacts": len(glob.glob(adir + "*"))}, fails


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR:", e)
        sys.exit(2)
