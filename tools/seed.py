#!/usr/bin/env python3
"""Confirms the planted bugs of seeded/ in scratch copies (never in /repo itself).

  seed.py [--check] [ID ...]     for each seeded/<id>: apply the patch in a scratch copy
     bind-mounted over /repo (own user+mount namespace), build, run the stable tests,
     run demo.sh on the clean and on the patched tree; --check also runs the property's check.
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def ns(copy, cmd, timeout=1500, check_copy=None):
    pre = "mount --bind %s /repo && " % copy
    if check_copy:
        pre += "mount --bind %s /verif && " % check_copy
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + cmd], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def confirm(i, check):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    scratch = tempfile.mkdtemp(prefix="seed_%s_" % i, dir="/tmp")
    res = {"id": i, "property": meta["property"]}
    try:
        repo = os.path.join(scratch, "repo")
        subprocess.check_call(["cp", "-a", "/repo", repo])
        demo = os.path.join(scratch, "demo")
        shutil.copytree(d, demo)
        rc, out = ns(repo, "cd /repo && bash %s/demo.sh" % demo)
        res["demo_clean"] = rc
        if rc:
            res["out"] = out[-1500:]
        rc, out = ns(repo, "cd /repo && git apply %s/patch.diff && bash /opt/vp/build.sh" % demo)
        res["build"] = rc
        if rc:
            res["out"] = out[-1500:]
            return res
        rc, out = ns(repo, "bash /opt/vp/test.sh %s/out.json" % scratch)
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = set(base["stable"])
        got = set(json.load(open(scratch + "/out.json"))["passed"])
        res["tests_broken"] = sorted(base - got)[:6]
        rc, out = ns(repo, "cd /repo && bash %s/demo.sh" % demo)
        res["demo_patched"] = rc
        res["confirmed"] = bool(res["demo_clean"] == 0 and not res["tests_broken"] and rc)
        if check:
            vc = os.path.join(scratch, "verif")
            os.makedirs(vc)
            for f in ("check.py", "known_findings.txt"):
                shutil.copy(os.path.join(VERIF, f), vc)
            shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(vc, "harness"),
                            ignore=shutil.ignore_patterns("__pycache__"))
            for pid in [meta["property"]] + [c for c in check if c != "own"]:
                rc, out = ns(repo, "cd /verif && python3 check.py " + pid, check_copy=vc)
                res["check_" + pid] = rc
                res.setdefault("out", "")
                res["out"] += "\n".join(out.splitlines()[-14:])[:900]
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    check = ["own"] if "--check" in args else []
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(SEEDED))
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: confirm(i, check), ids):
            out = r.pop("out", "")
            print(json.dumps(r))
            if "--verbose" in args or not r.get("confirmed") or r.get("check_" + r["property"], 1) != 1:
                print("   | " + out.replace("\n", "\n   | "))
            sys.stdout.flush()


main()
