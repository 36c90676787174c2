#!/usr/bin/env python3
"""Mutation testing of the checks: small changes of /repo/src/**.cpp (in scratch, /repo is not touched)
which the unit tests let through must be caught by a check, or be equivalent.

  mutate.py OUT.jsonl [--n N] [--seed S] [--jobs J] [--file SUBSTR] [--scale X] [--noprep]
  mutate.py OUT.jsonl --guards ...    mutants which act only when a condition on an argument holds (a measure of the generators); the tests are
     not run
  mutate.py OUT.jsonl --headers ...   same for the code in the headers: the runners are compiled again,
     the unit tests are not run

Each mutant is one recompiled object linked into a private libalmath.so; the unit tests of
/repo/_build and the property runners are dynamically linked to it.
"""
import concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
W = "/tmp/mut"
CXX = ["g++", "-std=gnu++17", "-g0", "-w", "-O1", "-fPIC", "-DBOOST_CB_DISABLE_DEBUG", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS"]
INC = ["-I", V + "/harness/include", "-I", V + "/harness", "-I", REPO, "-I", "/usr/include/eigen3"]
SLOW = "ALMathTest.quaternionFromRotation3D:ALMathTest.rotation3DFromQuaternion2:ALMathTransformHelpers.position6DFromTransformInPlace:ALQuaternionTest.*"
ALL = ["C%02d" % i for i in range(1, 33)]  # the others only read headers
FIRST = {"digitalfilter": "14", "pidcontroller": "15", "shapes3d": "17", "collada": "28", "mesh.cpp": "26 27 28",
         "meshfactory": "27", "qianim": "24 25 30", "scenebuilder": "28", "urdf.cpp": "18 21 19 20 32 22 30", "traverser": "22 20",
         "dubins": "11", "tools/almath.cpp": "09 05 03 02 06 07", "almathio": "31", "helpers": "03 05 10 04 08 17 02",
         "avoid": "12 13", "axismask": "07 09", "pose2d": "06 07", "position2d": "07 06", "position3d": "07", "position6d": "07",
         "positionandvelocity": "07", "displacement": "02 03", "quaternion": "02 03 08", "alrotation.cpp": "02 03 08 10",
         "rotation3d": "07 03", "altransform.cpp": "01 08 03", "velocity": "07", "occupancy": "16"}


HEAD = {"urdf.h": "21 18 19 32 22 20", "urdfeigen": "21 20", "almatheigen": "29", "bodymass": "20", "qianim.h": "24 25", "unit.h": "24 25",
        "almathqigeometry": "33", "qigeometry.h": "33", "qirostime": "34", "rigidbodysystembuilder": "23 22", "traverser.h": "22",
        "mesh.h": "26 27 28", "meshfactory.h": "27", "colladascenebuilder.h": "28", "scenebuilder.h": "28", "colladabuilder.h": "28",
        "shapes3d": "17", "digitalfilter": "14", "pidcontroller": "15", "trigonometry": "09 03", "tools/almath.h": "09 05 03", "dubins": "11",
        "helpers": "04 03 10", "avoid": "12 13", "axismask": "07 09", "displacement": "02 07 03", "pose2d": "06 07 31", "position2d": "07 06",
        "position3d": "07 29", "position6d": "07", "positionandvelocity": "07", "quaternion": "02 03 29", "alrotation.h": "02 03 08 29",
        "rotation3d": "07 03", "transformandvel": "01 07", "altransform.h": "01 08 29", "velocity": "07 31", "occupancy": "16", "almathio": "31"}


def sh(cmd, timeout=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True)
    try:
        o = p.communicate(timeout=timeout)[0]
        return p.returncode, o.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -99, "timeout"


def strip(line):
    line = re.sub(r"//.*", "", line)
    return re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', line)


OPS = [(r"(?<=[\w\)\]]) ?\+ ?(?=[\w\(])", "-"), (r"(?<=[\w\)\]]) ?- ?(?=[\w\(])", "+"), (r"(?<=[\w\)\]]) ?\* ?(?=[\w\(])", "/"),
       (r" / |(?<=\w)/(?=\w)", "*"), (r"\+=", "-="), (r"-=", "+="), (r"<=", "<"), (r">=", ">"), (r"(?<![<>\-=])<(?![<=])(?=\s)", "<="),
       (r"(?<![<>\-=])>(?![>=])(?=\s)", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"),
       (r"(?<=[=(,]) ?-(?=[\w\(])", " "), (r"if \((?!\))", "if (!"), (r"\b1\.0f", "1.01f"), (r"\b0\.0f?\b(?!\d)", "0.001f"), (r"\b0\.5f", "0.51f"),
       (r"\b2\.0f", "2.02f"), (r"\b0\b(?![.\w])", "1"), (r"\b1\b(?![.\w])", "2"), (r"1e-(\d)", "1e-1\\1"), (r"0\.000", "0."),
       (r"\br(\d)_c1\b", "r\\1_c2"), (r"\br(\d)_c2\b", "r\\1_c1"), (r"\br(\d)_c3\b", "r\\1_c2"), (r"\br1_c(\d)\b", "r2_c\\1"), (r"\br2_c(\d)\b", "r3_c\\1"),
       (r"\.x\b", ".y"), (r"\.y\b", ".x"), (r"\.z\b", ".y"), (r"\bx\b(?!\()", "y"), (r"\by\b(?!\()", "x"), (r"\bz\b(?!\()", "x"),
       (r"\bw(x|y|z)\b", "wx"), (r"\bwx\b", "wy"), (r"(?<=\w)\.theta\b", ".x"), (r"\bMin\b", "Max"), (r"\bpMin\b", "pMax"),
       (r"\bparent\b", "child"), (r"\bchild\b", "parent"), (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"),
       (r"\bbegin\b", "rbegin"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"\bi\+1\b", "i"),
       (r"std::abs\(", "("), (r"std::fabs\(", "("), (r"\.inverse\(\)", ""), (r"\.normalize\(\)", ""), (r"\.size\(\)(?! ?-)", ".size() - 1"),
       (r"\belse if\b", "if"), (r"(?<=\()(\w[\w.]*), (\w[\w.]*)(?=\))", "\\2, \\1"), (r"(?<=, )(\w[\w.]*), (\w[\w.]*)(?=\))", "\\2, \\1"),
       (r"if \(.*\)(?= *\{?$)", "if (true)"), (r"if \(.*\)(?= *\{?$)", "if (false)"), (r"\bstd::atan2\(([\w.]+), ([\w.]+)\)", "std::atan(\\1 / \\2)"),
       (r"\bPI\b", "PI_2"), (r"\bconst (Position|Rotation|Transform|Pose|Velocity)(\w*) (\w+) = ", "static const \\1\\2 \\3 = "),
       (r"\blower_bound\b", "upper_bound"), (r"\brbegin\b", "begin"), (r"\brend\b", "end"), (r"\+\+i\b", "i += 2"), (r"< (\w+)(?=;)", "+ 1 < \\1")]


def mutants(path):
    src = open(path).read().split("\n")
    out = []
    comment = False
    body = 0
    for n, raw in enumerate(src):
        l = raw
        if comment:
            if "*/" in l:
                comment = False
            continue
        if l.strip().startswith("/*"):
            comment = "*/" not in l
            continue
        if l.strip().startswith("#") or not l.strip() or "throw" in l or "runtime_error" in l or l.strip().startswith("<<") or l.strip().startswith("assert"):
            continue
        s = strip(l)
        for rx, rep in OPS:
            for m in re.finditer(rx, s):
                new = l[:m.start()] + m.expand(rep) + l[m.end():]
                if new != l and strip(new) != s:
                    out.append((n, new))
        if re.match(r"\s+[\w\.\->\[\]\*\(\)]+(\s*[\+\-\*/]?=|\().*;\s*$", s) and not re.match(r"\s*(return|const|float|double|auto|int|bool|else|case)\b", s):
            out.append((n, re.match(r"\s*", l).group(0) + ";"))
    return src, out


def prepare(hd):
    os.makedirs(W + "/obj", exist_ok=True)
    os.makedirs(W + "/bin", exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/*/*.cpp"))
    srcs = [s for s in srcs if s.split("/")[3] in ("types", "tools", "dsp", "geometrics", "scenegraph")]
    obj = {s: W + "/obj/" + s[len(REPO) + 5:].replace("/", "_") + ".o" for s in srcs}
    def c(s):
        rc, o = sh(CXX + INC + ["-c", s, "-o", obj[s]])
        assert rc == 0, o
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(c, srcs))
    os.makedirs(W + "/base", exist_ok=True)
    rc, o = sh(["g++", "-shared", "-Wl,-Bsymbolic"] + list(obj.values()) + ["-o", W + "/base/libalmath.so"])
    assert rc == 0, o
    if hd:
        return srcs, obj
    def p(i):
        rc, o = sh([a for a in CXX if a != "-fPIC"] + ["-O2"] + INC + [V + "/harness/props/%s.cpp" % i.lower(), V + "/harness/pbt_main.cpp", "-DPBT_VARIANT=plain",
            "-L" + W + "/base", "-lalmath", "-o", W + "/bin/" + i])
        assert rc == 0, o
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(p, ALL))
    return srcs, obj


def first(path):
    return next(["C" + x for x in v.split()] for k, v in FIRST.items() if k in path)


def judge(job, obj, scale):
    k, path, n, new, src = job
    d = W + "/m%d" % k
    os.makedirs(d)
    res = {"file": path[len(REPO) + 1:], "line": n + 1, "old": src[n].strip(), "new": new.strip()}
    try:
        m = list(src)
        m[n] = new
        f = d + "/" + os.path.basename(path)
        open(f, "w").write("\n".join(m))
        rc, o = sh(CXX + INC + ["-I", os.path.dirname(path), "-c", f, "-o", d + "/m.o"], 200)
        if rc:
            res["verdict"] = "invalid"
            return res
        rc, o = sh(["g++", "-shared", "-Wl,-Bsymbolic", d + "/m.o"] + [v for s, v in obj.items() if s != path] + ["-o", d + "/libalmath.so"], 100)
        if rc:
            res["verdict"] = "invalid"
            return res
        env = dict(os.environ, LD_LIBRARY_PATH=d, LC_ALL="C.UTF-8", TMPDIR=d)
        scene = "/scenegraph/" in path
        tests = ["almath_tests"] if not scene else []
        tests += [os.path.basename(t) for t in glob.glob(REPO + "/_build/sdk/bin/test_*")]
        for t in tests:
            rc, o = sh([REPO + "/_build/sdk/bin/" + t, "--gtest_filter=-" + SLOW], 60, env)
            if rc:
                res["verdict"] = "tests"
                return res
        order = first(path) + [i for i in ALL if i not in first(path)]
        for j, i in enumerate(order):
            sc = scale if i in first(path) else scale * .15
            rc, o = sh([W + "/bin/" + i, "run", d + "/o.json", "--seed", "7", "--scale", repr(sc), "--workers", "1", "--max-seconds", "120"], 400, env)
            try:
                r = json.load(open(d + "/o.json"))
                bad = r["failure"]
                if bad:
                    res["verdict"] = "caught"
                    res["by"] = i
                    res["own"] = i in first(path)
                    res["msg"] = bad["message"][:200]
                    return res
                os.remove(d + "/o.json")
            except Exception as e:
                res["verdict"] = "caught"
                res["by"] = i
                res["msg"] = "no result %s %s" % (rc, e)
                return res
        for t in (["almath_tests"] if not scene else []):
            rc, o = sh([REPO + "/_build/sdk/bin/" + t, "--gtest_filter=" + SLOW], 120, env)
            if rc:
                res["verdict"] = "tests"
                return res
        res["verdict"] = "SURVIVED"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# guarded mutants: the change only acts for a narrow part of the arguments (is it generated often enough?)
FLD = {"Transform": ["r1_c1 < -0.999f", "r3_c3 == 1.0f", "r1_c4 > 50.0f", "r2_c2 > 0.9999f", "r1_c1 + {p}r2_c2 + {p}r3_c3 < -0.999f", "r3_c1 > 0.999f",
                     "r3_c4 == 0.0f", "r1_c1 + {p}r2_c2 + {p}r3_c3 > 2.9999f", "r2_c1 < 0 && {p}r3_c2 > 0.7f"],
       "Rotation": ["r1_c1 < -0.999f", "r3_c3 == 1.0f", "r2_c2 > 0.9999f", "r1_c1 + {p}r2_c2 + {p}r3_c3 < -0.999f", "r3_c1 > 0.999f",
                    "r1_c1 + {p}r2_c2 + {p}r3_c3 > 2.9999f"],
       "Rotation3D": ["wx > 4.0f", "wy > 1.57f && {p}wy < 1.572f", "wz == 0.0f", "wy < -3.0f", "wx < 0 && {p}wx > -1e-3f"],
       "Quaternion": ["w < 0.0f", "w > 0.9999f", "w < 0.001f && {p}w > -0.001f", "x == 0.0f", "z < -0.99f"],
       "Displacement": ["P.x > 10.0f", "Q.w < 0.0f"], "Pose2D": ["theta > 7.0f", "theta > 3.1f && {p}theta < 3.15f", "x == 0.0f", "y > 100.0f",
                    "theta < 0 && {p}theta > -0.01f", "x < 0 && {p}y < 0 && {p}theta < 0"],
       "Position2D": ["x > 100.0f", "y == 0.0f", "x == {p}y", "x < 0 && {p}x > -0.01f"],
       "Position3D": ["x > 100.0f", "y == 0.0f", "x == 0.0f && {p}z == 0.0f", "z < 0 && {p}z > -0.01f"],
       "Position6D": ["x > 100.0f", "wy == 0.0f", "wx > 3.0f", "wz < 0 && {p}wz > -0.01f"], "Velocity3D": ["xd > 50.0f", "yd == 0.0f"],
       "Velocity6D": ["xd > 50.0f", "wyd == 0.0f", "wxd > 3.0f", "wzd < 0 && {p}wzd > -0.01f", "wxd == 0.0f && {p}wyd == 0.0f"],
       "PositionAndVelocity": ["q > 50.0f", "dq == 0.0f"]}
NUM = ["{p} > 100.0f", "{p} < -100.0f", "{p} == 0", "{p} > 0 && {p} < 1e-3f", "{p} < 0 && {p} > -0.01f", "{p} > 3.14f && {p} < 3.1424f", "{p} == 1"]
INT = ["{p} > 20", "{p} == 1", "{p} == 0", "{p} == 3"]
SEQ = ["{p}.size() > 16", "{p}.size() == 1", "{p}.empty()", "{p}.size() == 5"]
STR = ["{p}.size() > 20", "{p}.empty()", "{p}.find('_') != std::string::npos", "{p} > \"m\"", "{p}.size() == 1"]


def guards(text, fname):
    """guards over the parameters of the function whose definition comes last in text"""
    ms = [m for m in re.finditer(r"([\w:~]+)\s*\(([^;{}()]*)\)\s*(?:const)?\s*(?::[^{};]*)?\{", text) if m.group(1) not in ("if", "for", "while", "switch", "catch", "BOOST_FOREACH")]
    if not ms:
        return []
    m = ms[-1]
    out = []
    for a in m.group(2).split(","):
        w = re.findall(r"[\w:<>]+", a.split("=")[0])
        if len(w) < 2:
            continue
        n, t = w[-1], " ".join(x for x in w[:-1] if x != "const").split("::")[-1]
        if t in FLD:
            out += [g.replace("{p}", n + ".") if "{p}" in g else g for g in [("{p}" + g) for g in FLD[t]]]
            out = [g.replace("{p}", n + ".") for g in out]
        elif t in ("float", "double"):
            out += [g.replace("{p}", n) for g in NUM]
        elif t in ("int", "unsigned", "size_t", "unsigned int"):
            out += [g.replace("{p}", n) for g in INT]
        elif "vector" in " ".join(w[:-1]):
            out += [g.replace("{p}", n) for g in SEQ]
        elif t == "string":
            out += [g.replace("{p}", n) for g in STR]
    c = m.group(1).split("::")
    if len(c) > 1 and c[-2] in FLD:
        out += [("{p}" + g).replace("{p}", "this->") for g in FLD[c[-2]]]
    return out


def guarded(src, n, new, g):
    old = src[n]
    ind = re.match(r"\s*", old).group(0)
    o, w = old.strip(), new.strip()
    if re.sub(r"//.*", "", o) != o or o.count("(") != o.count(")") or w.count("(") != w.count(")"):
        return None
    mo, mw = re.match(r"if \((.*)\)( \{)?$", o), re.match(r"if \((.*)\)( \{)?$", w)
    if mo and mw:
        return ind + "if ((%s) ? bool(%s) : bool(%s))%s" % (g, mw.group(1), mo.group(1), mo.group(2) or "")
    mo, mw = re.match(r"((?:const )?(?:float|double|int|bool) \w+) *= *(.*);$", o), re.match(r"((?:const )?(?:float|double|int|bool) \w+) *= *(.*);$", w)
    if mo and mw and mo.group(1) == mw.group(1):
        return ind + "%s = (%s) ? (%s) : (%s);" % (mo.group(1), g, mw.group(2), mo.group(2))
    if o.endswith(";") and w.endswith(";") and re.match(r"(return\b|[\w.\->\[\]:]+ *([-+*/]?=|\())", o) and src[n - 1].strip().endswith((";", "{", "}", "")) and not re.match(r"(const|for|auto)\b", o):
        if not src[n - 1].strip() or src[n - 1].strip()[-1] in ";{}":
            return ind + "if (%s) { %s } else { %s }" % (g, w, o)
    return None


def judge_guard(job, obj, scale):
    k, path, n, new, src, g = job
    d = W + "/m%d" % k
    os.makedirs(d)
    res = {"file": path[len(REPO) + 1:], "line": n + 1, "old": src[n].strip(), "new": new.strip(), "guard": g}
    try:
        for step, text in (("base", new), ("guard", guarded(src, n, new, g))):
            m = list(src)
            m[n] = text
            f = d + "/" + os.path.basename(path)
            open(f, "w").write("\n".join(m))
            rc, o = sh(CXX + INC + ["-I", os.path.dirname(path), "-c", f, "-o", d + "/m.o"], 200)
            if not rc:
                rc, o = sh(["g++", "-shared", "-Wl,-Bsymbolic", d + "/m.o"] + [v for s, v in obj.items() if s != path] + ["-o", d + "/libalmath.so"], 100)
            if rc:
                res["verdict"] = "invalid"
                return res
            env = dict(os.environ, LD_LIBRARY_PATH=d, LC_ALL="C.UTF-8", TMPDIR=d)
            caught = False
            for i in first(path):
                rc, o = sh([W + "/bin/" + i, "run", d + "/o.json", "--seed", "7", "--scale", repr(scale), "--workers", "1", "--max-seconds", "200"], 400, env)
                try:
                    bad = json.load(open(d + "/o.json"))["failure"]
                    os.remove(d + "/o.json")
                except Exception as e:
                    bad = {"message": "no result %s %s" % (rc, e)}
                if bad:
                    caught = True
                    res.update(by=i, msg=bad["message"][:200])
                    break
            if step == "base" and not caught:
                res["verdict"] = "base"
                return res
        res["verdict"] = "caught" if caught else "SURVIVED"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge_header(job, scale):
    k, path, n, new, src = job
    d = W + "/m%d" % k
    os.makedirs(d)
    res = {"file": path[len(REPO) + 1:], "line": n + 1, "old": src[n].strip(), "new": new.strip()}
    try:
        m = list(src)
        m[n] = new
        f = d + "/" + path[len(REPO) + 1:]
        os.makedirs(os.path.dirname(f))
        open(f, "w").write("\n".join(m))
        env = dict(os.environ, LD_LIBRARY_PATH=W + "/base", TMPDIR=d)
        for i in ["C" + x for x in next(v for h, v in HEAD.items() if h in path).split()]:
            rc, o = sh([a for a in CXX if a != "-fPIC"] + ["-I", d] + INC + [V + "/harness/props/%s.cpp" % i.lower(), V + "/harness/pbt_main.cpp",
                "-DPBT_VARIANT=plain", "-L" + W + "/base", "-lalmath", "-o", d + "/run"], 600, env)
            if rc:
                res["verdict"] = "invalid"
                return res
            rc, o = sh([d + "/run", "run", d + "/o.json", "--seed", "7", "--scale", repr(scale), "--workers", "1", "--max-seconds", "120"], 400, env)
            try:
                bad = json.load(open(d + "/o.json"))["failure"]
            except Exception as e:
                bad = {"message": "no result %s %s" % (rc, e)}
            if bad:
                res.update(verdict="caught", by=i, msg=bad["message"][:200])
                return res
        res["verdict"] = "SURVIVED"
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv
    def opt(n, d, t=str):
        return t(a[a.index(n) + 1]) if n in a else d
    rnd = random.Random(opt("--seed", 1, int))
    if "--noprep" not in a:
        shutil.rmtree(W, ignore_errors=True)
    hd = "--headers" in a
    srcs, obj = prepare(hd)
    if hd:
        srcs = sorted(glob.glob(REPO + "/almath/**/*.h*", recursive=True))
    jobs = []
    for s in srcs:
        if opt("--file", "") not in s:
            continue
        src, ms = mutants(s)
        jobs += [(s, n, new, src) for n, new in ms]
    rnd.shuffle(jobs)
    if "--guards" in a:
        g2 = []
        for s, n, new, src in jobs:
            gs = guards("\n".join(src[:n]), s)
            if gs:
                g = rnd.choice(gs)
                if guarded(src, n, new, g):
                    g2.append((s, n, new, src, g))
        jobs = g2
    print(len(jobs), "mutants in all")
    jobs = jobs[:opt("--n", 400, int)]
    cnt = {}
    with open(a[1], "a") as out, cf.ThreadPoolExecutor(opt("--jobs", 8, int)) as ex:
        for r in cf.as_completed([ex.submit(*((judge_header, (k,) + j) if hd else (judge_guard if "--guards" in a else judge, (k,) + j, obj)), opt("--scale", .1, float)) for k, j in enumerate(jobs)]):
            r = r.result()
            cnt[r["verdict"]] = cnt.get(r["verdict"], 0) + 1
            out.write(json.dumps(r) + "\n")
            out.flush()
    print(cnt)


main()
