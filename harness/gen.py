"""Sources made from the parts of the repository which other compilers read:
- almath.i: the functions added to the classes for scripts (%extend blocks), as C++;
- qi/geometry/geometry.idl.qi: the structures of the messages, as C++.
"""
import os, re


class GenError(Exception):
    pass


def body(text, at):
    """the text between the brace at `at` and its match (strings and comments skipped), and its end"""
    depth, i = 0, at
    rx = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|[{}]', re.S)
    while True:
        m = rx.search(text, i)
        if not m:
            raise GenError("unbalanced braces in almath.i")
        i = m.end()
        if m.group(0) == "{":
            depth += 1
        elif m.group(0) == "}":
            depth -= 1
            if not depth:
                return text[at + 1:m.start()], m.end()


def swig(repo, out):
    t = open(os.path.join(repo, "almath.i")).read()
    inc = [m for m in re.findall(r"%\{(.*?)%\}", t, re.S)]
    inc = [l for b in inc for l in b.splitlines() if l.strip().startswith("#include")]
    classes = []
    for m in re.finditer(r"%extend\s+([\w:]+\s*(?:<[^{]*>)?)\s*\{", t):
        if t[:m.start()].rsplit("\n", 1)[-1].strip().startswith("//"):
            continue
        name = re.sub(r"\s+", "", m.group(1))
        b, _ = body(t, m.end() - 1)
        if name.startswith("vector<"):
            name = "std::" + name
        classes.append((name, b.replace("$self", "self_")))
    if not classes:
        raise GenError("no %extend block in almath.i")
    o = ["// made from almath.i", "#pragma once", "#include <string>", "#include <vector>", "#include <sstream>",
         "#include <cstdio>"] + inc + ["namespace script {", "template <class T> struct Ext;", "}"]
    plain = [(n, b) for n, b in classes if not n.startswith("std::") and "__repr__" in b]
    for n, b in plain:
        o.append("static char *%s___repr__(%s *);" % (n.replace("::", "_"), n))
    o.append("namespace script {")
    seen = {}
    for n, b in classes:  # several blocks may extend the same class
        seen[n] = seen.get(n, "") + b
    for n, b in seen.items():
        o.append("template <> struct Ext<%s> {\n  %s *self_;\n%s};" % (n, n, b))
    o.append("}")
    for n, b in plain:
        f = n.replace("::", "_")
        o.append("static char *%s___repr__(%s *p) { return (char *)script::Ext<%s>{p}.__repr__(); }" % (f, n, n))
    open(os.path.join(out, "almath_i.h"), "w").write("\n".join(o) + "\n")


def idl(repo, out):
    t = open(os.path.join(repo, "qi/geometry/geometry.idl.qi")).read()
    types = {"float64": "double", "float32": "float", "int32": "int", "bool": "bool"}
    o = ["// made from geometry.idl.qi", "#pragma once", "#include <cassert>", "#include <cmath>", "#include <iostream>",
         "namespace qi { namespace geometry {"]
    for m in re.finditer(r"^\s*struct\s+(\w+)[^\n]*\n(.*?)^\s*end\b", t, re.S | re.M):
        f = re.findall(r"^\s*(\w+)\s*:\s*(\w+)\s*$", re.sub(r"(//|#)[^\n]*", "", m.group(2)), re.M)
        if any(k not in types for _, k in f):
            continue  # time points
        o.append("struct %s { %s };" % (m.group(1), " ".join("%s %s;" % (types[k], n) for n, k in f)))
        types[m.group(1)] = m.group(1)
    if "Transform" not in types:
        raise GenError("no Transform in geometry.idl.qi")
    o.append("} }")
    d = os.path.join(out, "qi/geometry")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "geometry.hpp"), "w").write("\n".join(o) + "\n")


MAKERS = {"swig": swig, "idl": idl}
