"""The C interface: header and linker export list against the exported functions of the crate (types taken from the compiler)."""
import json, os, re, shutil, subprocess, tempfile

import extract
import std_checks as D
from engine import Result, OK, BAD, UNK, MissingAnchor

HEADER = "stdlib/include/qir_stdlib.h"
DEF = "stdlib/include/qir_stdlib.def"
CRATE = "qir_stdlib"
INTS = {"signed char": 1, "unsigned char": 1, "char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8,
        "unsigned long": 8, "long long": 8, "unsigned long long": 8}


class HeaderError(Exception):
    pass


def header_ast():
    """Declarations of the header as clang's C++ front end sees them (parsed only, nothing is compiled or run)."""
    h = os.path.join(extract.REPO, HEADER)
    if not os.path.exists(h):
        raise MissingAnchor(HEADER)
    exe = shutil.which("clang++") or shutil.which("clang++-18")
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "h.cpp")
        open(src, "w").write('#include "%s"\n' % h)
        p = subprocess.run([exe, "-std=c++17", "-fsyntax-only", "-Xclang", "-ast-dump=json", src], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=120)
    if p.returncode:
        raise HeaderError(p.stderr[-600:])
    root = json.loads(p.stdout)
    fns, enums = {}, {}

    def walk(n):
        k = n.get("kind")
        if k == "FunctionDecl" and not n.get("isImplicit"):
            ps = [q["type"] for q in n.get("inner", []) if q.get("kind") == "ParmVarDecl"]
            q = n["type"]["qualType"]
            ret = q[:q.index("(")].strip()
            attrs = {a.get("kind") for a in n.get("inner", []) if a.get("kind", "").endswith("Attr")}
            fns[n["name"]] = dict(ret=ret, params=[t.get("desugaredQualType") or t["qualType"] for t in ps],
                                  link=n.get("mangledName"), noreturn=any("NoReturn" in a for a in attrs) or "noreturn" in q,
                                  variadic=n.get("variadic", False))
            return
        if k == "EnumDecl" and n.get("name"):
            vals, nxt = [], 0
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    for e in c.get("inner", []):
                        if e.get("kind") == "ConstantExpr" and "value" in e:
                            nxt = int(e["value"])
                    vals.append((c["name"], nxt))
                    nxt += 1
            u = n.get("fixedUnderlyingType")
            enums[n["name"]] = dict(vals=vals, under=(u.get("desugaredQualType") or u["qualType"]) if u else "unsigned int")
        if k == "TypedefDecl":
            tds[n["name"]] = n["type"].get("desugaredQualType") or n["type"]["qualType"]
        for c in n.get("inner", []):
            walk(c)

    tds = {}
    walk(root)
    ours = {n: f for n, f in fns.items() if re.match(r"_*quantum__", n)}
    return ours, enums, tds


def ckind(t, enums, tds, depth=0):
    """Calling-convention kind of a C type: void, bool, double, float, ('int', bytes) or ('ptr', pointee name)."""
    t = re.sub(r"\b(const|volatile|struct|enum)\b", "", t).strip()
    t = re.sub(r"\s+", " ", t)
    if t.endswith("*") or t.endswith("&"):
        return ("ptr", t[:-1].strip())
    if "(*)" in t:
        return ("ptr", "fn")
    if t in ("void", "bool", "double", "float"):
        return (t,)
    if t == "_Bool":
        return ("bool",)
    if t in INTS:
        return ("int", INTS[t])
    if t in enums:
        return ("enum", t, ckind(enums[t]["under"], enums, tds)[1])
    if t in tds and depth < 8:
        return ckind(tds[t], enums, tds, depth + 1)
    return ("other", t)


def rkind(t):
    if t.k == "ptr" or t.k == "ref" or t.k == "fnptr":
        return ("ptr", t.elem.s if t.elem is not None else "?")
    if t.s == "()" or t.s == "!":
        return ("void",)
    if t.s in ("bool",):
        return ("bool",)
    if t.s == "f64":
        return ("double",)
    if t.s == "f32":
        return ("float",)
    if re.fullmatch(r"[iu](8|16|32|64|size)", t.s):
        return ("int", t.size or {"8": 1, "16": 2, "32": 4, "64": 8, "size": 8}[t.s[1:]])
    if t.k == "enum" and not any(v[2] for v in t.variants):
        return ("enum", t.s, t.size)
    if t.k == "struct" and len(t.variants) == 1 and len(t.variants[0][2]) >= 1:
        live = [f for f in t.variants[0][2] if f[1].size]
        if len(live) == 1:
            return rkind(live[0][1])    # single-field wrapper
    return ("other", t.s)


def same_kind(c, r):
    if c[0] == "other" or r[0] == "other":
        return None
    if c[0] == r[0] == "ptr":
        return True
    if c[0] in ("int", "enum") and r[0] in ("int", "enum"):
        return c[-1] == r[-1]
    # an 8-bit integer and a bool are passed alike
    return c == r


def show_kind(k):
    return {"ptr": "pointer", "int": "%d-byte integer" % (k[-1] if k[0] in ("int", "enum") else 0), "enum": "%s-byte enumeration" % k[-1]}.get(k[0], k[0])


def def_entries():
    p = os.path.join(extract.REPO, DEF)
    if not os.path.exists(p):
        raise MissingAnchor(DEF)
    out, on = [], False
    for l in open(p):
        l = l.split(";", 1)[0].strip()
        if not l:
            continue
        w = l.split()
        if w[0].upper() == "EXPORTS":
            on, w = True, w[1:]
        elif w[0].upper() in ("LIBRARY", "NAME", "DESCRIPTION", "STACKSIZE", "SECTIONS", "VERSION"):
            on = w[0].upper() == "EXPORTS"
            continue
        if on and w:
            n = w[0]
            rest = " ".join(w[1:])
            m = re.match(r"=\s*(\S+)", rest)
            if "=" in n:
                a, b = n.split("=", 1)
            elif m:
                a, b = n, m.group(1)
            else:
                a = b = n
            out.append((a, b, "DATA" in rest.upper().split(), "PRIVATE" in rest.upper().split()))
    return out


def obligations_C27(prog, tier):
    obs = []
    cache = {}

    def hdr():
        if "v" not in cache:
            cache["v"] = header_ast()
        return cache["v"]

    def one(name, anchor, f):
        def thunk():
            try:
                why = f()
            except HeaderError as e:
                return Result(BAD, "the header does not parse: %s" % e, 1)
            if isinstance(why, tuple):
                return Result(UNK, why[1], 0)
            return Result(BAD, why, 1) if why else Result(OK, "", 1)
        obs.append((name, anchor, thunk))

    try:
        fns, enums, tds = hdr()
        err = None
    except HeaderError as e:
        fns, enums, tds, err = {}, {}, {}, str(e)
    ents = def_entries()
    one("header-parses", HEADER, lambda: ("the header does not parse: " + err) if err else None)
    if err:
        return obs
    # opaque handle types: the Rust object each of them stands for
    maps = {}
    for n, f in fns.items():
        e = prog.exports.get(n)
        if e is None or len(e["ins"]) != len(f["params"]):
            continue
        for ct, rt in list(zip(f["params"], e["ins"])) + [(f["ret"], e["out"])]:
            ck = ckind(ct, enums, tds)
            if ck[0] == "ptr" and ck[1].startswith("Qir") and rt.k == "ptr" and rt.elem is not None:
                t = rt.elem
                if t.k in ("struct", "enum") and not re.search(r"c_void", t.s):
                    maps.setdefault(t.s, {}).setdefault(ck[1], []).append(n)

    def exported(n):
        def f():
            e = prog.exports.get(n)
            if e is None:
                return "%s is declared in the header but no function of the library is exported under that name" % n
            if e["crate"] != CRATE:
                return "%s is declared in the standard library's header but exported by %s" % (n, e["crate"])
            if fns[n]["link"] not in (None, n):
                return "%s is declared without C linkage (linker name %s)" % (n, fns[n]["link"])
            if not e["abi"].startswith("C"):
                return "%s is exported with calling convention %s" % (n, e["abi"])
            if fns[n]["variadic"] != e["cvar"]:
                return "%s is variadic on one side only" % n
        return f

    def signature(n):
        def f():
            e = prog.exports.get(n)
            if e is None:
                return "%s is not exported" % n
            c = [ckind(t, enums, tds) for t in fns[n]["params"]]
            r = [rkind(t) for t in e["ins"]]
            if len(c) != len(r):
                return "%s takes %d parameters in the header and %d in the library" % (n, len(c), len(r))
            for i, (a, b) in enumerate(zip(c, r)):
                s = same_kind(a, b)
                if s is None:
                    return ("unk", "no kind for parameter %d of %s: %s / %s" % (i, n, a, b))
                if not s:
                    return "parameter %d of %s is a %s in the header and a %s in the library" % (i + 1, n, show_kind(a), show_kind(b))
            a, b = ckind(fns[n]["ret"], enums, tds), rkind(e["out"])
            if fns[n]["noreturn"] and a[0] == "void" and b[0] == "void":
                return None
            s = same_kind(a, b)
            if s is None:
                return ("unk", "no kind for the result of %s: %s / %s" % (n, a, b))
            if not s:
                return "the result of %s is a %s in the header and a %s in the library" % (n, show_kind(a), show_kind(b))
        return f

    def handle(n):
        def f():
            e = prog.exports.get(n)
            if e is None or len(e["ins"]) != len(fns[n]["params"]):
                return None
            for ct, rt in list(zip(fns[n]["params"], e["ins"])) + [(fns[n]["ret"], e["out"])]:
                ck = ckind(ct, enums, tds)
                if ck[0] == "ptr" and rt.k == "ptr" and rt.elem is not None and rt.elem.s in maps and ck[1].startswith("Qir"):
                    m = maps[rt.elem.s]
                    best = max(m, key=lambda k: len(m[k]))
                    if best != ck[1]:
                        return "%s passes a %s where the library expects the object behind %s (%s)" % (n, ck[1], best, rt.elem.s)
        return f

    for n in sorted(fns):
        e = prog.exports.get(n)
        anchor = "%s: %s / %s" % (HEADER, n, e["path"] if e else "?")
        one("exported:" + n, anchor, exported(n))
        one("signature:" + n, anchor, signature(n))
        one("handle:" + n, anchor, handle(n))
        if fns[n]["noreturn"]:
            if n.endswith("rt__fail"):
                obs.append(("noreturn:" + n, anchor, lambda: D.check_fail(prog, "x")))
            else:
                one("noreturn:" + n, anchor, lambda: ("unk", "no analysis of divergence for this function"))
        one("listed:" + n, DEF, lambda n=n: None if any(a == n for a, _, _, pr in ents if not pr)
            else "%s is declared in the header but missing from the linker export list" % n)
    for a, b, data, private in ents:
        def f(a=a, b=b, data=data):
            e = prog.exports.get(b)
            if e is None:
                return "the linker export list names %s, which the library does not define" % b
            if e["crate"] != CRATE:
                return "the linker export list names %s, which is not part of the standard library" % b
            if a != b:
                return "the linker export list binds %s to the implementation of %s" % (a, b)
            if data:
                return "the linker export list marks the function %s as data" % a
            if a not in fns:
                return "%s is in the linker export list but not declared in the header" % a
        one("def-entry:" + a, DEF, f)

    def dups():
        seen = {}
        for a, b, _, _ in ents:
            if seen.setdefault(a, b) != b:
                return "the linker export list binds %s twice, to %s and %s" % (a, seen[a], b)
    one("def-unique", DEF, dups)

    def pauli():
        t = next((t for s, t in prog.types.items() if s == "qir_stdlib::Pauli"), None)
        if t is None or t.k != "enum" or "PauliId" not in enums:
            return ("unk", "no Pauli enumeration on one side")
        h = {n.rsplit("_", 1)[-1]: v for n, v in enums["PauliId"]["vals"]}
        r = {v[0]: v[1] for v in t.variants}
        r = {k: (v - 256 if v is not None and v > 127 else v) for k, v in r.items()}
        if h != r:
            return "PauliId in the header is %s, the library's Pauli is %s" % (h, r)
        size = ckind("PauliId", enums, tds)[-1]
        if size != t.size:
            return "PauliId takes %d byte(s) in the header, the library's Pauli %d" % (size, t.size)
    one("pauli-values", HEADER + ": PauliId / stdlib/src/lib.rs: Pauli", pauli)

    def rng():
        t = next((t for s, t in prog.types.items() if s == "qir_stdlib::range_support::Range"), None)
        if t is None or t.k != "struct" or not t.off or len(t.variants) != 1:
            return ("unk", "no Range structure")
        got = sorted((o, f[0], f[1].s) for o, f in zip(t.off, t.variants[0][2]))
        want = [(0, "start", "i64"), (8, "step", "i64"), (16, "end", "i64")]
        if sorted(f[1] for f in got) != ["end", "start", "step"]:
            return ("unk", "Range has fields %s" % [f[1] for f in got])
        if got != want:
            return "a range value is laid out as %s, QIR programs pass { i64 start, i64 step, i64 end }" % (got,)
    one("range-layout", "stdlib/src/range_support.rs: Range", rng)

    # every other exported function: C calling convention, and passed by value only what C can pass
    for n, e in sorted(prog.exports.items()):
        if not re.match(r"_*quantum__", n):
            continue

        def f(n=n, e=e):
            if not e["abi"].startswith("C"):
                return "%s is exported with calling convention %s" % (n, e["abi"])
            if e["cvar"]:
                return ("unk", "variadic")
        one("convention:" + n, e["path"], f)
    return obs
