"""Loads the MIR dumps written by the driver and links them across crates."""
import gc, json, os


class Ty:
    __slots__ = ("s", "k", "elem", "mut", "n", "fields", "variants", "path", "args", "drop", "hasdrop", "body", "iters", "size", "off")

    def __init__(self):
        self.elem = self.n = self.path = self.drop = self.body = self.iters = self.size = self.off = None
        self.mut = self.hasdrop = False
        self.fields = []
        self.variants = []
        self.args = []

    def __repr__(self):
        return "Ty(%s)" % self.s


class Fn:
    __slots__ = ("kind", "p", "crate", "local", "sym", "args", "span", "trait", "name", "argc", "locals", "spread", "vars", "dump", "_raw", "_dec", "args_ctx")

    def __repr__(self):
        return "Fn(%s)" % self.p

    @property
    def has_body(self):
        return self._raw is not None

    @property
    def blocks(self):
        if self._dec is None and self._raw is not None:
            P, tys, fns = self.args_ctx
            self._dec = [P._block(b, tys, fns) for b in self._raw]
        return self._dec


class Program:
    def __init__(self, dumpdir, crates=("qir_stdlib", "quantum_sparse_sim", "qir_backend"), extra=()):
        self.types = {}      # canonical string -> Ty
        self.by_sym = {}     # symbol -> Fn with a body
        self.fns = []        # all local functions with bodies
        self.vtabs = {}
        self.by_path = {}    # def path -> [Fn]
        self.exports = {}    # exported symbol -> dict
        self.statics = []
        self.crates = {}
        gc.disable()
        for c in tuple(crates) + tuple(extra):
            self._load(c, json.load(open(os.path.join(dumpdir, c + ".json"))))
        gc.freeze()
        gc.enable()

    def _load(self, crate, d):
        tys = []
        fresh = []
        for t in d["types"]:
            # closures and fn items print the same for different instances: key them by crate and position
            key = t["s"]
            if t["k"] in ("closure", "fndef") or "{closure" in key or "{fn item" in key or "impl " in key:
                key = "%s@%s#%d" % (key, crate, len(tys))
            ty = self.types.get(key)
            if ty is None:
                ty = Ty()
                ty.s, ty.k = t["s"], t["k"]
                self.types[key] = ty
                fresh.append((ty, t))
            tys.append(ty)
        fns = []
        for f in d["fns"]:
            g = Fn()
            g.kind, g.p, g.crate, g.local, g.sym = f["kind"], f["p"], f["crate"], f["local"], f["sym"]
            g.args, g.span, g.trait, g.name = [tys[a] for a in f["a"]], f["span"], f.get("tr"), f.get("name")
            g._raw = g._dec = None
            g.args_ctx = (self, tys, fns)
            g.dump = crate
            b = f.get("b")
            if b:
                g.argc, g.locals, g.spread, g.vars = b["argc"], [tys[x] for x in b["locals"]], b["spread"], b["vars"]
                g._raw = b["blocks"]
            fns.append(g)
        for ty, t in fresh:
            if "e" in t:
                ty.elem = tys[t["e"]]
            ty.mut = t.get("m", False)
            ty.size, ty.off = t.get("sz"), t.get("off")
            ty.n = t.get("n")
            ty.path = t.get("p")
            ty.args = [tys[a] for a in t.get("a", [])]
            ty.fields = [tys[x] for x in t.get("f", [])]
            ty.variants = [(n, disc, [(fn, tys[ft]) for fn, ft in fs]) for n, disc, fs in t.get("v", [])]
            if "drop" in t:
                ty.drop = fns[t["drop"]]
            ty.hasdrop = t.get("hasdrop", False)
            if "body" in t:
                ty.body = fns[t["body"]]
        for ti, o in d["iters"]:
            if tys[ti].iters is None:
                tys[ti].iters = {k: fns[v] for k, v in o.items()}
        for ti, ui, ms in d.get("vtabs", []):
            self.vtabs.setdefault(tys[ti].s, []).append((tys[ui].s, {k: fns[v] for k, v in ms}))
        # decode in place: replace type / instance indices by objects
        for g in fns:
            if g._raw is not None:
                if g.sym and (g.sym not in self.by_sym):
                    self.by_sym[g.sym] = g
                if g.local:
                    self.fns.append(g)
                    self.by_path.setdefault(g.p, []).append(g)
        for e in d["exports"]:
            self.exports[e["name"]] = dict(fn=fns[e["i"]], path=e["p"], name=e["name"], abi=e["abi"],
                                           ins=[tys[x] for x in e["in"]], out=tys[e["out"]], crate=crate, span=e["span"],
                                           vis=e["vis"], cvar=e["cvar"])
        for s in d["statics"]:
            s = dict(s)
            s["ty"], s["crate"] = tys[s["ty"]], crate
            self.statics.append(s)
        self.crates[crate] = dict(roots=[fns[i] for i in d["roots"]], fns=fns, types=tys)

    def resolve(self, fn):
        """The function with a body for this instance, looking across crates."""
        if fn._raw is not None:
            return fn
        if fn.sym:
            return self.by_sym.get(fn.sym)
        return None

    # ---- decoding
    def _block(self, b, tys, fns):
        if b is None:
            return None
        ss, t, line = b
        out = []
        for s in ss:
            if s[0] == "=":
                out.append(("=", self._place(s[1], tys), self._rv(s[2], tys, fns), s[3]))
            elif s[0] == "sd":
                out.append(("sd", self._place(s[1], tys), s[2]))
            elif s[0] == "cno":
                out.append(("cno", self._op(s[1], tys, fns), self._op(s[2], tys, fns), self._op(s[3], tys, fns)))
        k = t[0]
        if k == "switch":
            t = ("switch", self._op(t[1], tys, fns), [tuple(x) for x in t[2]], t[3], tys[t[4]])
        elif k == "drop":
            t = ("drop", self._place(t[1], tys), t[2], tys[t[3]])
        elif k == "call":
            t = ("call", self._op(t[1], tys, fns), [self._op(a, tys, fns) for a in t[2]], self._place(t[3], tys), t[4], t[5])
        elif k == "assert":
            t = ("assert", self._op(t[1], tys, fns), t[2], t[3], t[4], t[5])
        else:
            t = tuple(t)
        return (out, t, line)

    def _place(self, p, tys):
        proj = []
        for e in p[1]:
            if e == "*":
                proj.append(("*",))
            elif e[0] == "f":
                proj.append(("f", e[1], tys[e[2]]))
            else:
                proj.append(tuple(e))
        return (p[0], tuple(proj))

    def _op(self, o, tys, fns):
        k = o[0]
        if k in ("c", "m"):
            return (k, self._place(o[1], tys))
        if k == "k":
            return ("k", self._const(o[1], tys, fns), tys[o[2]], o[3])
        return (k,)

    def _const(self, c, tys, fns):
        k = c[0]
        if k == "fn":
            r = c[1]
            return ("fn", fns[r["i"]] if "i" in r else None, r["p"], r.get("tr"), [tys[a] for a in r["a"]])
        if k == "agg":
            return ("agg", tys[c[1]], c[2], [self._const(x, tys, fns) for x in c[3]])
        if k == "slice":
            return ("slice", tys[c[1]], [self._const(x, tys, fns) for x in c[2]])
        if k == "ref":
            return ("ref", self._const(c[1], tys, fns))
        if k == "zst":
            return ("zst", tys[c[1]])
        if k == "bits":
            return ("bits", c[1], tys[c[2]])
        if k == "fnp":
            return ("fnp", fns[c[1]], c[2])
        return tuple(c)

    def _rv(self, r, tys, fns):
        k = r[0]
        if k == "use":
            return ("use", self._op(r[1], tys, fns))
        if k == "rep":
            return ("rep", self._op(r[1], tys, fns), r[2])
        if k == "ref":
            return ("ref", self._place(r[1], tys), r[2])
        if k in ("raw", "disc"):
            return (k, self._place(r[1], tys))
        if k == "cast":
            return ("cast", r[1], self._op(r[2], tys, fns), tys[r[3]])
        if k == "bin":
            return ("bin", r[1], self._op(r[2], tys, fns), self._op(r[3], tys, fns))
        if k == "un":
            return ("un", r[1], self._op(r[2], tys, fns))
        if k == "agg":
            return ("agg", r[1], tys[r[2]] if r[2] is not None else None, r[3], [self._op(x, tys, fns) for x in r[4]], r[5])
        return tuple(r)


# ---- pretty printing, for reports and debugging
def show_place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "v":
            s += " as v%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        else:
            s += str(e)
    return s


def show_op(o):
    if o[0] in ("c", "m"):
        return show_place(o[1])
    if o[0] == "k":
        c = o[1]
        if c[0] == "fn":
            return "fn " + c[2]
        return "%s%s" % (str(c)[:120], ("{" + o[3] + "}") if o[3] else "")
    return o[0]


def show_fn(f):
    out = ["fn %s  [%s] %s" % (f.p, f.sym, f.span)]
    for n, t in enumerate(f.locals):
        out.append("   _%d: %s" % (n, t.s))
    for n, b in enumerate(f.blocks):
        if b is None:
            continue
        out.append(" bb%d:" % n)
        for s in b[0]:
            if s[0] == "=":
                r = s[2]
                rs = " ".join(show_op(x) if isinstance(x, tuple) and x and x[0] in ("c", "m", "k") else
                              show_place(x) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and isinstance(x[0], int) else
                              "[" + ", ".join(show_op(y) for y in x) + "]" if isinstance(x, list) else str(x) for x in r)
                out.append("   %s = %s" % (show_place(s[1]), rs))
            else:
                out.append("   " + str(s))
        t = b[1]
        if t[0] == "call":
            out.append("   %s = call %s(%s) -> bb%s" % (show_place(t[3]), show_op(t[1]), ", ".join(show_op(a) for a in t[2]), t[4]))
        elif t[0] == "switch":
            out.append("   switch %s %s else bb%d" % (show_op(t[1]), t[2], t[3]))
        elif t[0] == "drop":
            out.append("   drop %s: %s -> bb%d" % (show_place(t[1]), t[3].s, t[2]))
        elif t[0] == "assert":
            out.append("   assert %s == %s (%s) -> bb%d" % (show_op(t[1]), t[2], t[4], t[3]))
        else:
            out.append("   " + str(t))
    return "\n".join(out)


if __name__ == "__main__":
    import sys, extract
    P = Program(extract.extract())
    for pat in sys.argv[1:]:
        for f in P.fns:
            if pat in f.p:
                print(show_fn(f))
