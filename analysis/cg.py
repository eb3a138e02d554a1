"""Call graph and effect summaries over the extracted MIR."""
from collections import deque


def called(term):
    """(Fn or None, path, generic argument types) of a direct call terminator, or None for an indirect one."""
    op = term[1]
    if op[0] == "k" and op[1][0] == "fn":
        c = op[1]
        return c[1], c[2], c[4]
    return None


def closures_in(ty, seen=None, depth=0):
    """Function bodies that a value of this type may run when called (closures and function items, nested)."""
    seen = seen if seen is not None else set()
    if ty is None or id(ty) in seen or depth > 6:
        return
    seen.add(id(ty))
    if ty.body is not None:
        yield ty.body
    for a in list(ty.args) + list(ty.fields) + ([ty.elem] if ty.elem is not None else []):
        yield from closures_in(a, seen, depth + 1)


class Graph:
    def __init__(self, P):
        self.P = P
        self.edges = {}
        self.sites = {}

    def calls(self, f):
        """[(block, line, callee Fn or None, path, indirect?, bodies it may run)] of every call in f."""
        if f in self.sites:
            return self.sites[f]
        out = []
        for bi, b in enumerate(f.blocks or ()):
            if b is None:
                continue
            ss, t, line = b
            if t[0] == "call":
                c = called(t)
                if c is None:
                    out.append((bi, line, None, None, True, []))
                    continue
                g, path, args = c
                bodies = []
                r = self.P.resolve(g) if g is not None else None
                if r is not None:
                    bodies.append(r)
                tys = list(args)
                if g is not None:
                    tys += list(g.args)
                for a in t[2]:
                    if a[0] in ("c", "m") and not a[1][1]:
                        tys.append(f.locals[a[1][0]])
                    elif a[0] == "k":
                        tys.append(a[2])
                if r is None or not (r.local and not (r.crate in ("std", "core", "alloc"))):
                    for ty in tys:
                        for body in closures_in(ty):
                            h = self.P.resolve(body)
                            if h is not None and h not in bodies:
                                bodies.append(h)
                out.append((bi, line, g, path, False, bodies))
            elif t[0] == "drop" and t[3].drop is not None:
                h = self.P.resolve(t[3].drop)
                if h is not None:
                    out.append((bi, line, t[3].drop, t[3].drop.p, False, [h]))
        self.sites[f] = out
        return out

    def reach(self, roots):
        seen, work, via = set(), deque(), {}
        for r in roots:
            if r is not None and r not in seen:
                seen.add(r)
                work.append(r)
        while work:
            f = work.popleft()
            for _, line, g, path, ind, bodies in self.calls(f):
                for h in bodies:
                    if h not in seen:
                        seen.add(h)
                        via[h] = (f, line)
                        work.append(h)
        return seen, via

    def chain(self, via, f):
        out = [f.p]
        while f in via:
            f, line = via[f]
            out.append("%s (line %s)" % (f.p, line))
        return " <- ".join(out)

    def transitive(self, own):
        """Least fixpoint of the sets own(f) united over everything f may call. Returns f -> {item: witness call}."""
        fs = [f for c in self.P.crates.values() for f in c["fns"] if f.has_body]
        fs = list({id(f): f for f in fs}.values())
        res = {f: dict(own(f)) for f in fs}
        callers = {}
        for f in fs:
            for _, line, g, path, ind, bodies in self.calls(f):
                for h in bodies:
                    callers.setdefault(h, set()).add((f, line))
        work = deque(f for f in fs if res[f])
        while work:
            h = work.popleft()
            for f, line in callers.get(h, ()):
                new = False
                for it in res.get(h, {}):
                    if it not in res[f]:
                        res[f][it] = "%s at line %s of %s" % (h.p, line, f.p)
                        new = True
                if new:
                    work.append(f)
        return res


# ------------------------------------------------------------------ cells and the guards on them
GUARDS = {"core::cell::RefMut": True, "core::cell::Ref": False}
ACQUIRE = {"borrow_mut": True, "borrow": False, "try_borrow_mut": None, "try_borrow": None, "replace": True, "replace_with": True,
           "take": True, "swap": True, "with_borrow_mut": True, "with_borrow": False, "set": True}


def cell_types(P):
    """Content types of the thread-local RefCells."""
    out = {}
    for s in P.statics:
        for a in [s["ty"]] + list(s["ty"].args):
            if a.path == "core::cell::RefCell" and a.args:
                out[a.args[0].s] = s["p"].split("::{constant")[0]
    return out


def acquisition(cells, t, f):
    """(content type, exclusive, scoped closure?) if this call borrows a thread-local RefCell."""
    c = called(t)
    if c is None or c[1] is None:
        return None
    path = c[1]
    name = path.rsplit("::", 1)[-1]
    if name not in ACQUIRE:
        return None
    if "cell::RefCell" in path or "LocalKey" in path:
        tys = [a.s for a in c[2]] + [a.s for a in (c[0].args if c[0] is not None else ())]
        for x in tys:
            if x in cells:
                return x, ACQUIRE[name], name.startswith("with_")
        for a in t[2]:
            if a[0] in ("c", "m") and not a[1][1]:
                for cell in cells:
                    if ("RefCell<%s>" % cell) in f.locals[a[1][0]].s:
                        return cell, ACQUIRE[name], name.startswith("with_")
    return None


def guard_of(ty, cells, depth=0):
    """The cell a value of this type keeps borrowed, if any: (content type, exclusive)."""
    if ty is None or depth > 4:
        return None
    if ty.path in GUARDS:
        for a in ty.args:
            if a.s in cells:
                return a.s, GUARDS[ty.path]
        s = ty.s
        for c in cells:
            if c in s:
                return c, GUARDS[ty.path]
        # a guard mapped to a part of the cell: which cell is unknown, take the only one whose state it could be
        return None
    if ty.k in ("adt", "struct", "enum", "tuple") and ty.path is not None or ty.k == "tuple":
        for a in ty.args:
            g = guard_of(a, cells, depth + 1)
            if g:
                return g
    return None


def live_guards(f, cells):
    """Per call block: the guards held when the call is made. Forward may-analysis over the MIR."""
    n = len(f.blocks)
    gl = {i: guard_of(t, cells) for i, t in enumerate(f.locals)}
    gl = {i: g for i, g in gl.items() if g}
    if not gl:
        return {}
    inn = [None] * n
    inn[0] = frozenset()
    work = [0]
    at = {}

    def moved(st, ops):
        for o in ops:
            if o[0] == "m" and not o[1][1] and o[1][0] in gl:
                st = st - {o[1][0]}
        return st

    def rv_ops(rv):
        k = rv[0]
        if k in ("use",):
            return [rv[1]]
        if k == "cast":
            return [rv[2]]
        if k == "agg":
            return rv[4]
        return []
    while work:
        bi = work.pop()
        b = f.blocks[bi]
        if b is None:
            continue
        st = inn[bi]
        for s in b[0]:
            if s[0] == "=":
                st = moved(st, rv_ops(s[2]))
                if not s[1][1] and s[1][0] in gl:
                    st = st | {s[1][0]}
            elif s[0] == "sd":
                pass
        t = b[1]
        succ = []
        k = t[0]
        if k == "call":
            c = called(t)
            st2 = moved(st, t[2])
            at[bi] = st2
            if not t[3][1] and t[3][0] in gl:
                st2 = st2 | {t[3][0]}
            if t[4] is not None:
                succ.append((t[4], st2))
        elif k == "drop":
            st2 = st
            if not t[1][1] and t[1][0] in gl:
                st2 = st - {t[1][0]}
            at[bi] = st2
            succ.append((t[2], st2))
        elif k == "switch":
            succ += [(x[1], st) for x in t[2]]
            succ.append((t[3], st))
        elif k == "goto":
            succ.append((t[1], st))
        elif k == "assert":
            succ.append((t[3], st))
        for s, v in succ:
            if not isinstance(s, int) or s >= n:
                continue
            if inn[s] is None or not v <= inn[s]:
                inn[s] = v if inn[s] is None else inn[s] | v
                work.append(s)
    return {bi: {gl[i] for i in st} for bi, st in at.items() if st}
