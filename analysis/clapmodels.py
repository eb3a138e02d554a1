"""Transfer functions for clap's builder and parser, as far as a flat command with options needs them.

NatV("ClapArg", tuple of pairs) and NatV("ClapCmd", tuple of pairs) are immutable descriptions; parsing is done on the token
texts of an abstract argument vector, whose tokens may be texts of unknown numbers."""
import models as M
from interp import Agg, INT_BITS, NatV, Panic, Poly, Ref, StrV, UNIT, Unsupported, VecV, short

ARG, CMD, VP = "clap_builder::builder::arg::Arg", "clap_builder::builder::command::Command", "clap_builder::builder::value_parser"


def get(v, k, d=None):
    return dict(v.d).get(k, d)


def put(v, **kw):
    d = dict(v.d)
    d.update(kw)
    return NatV(v.kind, tuple(sorted(d.items(), key=lambda x: x[0])))


def text(I, v):
    v = I.deref(v)
    while isinstance(v, Agg) and v.ty is not None and v.ty.k != "enum" and len(v.f) == 1:
        v = I.deref(v.f[0])
    if isinstance(v, NatV) and v.kind == "Box":
        v = I.get_obj(v.d)
    if not isinstance(v, StrV):
        raise Unsupported("clap text %s" % short(v))
    return v


def word(I, v):
    t = text(I, v).lit()
    if t is None:
        raise Unsupported("clap name of unknown content")
    return t


def maybe(I, v, f):
    """An optional setting: the value itself, or Some / None of it."""
    v = I.deref(v)
    if isinstance(v, Agg) and v.ty is not None and v.ty.path == "core::option::Option":
        return f(I, v.f[0]) if v.f else None
    return f(I, v)


def kind(I, v):
    v = I.deref(v)
    if not isinstance(v, Agg) or v.name is None:
        raise Unsupported("clap action %s" % short(v))
    return v


def arg_method(I, name, a, info):
    v = I.deref(a[0]) if a else None
    if name == "new":
        return NatV("ClapArg", (("id", word(I, a[0])),))
    if not isinstance(v, NatV) or v.kind != "ClapArg":
        return NotImplemented
    if name == "id":
        return put(v, id=word(I, a[1]))
    if name == "long":
        return put(v, long=maybe(I, a[1], word))
    if name == "short":
        return put(v, short=maybe(I, a[1], lambda I, x: I.concrete(x)))
    if name == "action":
        return put(v, action=maybe(I, a[1], kind))
    if name in ("value_name", "value_names"):
        return put(v, vname=True)
    if name in ("help", "long_help", "help_heading", "display_order", "hide", "value_hint", "hide_default_value", "next_line_help", "hide_possible_values"):
        return v
    if name == "required":
        return put(v, required=I.concrete(a[1]) if not isinstance(a[1], bool) else a[1])
    if name == "value_parser":
        p = I.deref(a[1])
        if isinstance(p, NatV) and p.kind == "ClapParser":
            return put(v, parser=p.d)
        raise Unsupported("clap value parser %s" % short(p))
    if name == "default_value":
        return put(v, default=maybe(I, a[1], text))
    if name in ("default_missing_value",):
        return put(v, missing=maybe(I, a[1], text))
    if name in ("allow_hyphen_values", "allow_negative_numbers"):
        return put(v, **{name: a[1]})
    if name == "get_id":
        return I.mkref(StrV((get(v, "id", ""),)))
    if name == "get_long":
        x = get(v, "long")
        return M.NONE if x is None else M.some(StrV((x,)))
    if name == "get_short":
        x = get(v, "short")
        return M.NONE if x is None else M.some(x)
    if name == "get_value_names":
        return M.some(I.mkref(VecV([StrV(("",))]))) if get(v, "vname") else M.NONE
    if name == "get_action":
        x = get(v, "action")
        if x is None:
            t = info.dest_ty.elem
            k = [i for i, y in enumerate(t.variants) if y[0] == "Set"]
            x = Agg(t, k[0], ())
        return I.mkref(x)
    raise Unsupported("clap argument setting %s" % name)


def cmd_method(I, name, a, info):
    v = I.deref(a[0]) if a else None
    if name == "new":
        return NatV("ClapCmd", (("args", ()), ("name", word(I, a[0]))))
    if not isinstance(v, NatV) or v.kind != "ClapCmd":
        return NotImplemented
    if name == "args":
        xs = [I.deref(x) for x in M.it_all(I, M.to_it(I, a[1]))]
        return put(v, args=get(v, "args") + tuple(xs))
    if name == "arg":
        return put(v, args=get(v, "args") + (I.deref(a[1]),))
    if name in ("version", "long_version"):
        return put(v, version=maybe(I, a[1], text) is not None or bool(get(v, "version")))
    if name in ("about", "long_about", "author", "after_help", "before_help", "bin_name", "display_name", "name", "color", "next_line_help", "term_width", "max_term_width",
                "help_template", "arg_required_else_help"):
        if name == "arg_required_else_help":
            raise Unsupported("clap setting " + name)
        return v
    if name in ("print_help", "print_long_help"):
        I.trace.append(("help", "Stdout"))
        return M.ok(UNIT)
    if name in ("try_get_matches", "try_get_matches_from", "try_get_matches_from_mut"):
        if name == "try_get_matches":
            if getattr(I, "argv", None) is None:
                raise Unsupported("the process's own arguments")
            xs = [StrV(x) if isinstance(x, tuple) else x for x in I.argv]
        else:
            xs = [text(I, x) for x in M.it_all(I, M.to_it(I, a[1]))]
        r = parse(I, v, xs)
        if isinstance(r, str):
            return M.err(NatV("ClapError", r))
        return M.ok(NatV("ClapMatches", tuple(sorted(r.items()))))
    raise Unsupported("clap command setting %s" % name)


def parse(I, cmd, toks):
    """id -> (type name or None, value or None), or the name of the kind of error."""
    args = [x for x in get(cmd, "args")]
    for x in args:
        if not isinstance(x, NatV) or x.kind != "ClapArg":
            raise Unsupported("clap argument %s" % short(x))
        if get(x, "action") is not None and get(x, "action").name != "Set":
            raise Unsupported("clap action %s" % get(x, "action").name)
        if get(x, "long") is None and get(x, "short") is None:
            raise Unsupported("positional clap argument")
    ids = [get(x, "id", "") for x in args]
    longs = {get(x, "long"): x for x in args if get(x, "long") is not None}
    shorts = {chr(get(x, "short")): x for x in args if get(x, "short") is not None}
    if len(set(ids)) != len(ids) or len(longs) != sum(get(x, "long") is not None for x in args) or len(shorts) != sum(get(x, "short") is not None for x in args):
        raise Panic("clap: two arguments share a name")
    got, i = {}, 1
    toks = list(toks)

    def flag(name):
        if name == "help":
            return "DisplayHelp"
        if name == "version" and get(cmd, "version"):
            return "DisplayVersion"
        return "UnknownArgument"

    def cut(t, n):
        """What follows the first n characters of a token."""
        p = list(t.parts)
        p[0] = p[0][n:]
        return StrV(tuple(x for x in p if x != ""))
    while i < len(toks):
        t = toks[i]
        i += 1
        head = t.parts[0] if t.parts and isinstance(t.parts[0], str) else ""
        if not t.parts or not head.startswith("-") or t.lit() == "-":
            return "UnknownArgument"
        if t.lit() == "--":
            if i < len(toks):
                return "UnknownArgument"
            break
        inline = None
        if head.startswith("--"):
            name, eq, _ = head[2:].partition("=")
            if not eq and len(t.parts) > 1:
                raise Unsupported("option of unknown name")
            if eq:
                inline = cut(t, 2 + len(name) + 1)
            x = longs.get(name)
            if x is None:
                return flag(name)
        else:
            x = shorts.get(head[1])
            if x is None:
                return flag({"h": "help", "V": "version"}.get(head[1], ""))
            if len(head) > 2 or len(t.parts) > 1:
                inline = cut(t, 2)
                if inline.parts and isinstance(inline.parts[0], str) and inline.parts[0].startswith("="):
                    inline = cut(inline, 1)
        if inline is None:
            if i >= len(toks):
                return "InvalidValue"
            n = toks[i]
            nh = n.parts[0] if n.parts and isinstance(n.parts[0], str) else ""
            if nh.startswith("-") and n.lit() != "-":
                if get(x, "allow_hyphen_values") or get(x, "allow_negative_numbers"):
                    raise Unsupported("option values that begin with a hyphen")
                if n.lit() is not None or len(nh) > 1:
                    return "InvalidValue"
                raise Unsupported("option value of unknown sign")
            inline = n
            i += 1
        k = get(x, "id", "")
        if k in got:
            return "ArgumentConflict"
        v = value(I, x, inline)
        if isinstance(v, str):
            return v
        got[k] = v
    for x in args:
        k = get(x, "id", "")
        if k not in got:
            if get(x, "default") is not None:
                v = value(I, x, get(x, "default"))
                if isinstance(v, str):
                    return v
                got[k] = v
            elif get(x, "required"):
                return "MissingRequiredArgument"
            else:
                got[k] = (get(x, "parser", "alloc::string::String"), None)
    return got


def value(I, x, t):
    p = get(x, "parser", "alloc::string::String")
    if p in ("alloc::string::String",):
        return p, t
    if p in ("std::path::PathBuf", "std::ffi::os_str::OsString"):
        return (p, t) if t.parts or not p.endswith("PathBuf") else "InvalidValue"
    if p in INT_BITS:
        w, signed = INT_BITS[p] if isinstance(INT_BITS[p], tuple) else (INT_BITS[p], p[0] == "i")
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        s = t.lit()
        if s is None:
            # the text of an unknown number that is known to fit
            if len(t.parts) == 1 and t.parts[0][0] == "disp":
                n = t.parts[0][1]
                b = getattr(I, "number_ranges", {}).get(repr(n))
                if b is not None and lo <= b[0] and b[1] <= hi:
                    return p, n
                if b is not None:
                    raise Unsupported("a number of unknown size for a parser of %s" % p)
            raise Unsupported("value of unknown text for a parser of %s" % p)
        u = s[1:] if s[:1] in ("+", "-") else s
        if not u.isascii() or not u.isdigit() or s[:1] == "-" and not signed:
            return "ValueValidation" if s else "InvalidValue"
        n = int(s)
        return (p, n) if lo <= n <= hi else "ValueValidation"
    raise Unsupported("clap parser of %s" % p)


def matches_method(I, name, a, info):
    m = dict(I.deref(a[0]).d)
    if name in ("get_one", "try_get_one", "contains_id", "remove_one", "try_remove_one"):
        k = word(I, a[1])
        t = info.targs[-1] if info.targs else None
        if name == "contains_id":
            if k not in m:
                raise Panic("clap: unknown argument " + k)
            return m[k][1] is not None
        tname = (t.path or t.s) if t is not None else None
        bad = k not in m or m[k][0] != tname
        if bad:
            if name.startswith("try_"):
                return M.err(NatV("ClapMatchError", k))
            raise Panic("clap: argument %r is unknown or of another type than %s" % (k, tname))
        v = m[k][1]
        if v is None:
            r = M.NONE
        else:
            r = M.some(v if name.endswith("remove_one") or isinstance(v, StrV) and False else I.mkref(v))
        return M.ok(r) if name.startswith("try_") else r
    raise Unsupported("clap matches method %s" % name)


def call(I, p, path, trait, name, a, info):
    """The clap part of the dispatch; NotImplemented when it is not about clap."""
    if p.startswith(ARG + "::") and trait is None:
        return arg_method(I, name, a, info)
    if p.startswith(CMD + "::") and trait is None:
        return cmd_method(I, name, a, info)
    if p.startswith("clap_builder::parser::matches::arg_matches::ArgMatches"):
        return matches_method(I, name, a, info)
    if trait == "core::default::Default" and ARG in (getattr(info.dest_ty, "path", None) or ""):
        return NatV("ClapArg", (("id", ""),))
    if VP in p or trait is not None and VP in trait:
        if name == "new" and "_infer_ValueParser_for" in p:
            t = info.targs[-1]
            return NatV("ClapParser", t.path or t.s)
        if name == "value_parser":
            v = I.deref(a[0])
            if isinstance(v, NatV) and v.kind == "ClapParser":
                return v
        raise Unsupported("clap value parser %s" % name)
    v = a[0] if a else None
    while isinstance(v, Ref):
        v = I.load(v)
    if isinstance(v, NatV) and v.kind.startswith("Clap"):
        if trait == "core::clone::Clone" and name == "clone":
            return v
        if v.kind == "ClapError" and name == "kind":
            k = [i for i, y in enumerate(info.dest_ty.variants) if y[0] == v.d]
            if not k:
                raise Unsupported("clap error kind " + v.d)
            return Agg(info.dest_ty, k[0], ())
        if v.kind in ("ClapError", "ClapMatchError") and (trait or "").endswith("ToString"):
            return StrV(("error: %s" % (v.d,),))
        if v.kind == "ClapError" and name in ("print", "use_stderr", "exit_code"):
            if name == "print":
                I.trace.append(("help", "Stderr"))
                return M.ok(UNIT)
            return v.d not in ("DisplayHelp", "DisplayVersion") if name == "use_stderr" else 0 if v.d in ("DisplayHelp", "DisplayVersion") else 2
        raise Unsupported("clap %s of %s" % (name, v.kind))
    return NotImplemented
