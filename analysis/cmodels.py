"""Transfer functions for C strings and byte output."""
import dom
import interp
import models as M
from interp import Agg, Cond, NatV, Opaque, Panic, Poly, Ref, StrV, UB, UNIT, Unsupported, VecV, short
from models import T, TABLE, NONE, err, ok, some, tup

# a CString is NatV("CStr", obj): heap[obj] is its text including the terminator


def to_text(I, v):
    """The bytes of a slice, vector, string or C string (without terminator) as text."""
    if isinstance(v, NatV) and v.kind == "CStr":
        return strip_nul(I, I.get_obj(v.d))
    x = I.deref(v)
    if isinstance(x, NatV) and x.kind == "CStr":
        return strip_nul(I, I.get_obj(x.d))
    if isinstance(x, NatV) and x.kind == "Box":
        return to_text(I, Ref(x.d))
    if isinstance(x, StrV):
        return x
    if isinstance(x, VecV):
        return bytes_text(x.items)
    raise Unsupported("text of %s" % short(x))


def bytes_text(bs):
    out = StrV()
    run = bytearray()
    for b in bs:
        if isinstance(b, Poly) and b.is_const():
            b = b.const()
        if isinstance(b, int):
            run.append(b & 255)
        elif isinstance(b, Opaque) and isinstance(b.key, tuple) and b.key[0] == "textpart":
            out = out + StrV((run.decode("utf-8", "surrogateescape"), b.key[1]))
            run = bytearray()
        else:
            out = out + StrV((run.decode("utf-8", "surrogateescape"), ("byte", b)))
            run = bytearray()
    return out + StrV((run.decode("utf-8", "surrogateescape"),))


def strip_nul(I, v):
    if isinstance(v, VecV):
        it = v.items
        if 0 in it:
            return VecV(it[:it.index(0)])
        raise UB("text without terminator")
    if isinstance(v, StrV):
        if v.parts and isinstance(v.parts[-1], str) and v.parts[-1].endswith("\0"):
            return StrV(v.parts[:-1] + (v.parts[-1][:-1],))
        raise UB("text without terminator")
    raise Unsupported("text %s" % short(v))


def has_nul(s):
    return any("\0" in p for p in s.parts if isinstance(p, str))


def new_c(I, text):
    return NatV("CStr", I.alloc(text + StrV(("\0",)), "cs"))


def c_of(I, a):
    """The heap place of a &CString or &CStr."""
    v = a
    while True:
        if isinstance(v, NatV) and v.kind == "CStr":
            I.get_obj(v.d)
            return Ref(v.d)
        if isinstance(v, NatV) and v.kind in ("Rc", "Box", "RefMut", "RefG"):
            v = M.nat_deref(I, v)
            continue
        if isinstance(v, Ref):
            x = I.load(v)
            if isinstance(x, (StrV, VecV)):
                return v
            v = x
            continue
        if isinstance(v, StrV):
            return I.mkref(v)
        raise Unsupported("C string %s" % short(v))


def cstr_from_ptr(I, p):
    if isinstance(p, int):
        raise UB("text read through the pointer value %d" % p)
    if isinstance(p, StrV):
        base, off, place = p, 0, None
    elif isinstance(p, Ref):
        off, place = 0, p
        if M.byte_ptr(p):
            off, place = p.path[-1][1], Ref(p.obj, p.path[:-1])
        elif p.path and isinstance(p.path[-1], int) and p.rng is None:
            q = Ref(p.obj, p.path[:-1])
            if isinstance(I.load(q), (VecV, StrV)) or isinstance(I.load(q), NatV) and I.load(q).kind == "Buf":
                off, place = p.path[-1], q
        base = I.deref(place)
    else:
        raise Unsupported("text pointer %s" % short(p))
    if isinstance(base, VecV):
        it = base.items[off:]
        for k, x in enumerate(it):
            if isinstance(x, int) and x == 0:
                return I.mkref(bytes_text(it[:k]) + StrV(("\0",)), "cs")
        raise UB("text read past the end of its buffer (no terminator)")
    if not isinstance(base, StrV):
        raise Unsupported("text at %s" % short(p))
    out = []
    for i, x in enumerate(base.parts):
        if isinstance(x, str):
            if off:
                b = x.encode("utf-8", "surrogateescape")
                if off > len(b):
                    raise Unsupported("text at an offset")
                x, off = b[off:].decode("utf-8", "surrogateescape"), 0
                moved = True
            k = x.find("\0")
            if k >= 0:
                if place is not None and i == len(base.parts) - 1 and base.parts[-1] == x and k == len(x) - 1:
                    return place
                return I.mkref(StrV(tuple(out) + (x[:k + 1],)), "cs")
        elif off:
            raise Unsupported("text at an offset")
        out.append(x)
    raise UB("text read past the end of its buffer (no terminator)")


def sl(r):
    """A byte slice of the text without its terminator."""
    return Ref(r.obj, r.path + ("-nul",))


def cstr(I, name, a, info):
    if name in ("new",):
        t = to_text(I, a[0])
        if isinstance(a[0], NatV) and a[0].kind == "CStr":
            I.freed.add(a[0].d)
        if has_nul(t):
            return err(Opaque(("NulError",)))
        return ok(new_c(I, t))
    if name in ("from_vec_unchecked",):
        return new_c(I, to_text(I, a[0]))
    if name in ("from_vec_with_nul", "from_bytes_with_nul"):
        t = to_text(I, a[0])
        last = t.parts[-1] if t.parts else ""
        if isinstance(last, str) and last.endswith("\0") and not has_nul(StrV(t.parts[:-1] + (last[:-1],))):
            if name == "from_vec_with_nul":
                return ok(new_c(I, StrV(t.parts[:-1] + (last[:-1],))))
            return ok(I.mkref(t, "cs"))
        return err(Opaque(("FromBytesWithNulError",)))
    if name == "from_bytes_until_nul":
        x = a[0]
        t = to_text(I, x)
        if not has_nul(t):
            return err(Opaque(("FromBytesUntilNulError",)))
        return ok(cstr_from_ptr(I, t))
    if name == "from_ptr":
        return cstr_from_ptr(I, a[0])
    if name in ("as_c_str", "as_ref", "deref", "borrow", "as_bytes_with_nul", "to_bytes_with_nul"):
        return c_of(I, a[0])
    if name in ("as_bytes", "to_bytes"):
        return sl(c_of(I, a[0]))
    if name in ("as_ptr",):
        r = c_of(I, a[0])
        return Ref(r.obj, r.path + (("b", 0),))
    if name == "to_str":
        return ok(sl(c_of(I, a[0])))
    if name == "to_string_lossy":
        r = sl(c_of(I, a[0]))
        l = to_text(I, r).lit()
        if l is None:
            return r
        v = StrV((l.encode("utf-8", "surrogateescape").decode("utf-8", "replace"),))
        return I.mkref(v)
    if name == "count_bytes":
        return I.slice_len(to_text(I, c_of(I, a[0])))if False else I.slice_len(I.load(sl(c_of(I, a[0]))))
    if name == "is_empty":
        return I.compare("Eq", I.slice_len(I.load(sl(c_of(I, a[0])))), 0)
    if name in ("to_owned", "clone", "into_c_string", "into_boxed_c_str"):
        r = c_of(I, a[0])
        return new_c(I, as_text(I, I.load(sl(r))))
    if name in ("into_bytes", "into_bytes_with_nul", "into_string", "into_raw"):
        r = c_of(I, a[0])
        if name == "into_raw":
            return Ref(r.obj, (("b", 0),))
        t = I.load(r)
        s = as_text(I, t if name == "into_bytes_with_nul" else strip_nul(I, t))
        I.freed.add(r.obj)
        return ok(s) if name == "into_string" else s
    if name == "from_raw":
        p = a[0]
        if M.byte_ptr(p) and p.path == (("b", 0),):
            return NatV("CStr", p.obj)
        raise UB("C string ownership taken of %s" % short(p))
    if name == "bytes":
        return M.to_it(I, sl(c_of(I, a[0])))
    return NotImplemented


def as_text(I, v):
    if isinstance(v, StrV):
        return v
    if isinstance(v, VecV):
        return bytes_text(v.items)
    raise Unsupported("text of %s" % short(v))


# ---------------------------------------------------------------- byte sinks
def sink_write(I, v, text):
    """Write text to the abstract sink behind reference v; False if v is not a modelled sink."""
    x = I.load(v) if isinstance(v, Ref) else v
    while isinstance(x, Ref):
        v, x = x, I.load(x)
    if isinstance(x, NatV) and x.kind in ("Stdout", "Stderr", "StdoutLock"):
        I.trace.append(("write", x.kind[:6], text))
        return True
    if isinstance(x, NatV) and x.kind == "Box":
        return sink_write(I, Ref(x.d), text)
    if isinstance(x, NatV) and x.kind in ("RefMut", "RefG"):
        return sink_write(I, x.d, text)
    if isinstance(x, (VecV, StrV)):
        old = x if isinstance(x, StrV) else bytes_text(x.items)
        I.store(v, old + text)
        return True
    return False


def user_writer(I, v):
    """(place, impl of Write::write) when v refers to a writer type of the analysed crates."""
    while isinstance(v, Ref):
        x = I.load(v)
        if isinstance(x, Agg):
            f = M.find_impl(I, x, "std::io::Write", "write") or M.find_impl(I, x, "core::io::write::Write", "write")
            if f is None and x.ty is not None and x.ty.path:
                for p, fs in I.P.by_path.items():
                    if p.startswith("<%s as " % x.ty.s) and p.endswith("Write>::write"):
                        f = fs[0]
            return v, f
        if isinstance(x, NatV) and x.kind == "Box":
            v = Ref(x.d)
            continue
        if isinstance(x, NatV) and x.kind in ("RefMut", "RefG"):
            v = x.d
            continue
        v = x
    return None, None


def write_all(I, v, text):
    if sink_write(I, v, text):
        return ok(UNIT)
    r, f = user_writer(I, v)
    if f is None:
        raise Unsupported("write to %s" % short(v))
    if text.lit() == "":
        return ok(UNIT)
    res = I.call_fn(f, [r, I.mkref(text, "w")])
    if isinstance(res, Agg) and res.name == "Err":
        return res
    if isinstance(res, Agg) and res.name == "Ok":
        n = res.f[0]
        if n == I.slice_len(text):
            return ok(UNIT)
        raise Unsupported("short write")
    raise Unsupported("result of write %s" % short(res))


def iow(I, name, a, info):
    if name == "write_all":
        return write_all(I, a[0], to_text(I, a[1]))
    if name == "write":
        t = to_text(I, a[1])
        if sink_write(I, a[0], t):
            return ok(I.slice_len(t))
        return NotImplemented
    if name == "write_fmt":
        if isinstance(I.deref(a[0]), StrV) and "fmt::Write" in info.path:
            return NotImplemented
        return write_all(I, a[0], a[1].d)
    if name == "flush":
        x = I.deref(a[0])
        if isinstance(x, (VecV, StrV)) or isinstance(x, NatV) and x.kind in ("Stdout", "Stderr", "StdoutLock"):
            return ok(UNIT)
        return NotImplemented
    if name in ("by_ref",):
        return a[0]
    return NotImplemented


@T("std::io::stdio::stdout")
def _(I, a, info):
    return NatV("Stdout", ())


@T("std::io::stdio::stderr")
def _(I, a, info):
    return NatV("Stderr", ())


@T("std::io::stdio::Stdout::lock")
def _(I, a, info):
    return NatV("StdoutLock", ())


@T("std::io::stdio::_print")
def _(I, a, info):
    I.trace.append(("write", "Stdout", a[0].d))
    return UNIT


@T("std::io::stdio::_eprint")
def _(I, a, info):
    I.trace.append(("write", "Stderr", a[0].d))
    return UNIT


@T("core::str::<impl str>::escape_default", "alloc::str::<impl str>::escape_default")
def _(I, a, info):
    t = to_text(I, a[0])
    return NatV("Escape", t)


def call(I, path, trait, name, args, info):
    if "::c_str::" in path or trait == "alloc::borrow::ToOwned" and isinstance(args[0], Ref) and "CStr" in path:
        return cstr(I, name, args, info)
    if "io::error::" in path and "Error" in path and name in ("other", "new"):
        return NatV("Text", StrV(("an input/output error",)))
    if trait is not None and trait.endswith("io::write::Write") or trait == "std::io::Write" or "::io::" in path and name in ("write_all", "write_fmt", "write", "flush"):
        return iow(I, name, args, info)
    return NotImplemented
