"""Drives the exported C functions in the abstract interpreter: arrays, tuples, the thread's simulator state."""
import dom
import interp
import models
import simlab
from dom import Poly, lift
from engine import MissingAnchor
from interp import Agg, NatV, Ref, StrV, Unsupported, VecV


class Back:
    def __init__(self, prog):
        self.P = prog
        self.sim = simlab.Lab(prog)
        self.state_key = self.out_key = None
        for p, fs in prog.by_path.items():
            if p.endswith("__rust_std_internal_init_fn"):
                t = fs[0].locals[0]
                key = p[:-len("::__rust_std_internal_init_fn")]
                inner = t.args[0] if t.path == "core::cell::RefCell" and t.args else t
                if inner is not None and inner.variants and any("QuantumSim" in ft.s for _, ft in inner.variants[0][2]):
                    self.state_key, self.state_ty = key, inner
                elif inner is not None and "OutputRecorder" in inner.s:
                    self.out_key, self.out_ty = key, inner
        self.sim_i = None
        if self.state_key is not None:
            for i, (n, t) in enumerate(simlab.fields_of(self.state_ty)):
                if "QuantumSim" in t.s:
                    self.sim_i = i

    def ex(self, name):
        e = self.P.exports.get(name)
        if e is None:
            raise MissingAnchor("no exported function " + name)
        f = self.P.resolve(e["fn"])
        if f is None:
            raise MissingAnchor("no body for exported function " + name)
        return f

    def has(self, name):
        return name in self.P.exports

    def call(self, I, name, *args):
        return self.enter(I, self.ex(name), args)

    def enter(self, I, f, args):
        """A call from outside: an integer arrives in as many bits as the parameter is declared with."""
        out = []
        for i, v in enumerate(args):
            t = f.locals[i + 1] if i < f.argc else None
            out.append(I.wrap(v, t) if type(v) is int and t is not None and t.s in interp.INT_BITS else v)
        return I.run_body(f, out)

    def pub(self, I, path, *args):
        """Call a Rust-level public function by path suffix."""
        for p, fs in self.P.by_path.items():
            if p == path:
                return self.enter(I, fs[0] if isinstance(fs, list) else fs, args)
        raise MissingAnchor("no function " + path)

    # ---- the thread's simulator
    def cell(self, I):
        if self.state_key is None:
            raise Unsupported("no thread-local simulator state")
        return models.key_ref(I, NatV("Key", self.state_key))

    def simref(self, I):
        r = self.cell(I)
        v = I.load(r)
        if isinstance(v, NatV) and v.kind in ("RefCell", "Cell"):
            r = Ref(r.obj, r.path + ("v",))
        return Ref(r.obj, r.path + (self.sim_i,))

    def borrowed(self, I):
        v = I.load(self.cell(I))
        return isinstance(v, NatV) and v.kind == "RefCell" and v.d[0] != 0

    # ---- runtime objects
    def array(self, I, vals, ty_size=8):
        """A runtime array holding vals (each of ty_size bytes)."""
        arr = self.call(I, "__quantum__rt__array_create_1d", ty_size, len(vals))
        for i, v in enumerate(vals):
            p = self.call(I, "__quantum__rt__array_get_element_ptr_1d", arr, i)
            self.put(I, p, v, ty_size)
        return arr

    def put(self, I, p, v, size):
        if not models.byte_ptr(p):
            raise Unsupported("element pointer %s" % interp.short(p))
        ty = BTy(size)
        I.store(Ref(p.obj, p.path[:-1] + (("as", p.path[-1][1], ty),)), v)

    def get(self, I, p, ty):
        return models.peek(I, p, ty)

    def tuple(self, I, fields):
        """A runtime argument tuple: fields = [(value, size)], C layout."""
        off, offs = 0, []
        for v, s in fields:
            off = (off + s - 1) // s * s
            offs.append(off)
            off += s
        off = (off + 7) // 8 * 8
        t = self.call(I, "__quantum__rt__tuple_create", off)
        for (v, s), o in zip(fields, offs):
            self.put(I, self.at(I, t, o), v, s)
        return t

    def at(self, I, p, off):
        if not models.byte_ptr(p):
            if p == 0 or interp.arbitrary_word(p):
                raise interp.UB("a tuple is read through %s" % ("the null pointer" if p == 0 else interp.short(p)))
            raise Unsupported("tuple pointer %s" % interp.short(p))
        return Ref(p.obj, p.path[:-1] + (("b", p.path[-1][1] + off),))

    def cstr(self, I, s):
        v = list(s.encode()) + [0]
        return Ref(I.alloc(VecV(v), "cstr"), (("b", 0),))


    def string(self, I, ptr):
        """The text of a runtime string (StrV without terminator)."""
        d = self.call(I, "__quantum__rt__string_get_data", ptr)
        return models.cmodels.strip_nul(I, I.load(models.cmodels.cstr_from_ptr(I, d)))

    def text(self, I, ptr):
        t = models.cmodels.as_text(I, self.string(I, ptr))
        s = t.lit()
        return s if s is not None else t


class BTy:
    """A pseudo type of a given size, for raw reads and writes."""
    def __init__(self, n, k="int", s=None):
        self.size, self.k, self.s = n, k, s or "u%d" % (8 * n)
        self.variants = self.fields = self.off = self.path = self.elem = None
        self.args = ()
