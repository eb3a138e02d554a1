"""Constant propagation over IEEE doubles: operations on python floats, as the language defines them."""
import math
import struct
from fractions import Fraction
import dom


def f(v):
    """The double a constant denotes, or None."""
    if type(v) is float:
        return v
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return float(v)
    if isinstance(v, dom.Poly):
        if v == dom.A("const", "inf"):
            return math.inf
        if v == -dom.A("const", "inf"):
            return -math.inf
        if v == dom.A("const", "nan"):
            return math.nan
        if v.is_const():
            return float(Fraction(v.const()))
        return dom.approx(v)
    return None


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        s = math.copysign(1, a) * math.copysign(1, b)
        return math.copysign(math.inf, s)
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, b))


def guard(fn, *a):
    try:
        return float(fn(*a))
    except OverflowError:
        return math.inf
    except ValueError:
        return math.nan


def mul(a, b):
    return a * b


def rem(a, b):
    if b == 0 or math.isinf(a) or a != a or b != b:
        return math.nan
    return math.fmod(a, b)


BIN = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": mul, "Div": div, "Rem": rem}
CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b,
       "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}


def ties_even(x):
    if x != x or math.isinf(x) or abs(x) >= 2 ** 52:
        return x
    return math.copysign(float(round(x)), x)


def round_away(x):
    if x != x or math.isinf(x) or abs(x) >= 2 ** 52:
        return x
    t = math.trunc(x)
    return math.copysign(float(t + (1 if x > 0 else -1) if abs(x - t) >= 0.5 else t), x)


def integral(fn):
    return lambda x: x if x != x or math.isinf(x) or x == 0 else math.copysign(float(fn(x)), x)


def log(fn):
    def g(x):
        if x != x:
            return x
        if x == 0:
            return -math.inf
        if x < 0:
            return math.nan
        return math.inf if math.isinf(x) else fn(x)
    return g


def odd_inf(fn):
    """Overflow goes to the infinity with the sign of the argument."""
    def g(x):
        try:
            return fn(x)
        except OverflowError:
            return math.copysign(math.inf, x)
    return g


def powi(x, n):
    r = guard(math.pow, x, n) if not (x == 0 and n < 0) else math.copysign(math.inf, x) if n % 2 else math.inf
    return -r if math.isinf(r) and x < 0 and n % 2 and r > 0 else r


UN = {
    "sin": lambda x: guard(math.sin, x), "cos": lambda x: guard(math.cos, x), "tan": lambda x: guard(math.tan, x),
    "asin": lambda x: guard(math.asin, x), "acos": lambda x: guard(math.acos, x), "atan": math.atan,
    "sinh": odd_inf(math.sinh), "cosh": lambda x: guard(math.cosh, x), "tanh": math.tanh,
    "asinh": math.asinh, "acosh": lambda x: guard(math.acosh, x), "atanh": lambda x: guard(math.atanh, x) if abs(x) != 1 else math.copysign(math.inf, x),
    "sqrt": lambda x: x if x == 0 else guard(math.sqrt, x), "cbrt": lambda x: guard(math.cbrt, x),
    "exp": lambda x: guard(math.exp, x), "exp2": lambda x: guard(math.exp2, x), "exp_m1": lambda x: guard(math.expm1, x),
    "ln": log(math.log), "log2": log(math.log2), "log10": log(math.log10), "ln_1p": lambda x: -math.inf if x == -1 else guard(math.log1p, x),
    "floor": integral(math.floor), "ceil": integral(math.ceil), "trunc": integral(math.trunc), "round": round_away, "round_ties_even": ties_even,
    "abs": abs, "fract": lambda x: x - integral(math.trunc)(x) if not math.isinf(x) else math.nan,
    "signum": lambda x: x if x != x else math.copysign(1.0, x), "recip": lambda x: div(1.0, x),
    "to_radians": lambda x: x * (math.pi / 180), "to_degrees": lambda x: x * (180 / math.pi),
}
PRED = {"is_nan": lambda x: x != x, "is_infinite": math.isinf, "is_finite": math.isfinite,
        "is_sign_negative": lambda x: math.copysign(1, x) < 0, "is_sign_positive": lambda x: math.copysign(1, x) > 0,
        "is_normal": lambda x: math.isfinite(x) and abs(x) >= 2.2250738585072014e-308}


def fmax(a, b):
    return b if a != a else a if b != b else max(a, b)


def fmin(a, b):
    return b if a != a else a if b != b else min(a, b)


def powf(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return math.inf
    except ValueError:
        return math.inf if x == 0 else math.nan


TWO = {"atan2": lambda a, b: math.atan2(a, b), "hypot": lambda a, b: guard(math.hypot, a, b), "copysign": math.copysign, "max": fmax, "min": fmin,
       "maximum": lambda a, b: math.nan if a != a or b != b else max(a, b), "minimum": lambda a, b: math.nan if a != a or b != b else min(a, b),
       "powf": powf, "log": lambda a, b: div(UN["ln"](a), UN["ln"](b)),
       "rem_euclid": lambda a, b: (lambda r: r + abs(b) if r < 0 else r)(rem(a, b)),
       "div_euclid": lambda a, b: (lambda q, r: q if not r < 0 else (q - 1 if b > 0 else q + 1))(integral(math.trunc)(div(a, b)), rem(a, b))}


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def from_bits(n):
    return struct.unpack("<d", struct.pack("<Q", n))[0]


def to_int(x, lo, hi):
    if x != x:
        return 0
    if math.isinf(x):
        return hi if x > 0 else lo
    return min(hi, max(lo, math.trunc(x)))


def shortest(x):
    """Display of a double: the shortest digits that denote it, never in exponent form."""
    if x != x:
        return "NaN"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    s = repr(abs(x))
    if "e" in s:
        m, e = s.split("e")
        e = int(e)
        d = m.replace(".", "")
        point = (m.index(".") if "." in m else len(m)) + e
        s = "0." + "0" * -point + d if point <= 0 else d + "0" * (point - len(d)) if point >= len(d) else d[:point] + "." + d[point:]
    if s.endswith(".0"):
        s = s[:-2]
    return ("-" if math.copysign(1, x) < 0 else "") + s


def fixed(x, prec):
    if x != x:
        return "NaN"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return "%.*f" % (prec, x)
