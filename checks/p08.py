"""P08  hash codes of the Python runtime."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.pyload import SFloat, patched
from dv.rope import SBytes, SByteArray, SList, Abs, byte_fn
from dv.text import SStr, SChar

FUNCTIONS = ["hashcode.calc_hashcode_" + x for x in ("bool", "int32", "int64", "float32", "float64", "bytes", "string", "object", "bool_array",
             "int_array", "float32_array", "float64_array", "bytes_array", "string_array", "object_array")] + ["Array.__hash__"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers, ropes and loop cutting", "z3",
           "struct.pack of float formats (IEEE bit image)", "ord() of a character (arbitrary code point)"]
ASSUMPTIONS = ["objects to hash are None or truthy (a sized object of length 0 contributes 0, see DESIGN.md)",
               "array elements of object arrays answer __hash__ with an integer"]
NOTE = "sequences of any length by loop invariants over a ghost polynomial; all seeds of up to 70 bits, all 64-bit values"
M32 = 0xffffffff


def b32(x):
    return ubits(x, 32)


def poly(seed, v):
    return z3.simplify(z3.BitVecVal(37, 32) * b32(seed) + b32(v))


def seedv(e):
    return e.bv("seed", -(1 << 70), 1 << 70)


def fold64(v):
    t = ubits(v, 64)
    return z3.Extract(31, 0, t) ^ z3.Extract(63, 32, t)


def check(e, got, want32, name):
    e.prove(And(got >= 0, got <= M32), name + ".32-bit")
    e.prove(b32(got) == want32, name + ".polynomial")


def scalar(e):
    h = ns().hashcode
    s = seedv(e)
    k = e.choose(6)
    if k == 0:
        b = e.bool("value")
        _, r = guard(e, lambda: h.calc_hashcode_bool(s, b), "calc_hashcode_bool")
        check(e, r, poly(s, ite(b, 1, 0)), "calc_hashcode_bool")
    elif k == 1:
        v = e.bv("value", -(1 << 63), (1 << 64) - 1)
        _, r = guard(e, lambda: h.calc_hashcode_int32(s, v), "calc_hashcode_int32")
        check(e, r, poly(s, v), "calc_hashcode_int32")
    elif k == 2:
        v = e.bv("value", -(1 << 63), (1 << 64) - 1)
        _, r = guard(e, lambda: h.calc_hashcode_int64(s, v), "calc_hashcode_int64")
        check(e, r, z3.BitVecVal(37, 32) * b32(s) + fold64(v), "calc_hashcode_int64")
    elif k == 3:
        v = e.bv("value", 0, M32)
        _, r = guard(e, lambda: h.calc_hashcode_float32(s, SFloat(b32=v)), "calc_hashcode_float32")
        check(e, r, poly(s, v), "calc_hashcode_float32")
    elif k == 4:
        v = e.bv("value", 0, (1 << 64) - 1)
        _, r = guard(e, lambda: h.calc_hashcode_float64(s, SFloat(b64=v)), "calc_hashcode_float64")
        check(e, r, z3.BitVecVal(37, 32) * b32(s) + fold64(v), "calc_hashcode_float64")
    else:
        v = e.bv("value", -(1 << 63), (1 << 64) - 1)
        _, r = guard(e, lambda: h.calc_hashcode_object(s, Hashed(v)), "calc_hashcode_object")
        check(e, r, poly(s, v), "calc_hashcode_object")
    e.reach("end")


class Hashed:
    """An object whose hash code is a given integer."""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return self.v

    def __bool__(self):
        return True


class Opaque:
    """Array element known only by its index (used with callee contracts)."""

    def __init__(self, k):
        self.k = k


NONE_FUNCS = ["int32", "int64", "float32", "float64", "bytes", "string", "object", "bool_array", "int_array", "float32_array", "float64_array",
              "bytes_array", "string_array", "object_array"]


def none(e):
    f = getattr(ns().hashcode, "calc_hashcode_" + NONE_FUNCS[e.choose(len(NONE_FUNCS))])
    s = seedv(e)
    _, r = guard(e, lambda: f(s, None), f.__name__)
    check(e, r, poly(s, 0), f.__name__ + ".absent")
    e.reach("end")


def fold_case(fname, make, step, stubs=()):
    """A sequence function: result = H(n), H(0) = seed mod 2^32, H(k+1) = step(H(k), k)."""
    def fn(e):
        m = ns()
        f = getattr(m.hashcode, fname)
        s = seedv(e)
        n = e.int("n", 0)
        H = z3.Function("H", z3.IntSort(), z3.BitVecSort(32))
        seq, elem = make(e, n)

        def hook(k):
            kz = zint(k)
            e.assume(H(z3.IntVal(0)) == b32(s))
            e.assume(z3.simplify(H(kz + 1)) == step(H(kz), elem(k)))
            if type(k) is not int:
                e.assume(z3.Implies(kz >= 1, H(kz) == step(z3.simplify(H(kz - 1)), elem(k - 1))))
        e.index_hooks.append(hook)
        e.shapes.append(lambda k: from_ubits(z3.simplify(H(zint(k)))))
        hook(0)
        G = z3.Function("G", z3.BitVecSort(32), z3.IntSort(), z3.BitVecSort(32))
        repl = {"hashcode:" + st: (lambda seed, el: from_ubits(G(b32(seed), zint(el.k)))) for st in stubs}
        with patched(m, repl):
            _, r = guard(e, lambda: f(s, seq), fname)
        hook(n)
        # the empty sequence leaves the seed as it is
        e.prove(b32(r) == H(zint(n)), fname + ".polynomial")
        e.prove(Or(eq(n, 0), And(r >= 0, r <= M32)), fname + ".32-bit")
        e.reach("end")
    return fn


def bv_elems(width, lo, wrap, cls=SList):
    def make(e, n):
        g = z3.Function("elem", z3.IntSort(), z3.BitVecSort(width))
        get = (lambda k: wrap(from_sbits(g(zint(k))))) if lo < 0 else (lambda k: wrap(from_ubits(g(zint(k)))))
        return cls.abstract(get, n), lambda k: g(zint(k))
    return make


def str_elems(e, n):
    g = z3.Function("elem", z3.IntSort(), z3.BitVecSort(21))
    return SStr([Abs(lambda k: SChar(from_ubits(g(zint(k)))), n)]), lambda k: g(zint(k))


def bool_elems(e, n):
    g = z3.Function("elem", z3.IntSort(), z3.BoolSort())
    return SList.abstract(lambda k: SBool(g(zint(k))), n), lambda k: g(zint(k))


def opaque_elems(e, n):
    return SList.abstract(Opaque, n), lambda k: zint(k)


def obj_elems(e, n):
    g = z3.Function("elem", z3.IntSort(), z3.BitVecSort(64))
    return SList.abstract(lambda k: Hashed(from_sbits(g(zint(k)))), n), lambda k: g(zint(k))


def c37(h):
    return z3.BitVecVal(37, 32) * h


def zx(t):
    w = t.size()
    return z3.ZeroExt(32 - w, t) if w < 32 else z3.Extract(31, 0, t)


def f64(t):
    return z3.Extract(31, 0, t) ^ z3.Extract(63, 32, t)


def array_hash(e):
    """Array.__hash__ applies its traits' function to the seed 23 and the raw array."""
    m = ns()
    names = [c for c in dir(m.array) if c.endswith("ArrayTraits") and hasattr(getattr(m.array, c), "CALC_HASHCODE_FUNC")]
    want = {"Float16ArrayTraits": "float32_array", "Float32ArrayTraits": "float32_array", "Float64ArrayTraits": "float64_array",
            "BytesArrayTraits": "bytes_array", "StringArrayTraits": "string_array", "BoolArrayTraits": "bool_array",
            "BitBufferArrayTraits": "object_array", "ObjectArrayTraits": "object_array"}
    e.prove(len(names) >= 19, "Array.__hash__.traits-found")
    for c in names:
        f = getattr(m.array, c).CALC_HASHCODE_FUNC
        e.prove(f is getattr(m.hashcode, "calc_hashcode_" + want.get(c, "int_array")), "traits-hash-function." + c)
    raw = [object()]

    class T(m.array.StringArrayTraits):
        @staticmethod
        def CALC_HASHCODE_FUNC(seed, arr):
            e.prove(arr is raw and eq(seed, 23), "Array.__hash__.arguments")
            return 77
    a = m.array.Array(T(), raw)
    e.prove(eq(a.__hash__(), 77), "Array.__hash__.result")
    e.reach("end")


def prepare():
    ns()


def cases(tier):
    G = z3.Function("G", z3.BitVecSort(32), z3.IntSort(), z3.BitVecSort(32))
    return [
        Case("scalar", scalar), Case("none", none), Case("array-hash", array_hash),
        Case("bytes", fold_case("calc_hashcode_bytes", bv_elems(8, 0, lambda x: x, SByteArray), lambda h, x: c37(h) + zx(x))),
        Case("string", fold_case("calc_hashcode_string", str_elems, lambda h, x: c37(h) + zx(x))),
        Case("bool_array", fold_case("calc_hashcode_bool_array", bool_elems, lambda h, x: c37(h) + z3.If(x, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))),
        Case("int_array", fold_case("calc_hashcode_int_array", bv_elems(66, -1, lambda x: x), lambda h, x: c37(h) + zx(x))),
        Case("float32_array", fold_case("calc_hashcode_float32_array", bv_elems(32, 0, lambda x: SFloat(b32=x)), lambda h, x: c37(h) + x)),
        Case("float64_array", fold_case("calc_hashcode_float64_array", bv_elems(64, 0, lambda x: SFloat(b64=x)), lambda h, x: c37(h) + f64(x))),
        Case("bytes_array", fold_case("calc_hashcode_bytes_array", opaque_elems, lambda h, x: G(h, x), ["calc_hashcode_bytes"])),
        Case("string_array", fold_case("calc_hashcode_string_array", opaque_elems, lambda h, x: G(h, x), ["calc_hashcode_string"])),
        Case("object_array", fold_case("calc_hashcode_object_array", obj_elems, lambda h, x: c37(h) + z3.Extract(31, 0, x))),
    ]


FAIL_SEARCH_S = 30


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.hashcodes(seed, budget, hints)
