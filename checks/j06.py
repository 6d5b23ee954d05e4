"""J06  hash codes of the Java runtime."""
import z3
from dv import jloops
from dv import jharness as h
from dv.core import from_sbits, from_ubits
from dv.jharness import RT, IO, run
from dv.jvm import JArr, JBig, JBox, JFp, JObj, bv, norm
from dv.runner import Case

HC, RA, AR = RT + "HashCodeUtil", RT + "array/RawArray$%sRawArray", RT + "array/Array"
BB, EN, SO, BI, ST = IO + "BitBuffer", RT + "ZserioEnum", RT + "SizeOf", "java/math/BigInteger", "java/lang/String"
TECHNIQUE = "deductive: contracts on the real Java methods, obligations generated by symbolic execution of their bytecode (compiled from the current source), loops cut with inductive invariants, discharged by z3"
FUNCTIONS = ["HashCodeUtil.calcHashCode (every overload: 8 primitive and 7 boxed scalars, BigInteger, String, BitBuffer, enum, object, Array, 14 array types)",
             "RawArray.*.hashCode (13 classes)", "Array.hashCode"]
TRUSTED = ["javac (the verified text is its bytecode for the current source)",
           "dv.jvm: JVM bytecode semantics; BigInteger as exact integers; Float.floatToIntBits/Double.doubleToLongBits (bit image, NaN canonical); String.length and charAt", "z3"]
ASSUMPTIONS = ["big integers are values of zserio types (-2^63 to 2^64 - 1)", "the hash code of an object, and the generic value of an enum item, is what its own class says",
               "array elements are not null"]
NOTE = "all values, seeds and lengths (loop invariants over the ghost polynomial); nested sequences (byte[][], String[]) by the contract of the inner function, proved in cases of its own"
prepare = h.prepare


def step(seed, x):
    return 37 * seed + x


def fold(x):
    """64-bit value folded to 32 bits"""
    return z3.Extract(31, 0, x ^ z3.LShR(x, 32))


def fold_big(x):
    """the same on an exact integer of up to 65 bits: value ^ (value >> 32) with an arithmetic shift"""
    return z3.Extract(31, 0, x ^ (x >> 32))


def fp(b):
    nan = z3.And(z3.Extract(30, 23, b) == 255, z3.Extract(22, 0, b) != 0) if b.size() == 32 else z3.And(z3.Extract(62, 52, b) == 2047, z3.Extract(51, 0, b) != 0)
    canon = z3.If(nan, z3.BitVecVal(0x7fc00000 if b.size() == 32 else 0x7ff8 << 48, b.size()), b)
    return canon if b.size() == 32 else fold(canon)


def sx(x):
    return x if x.size() == 32 else z3.SignExt(32 - x.size(), x)


def flag(x):
    return z3.If(x != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


def big_input(e, name, f=None):
    x = z3.BitVec(name, 66) if f is None else f
    e.assume(z3.And(x >= -(1 << 63), x < (1 << 64)))
    return x


PRIMS = [("Z", 8, flag), ("B", 8, sx), ("S", 16, sx), ("I", 32, sx), ("J", 64, fold), ("F", 32, fp), ("D", 64, fp)]
BOXES = [("Boolean", 32, flag), ("Byte", 32, sx), ("Short", 32, sx), ("Integer", 32, sx), ("Long", 64, fold), ("Float", 32, fp), ("Double", 64, fp)]


def call(e, v, desc, seed, x, want, name):
    _x, r = run(e, v, lambda: v.call(HC, "calcHashCode", "(I%s)I" % desc, seed, x), name)
    e.prove(bv(r, 32) == want, name + ".exact")


def scalars(e):
    v = h.vm(e)
    seed = h.jint(e, "seed")
    kinds = [k for k in PRIMS if h.has(HC, "calcHashCode", "(I%s)I" % k[0])]
    d, w, f = kinds[e.choose(len(kinds))]
    x = h.inp(e, "value", z3.BitVec("value", w))
    if d == "Z":
        e.assume(z3.ULE(x, 1))
    arg = JFp(x, w) if d in "FD" else x if w == 64 else sx(x)
    call(e, v, d, seed, arg, step(seed, f(x)), "calcHashCode(%s)" % d)
    e.reach("end")


def boxes(e):
    v = h.vm(e)
    seed = h.jint(e, "seed")
    d, w, f = BOXES[e.choose(len(BOXES))]
    desc = "Ljava/lang/%s;" % d
    if not h.has(HC, "calcHashCode", "(I%s)I" % desc):
        return
    if e.choose(2):
        call(e, v, desc, seed, None, step(seed, 0), "calcHashCode(null %s)" % d)
    else:
        x = h.inp(e, "value", z3.BitVec("value", w))
        bits = {"Byte": 8, "Short": 16}.get(d)
        if bits:
            e.assume(x == z3.SignExt(32 - bits, z3.Extract(bits - 1, 0, x)))
        if d == "Boolean":
            e.assume(z3.ULE(x, 1))
        box = JBox("java/lang/" + d, JFp(x, w) if d in ("Float", "Double") else x)
        call(e, v, desc, seed, box, step(seed, f(x)), "calcHashCode(%s)" % d)
    e.reach("end")


def big(e):
    v = h.vm(e)
    seed = h.jint(e, "seed")
    if e.choose(2):
        call(e, v, "L%s;" % BI, seed, None, step(seed, 0), "calcHashCode(null BigInteger)")
    else:
        x = h.inp(e, "value", big_input(e, "value"))
        call(e, v, "L%s;" % BI, seed, JBig(from_sbits(x)), step(seed, fold_big(x)), "calcHashCode(BigInteger)")
    e.reach("end")


def enums(e):
    v = h.vm(e)
    seed = h.jint(e, "seed")
    kind = ["Byte", "Short", "Integer", "Long", "BigInteger", "null"][e.choose(6)]
    if kind == "null":
        call(e, v, "L%s;" % EN, seed, None, step(seed, 0), "calcHashCode(null enum)")
    else:
        if kind == "BigInteger":
            x = h.inp(e, "value", big_input(e, "value"))
            g, inner = JBig(from_sbits(x)), fold_big(x)
        else:
            w = {"Byte": 8, "Short": 16, "Integer": 32, "Long": 64}[kind]
            x = h.inp(e, "value", z3.BitVec("value", w))
            g = JBox("java/lang/" + kind, x if w == 64 else sx(x))
            inner = fold(x if w == 64 else z3.SignExt(64 - w, x))
        v.hooks[(EN, "getGenericValue")] = lambda vm, a: g
        call(e, v, "L%s;" % EN, seed, JObj(EN), step(seed, step(z3.BitVecVal(23, 32), inner)), "calcHashCode(enum of %s)" % kind)
    e.reach("end")


def objects(e):
    v = h.vm(e)
    seed = h.jint(e, "seed")
    cls = [SO, BB, AR][e.choose(3)]
    if e.choose(2):
        call(e, v, "L%s;" % cls, seed, None, step(seed, 0), "calcHashCode(null object)")
    else:
        x = h.jint(e, "object_hash")
        v.hooks[(cls, "hashCode")] = lambda vm, a: x
        call(e, v, "L%s;" % cls, seed, JObj(cls), step(seed, x), "calcHashCode(object)")
    e.reach("end")


# ---------------------------------------------------------------- sequences
class Seq:
    """A sequence of any length with symbolic elements; `term(i)` is what the polynomial takes in for element i, or
    `nested(seed, i)` the hash code of element i for a given seed."""

    def __init__(self, e, v, kind):
        self.e, self.v, self.kind = e, v, kind
        self.n = h.jint(e, "length", 0)
        self.nested = None
        i32 = z3.BitVecSort(32)
        if kind in ("Z", "B", "S", "I", "J", "F", "D", "C"):
            w = {"Z": 8, "B": 8, "S": 16, "C": 16, "I": 32, "J": 64, "F": 32, "D": 64}[kind]
            A = z3.Array("elements", i32, z3.BitVecSort(w))
            f = {k: g for k, _w, g in PRIMS}.get(kind)
            self.term = (lambda i: f(z3.Select(A, i))) if kind != "C" else (lambda i: z3.ZeroExt(16, z3.Select(A, i)))
            if kind == "Z":
                self.known = lambda i: z3.ULE(z3.Select(A, i), 1)
            base = lambda i: z3.Select(A, i)
            if kind == "C":
                self.obj = JObj(ST)
                v.hooks[(ST, "length")] = lambda vm, a: self.n
                v.hooks[(ST, "charAt")] = self._char(A)
                v.hooks[(ST, "isEmpty")] = lambda vm, a: z3.If(self.n == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
                self.desc = "L%s;" % ST
                return
            self.obj, self.desc = JArr(kind, self.n, base=base), "[" + kind
            return
        self.desc = "[" + (kind if kind[0] == "[" else "L%s;" % kind)
        if kind == BI:
            A = z3.Array("elements", i32, z3.BitVecSort(66))
            self.term = lambda i: fold_big(z3.Select(A, i))
            self.known = lambda i: z3.And(z3.Select(A, i) >= -(1 << 63), z3.Select(A, i) < (1 << 64))
            self.obj = JArr(kind, self.n, base=lambda i: self._big(z3.Select(A, i)))
        elif kind in ("[B", ST):
            G = z3.Function("inner", i32, i32, i32)      # hash code of element i for a seed
            self.nested = lambda s, i: G(s, i)
            cls = "[B" if kind == "[B" else ST
            self.obj = JArr(kind, self.n, base=lambda i: self._ref(cls, i))
            inner = "(I[B)I" if kind == "[B" else "(IL%s;)I" % ST
            v.hooks[(HC, "calcHashCode", inner)] = lambda vm, a: G(bv(a[0], 32), bv(a[1].tag, 32))
        elif kind == EN:
            A = z3.Array("elements", i32, z3.BitVecSort(64))
            self.term = lambda i: step(z3.BitVecVal(23, 32), fold(z3.Select(A, i)))
            self.obj = JArr(kind, self.n, base=lambda i: self._ref(EN, i))
            v.hooks[(EN, "getGenericValue")] = lambda vm, a: JBox("java/lang/Long", z3.Select(A, bv(a[0].tag, 32)))
        else:
            O = z3.Function("object_hash", i32, i32)
            self.term = lambda i: O(i)
            self.obj = JArr(kind, self.n, base=lambda i: self._ref(kind, i))
            v.hooks[(kind, "hashCode")] = lambda vm, a: O(bv(a[0].tag, 32))

    @staticmethod
    def known(i):
        return None

    @staticmethod
    def _ref(cls, i):
        return JObj(cls, i)

    def _big(self, x):
        return JBig(from_sbits(x))

    def _char(self, A):
        def f(vm, a):
            i = bv(a[1], 32)
            self.e.prove(z3.And(i >= 0, i < self.n), "charAt.in-range")
            return z3.ZeroExt(16, z3.Select(A, i))
        return f


def ghost(e, s, seed):
    """H(k): the polynomial after k elements"""
    H = z3.Function("H", z3.BitVecSort(32), z3.BitVecSort(32))

    def hook(k):
        k = bv(k, 32)
        for i in (k - 1, k):
            nxt = s.nested(H(i), i) if s.nested else step(H(i), s.term(i))
            e.assume(z3.Implies(z3.And(i >= 0, i < s.n), H(i + 1) == nxt))
            kn = s.known(i)
            if kn is not None:
                e.assume(z3.Implies(z3.And(i >= 0, i < s.n), kn))
    e.assume(H(z3.BitVecVal(0, 32)) == seed)
    e.index_hooks.append(hook)
    for k in (0, 1, s.n):
        hook(k)
    e.jshapes = {"i": [lambda k: bv(k, 32), lambda k: H(bv(k, 32)), lambda k: s.n - bv(k, 32)], "l": [], "big": []}
    e.jpreds, e.jfacts = [], []
    return H


def sequence(kind, name):
    def fn(e):
        v = h.vm(e)
        seed = h.jint(e, "seed")
        s = Seq(e, v, kind)
        if not h.has(HC, "calcHashCode", "(I%s)I" % s.desc):
            e.reach("end")
            return
        if e.choose(2):
            call(e, v, s.desc, seed, None, step(seed, 0), "calcHashCode(null %s)" % name)
            e.reach("end")
            return
        H = ghost(e, s, seed)
        v.loops[HC] = jloops.Cutter(e, [], s.n)
        call(e, v, s.desc, seed, s.obj, H(s.n), "calcHashCode(%s)" % name)
        e.reach("end")
    return Case("sequence-" + name, fn)


RAWS = dict(Boolean="Z", Byte="B", Short="S", Int="I", Long="J", Float="F", Double="D", BigInteger=BI, Bytes="[B", String=ST, BitBuffer=BB, Enum=EN, Object=SO)


def raw_arrays(name):
    kind = RAWS[name]

    def fn(e):
        v = h.vm(e)
        s = Seq(e, v, kind)
        H = ghost(e, s, z3.BitVecVal(23, 32))
        cls = RA % name
        desc = "(%s%s)V" % ("Ljava/lang/Class;" if name in ("Enum", "Object") else "", s.desc)
        args = [JObj("java/lang/Class")] if name in ("Enum", "Object") else []
        _x, raw = run(e, v, lambda: v.new(cls, desc, *(args + [s.obj])), name + "RawArray")
        if e.choose(2):
            a = v.alloc(AR)
            fld = [f for f in a.f if a.f[f] is None and v.cls(AR).fields[f][1] == "L%sarray/RawArray;" % RT]
            a.f[fld[0]] = raw
            raw = a
        v.loops[HC] = v.loops[cls] = v.loops[AR] = jloops.Cutter(e, [], s.n)
        _x, r = run(e, v, lambda: v.vcall(raw, "hashCode", "()I"), name + "RawArray.hashCode")
        e.prove(bv(r, 32) == H(s.n), name + "RawArray.hashCode.exact")
        e.reach("end")
    return Case("raw-array-" + name, fn)


def cases(tier):
    seqs = [("C", "string"), ("Z", "boolean[]"), ("B", "byte[]"), ("S", "short[]"), ("I", "int[]"), ("J", "long[]"), ("F", "float[]"), ("D", "double[]"), (BI, "BigInteger[]"),
            ("[B", "byte[][]"), (ST, "String[]"), (BB, "BitBuffer[]"), (EN, "enum[]"), (SO, "object[]")]
    return [Case("scalars", scalars), Case("boxes", boxes), Case("big-integer", big), Case("enums", enums), Case("objects", objects)] + \
        [sequence(*s) for s in seqs] + [raw_arrays(n) for n in RAWS]


def search(seed, budget, hints):
    return h.search("JSearch", "J06", seed, budget, hints)
