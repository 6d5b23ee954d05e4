"""P10  delta packing of the Python runtime."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.rope import SList, SBytes, Abs, prove_seq_eq

FUNCTIONS = ["DeltaContext.__init__", "DeltaContext.init", "DeltaContext.bitsizeof", "DeltaContext.read", "DeltaContext.write", "DeltaContext._finish_init",
             "DeltaContext._bitsizeof_descriptor, _bitsizeof_unpacked, _read_descriptor, _read_unpacked, _write_descriptor, _write_unpacked (inlined)",
             "PackedArrayTraits.*", "Array.bitsizeof_packed", "Array.initialize_offsets_packed", "Array.write_packed", "Array.read_packed"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers, ropes and loop cutting", "z3",
           "monotonicity of the running maximum (its step is proved, the induction is on paper)"]
ASSUMPTIONS = ["callee contracts: the stream operations append/consume exactly their bits (P01), the element traits write bitsizeof(element) bits and read them back (P09)",
               "elements lie between -2^63 and 2^64-1 (all packable zserio types)"]
NOTE = ("all sequences of any length (loop invariants over ghost maximum and prefix sums); case split over the maximum delta width: "
        "wider than the limit, none, one element, and - quick tier - widths 0, 1, 2, 7, 8, 31, 32, 61, 62; the thorough tier proves all widths 0..62")
BOUNDED = ["quick tier: element sequences whose maximum delta width is in 3..6, 9..30 or 33..60 are covered by the concrete cross-check only; the thorough tier proves them too"]
LIM = 62


def blen(d):
    """bit_length of |d| as a Python-level expression (the documented delta width before the sign bit)."""
    return d.bit_length()


class Spec:
    """The array e(0..n-1), its ghost functions and the stream its packed form must be."""

    def __init__(self, e, m, const, packed=None):
        self.done = set()
        self.e, self.m, self.const = e, m, const
        self.E = z3.Function("elem", z3.IntSort(), z3.BitVecSort(66))
        self.S = z3.Function("size", z3.BitVecSort(66), z3.IntSort())
        self.U = z3.Function("U", z3.IntSort(), z3.IntSort())          # sum of the first k sizes
        self.M = z3.Function("M", z3.IntSort(), z3.BitVecSort(8))      # max delta width over elements 0..k-1
        self.B = z3.Function("B", z3.IntSort(), z3.BitVecSort(8))      # same, frozen once beyond the limit
        self.P = z3.Function("P", z3.IntSort(), z3.BitVecSort(66))     # previous element, frozen likewise
        self.csize = e.int("element-size", 1) if const else None
        if m == "one":
            self.n = 1
        elif m == "none":
            self.n = 0
        else:
            self.n = e.int("n", 2)
            e.index_hooks.append(self.hook)
            nz = zint(self.n)
            if m == "wide":
                e.assume(z3.UGT(self.M(nz), LIM))
                e.assume(z3.UGT(self.B(nz), LIM))       # lemma ghost-relation
            else:
                e.assume(self.M(nz) == m)
                e.assume(z3.And(self.B(nz) == m))
            same = lambda k: type(m) is int and (k is self.n or z3.simplify(zint(k) - zint(self.n)).eq(z3.IntVal(0)))
            at = lambda F: lambda k: m if same(k) else from_ubits(F(zint(k)))
            e.shapes += [self.usum, at(self.M), lambda k: self.elem(k - 1),
                         at(self.B), lambda k: from_sbits(self.P(zint(k)))]
            e.bshapes += [lambda k: sbool(zint(k) >= 2), lambda k: sbool(z3.And(zint(k) >= 2, z3.ULE(self.B(zint(k)), LIM)))]
        self.hook(0)
        if self.n == 1:
            self.hook(1)
        # the documented decision
        if m in ("one", "none", "wide"):
            self.packed = False
        else:
            w = m + 1 if m else 0
            cond = 1 + 6 + self.size(self.elem(0)) + (self.n - 1) * w < 1 + self.usum(self.n)
            self.packed = bool(e.choose(2)) if packed is None else packed
            self.hook(self.n)
            e.assume(cond if self.packed else Not(cond))

    def elem(self, k):
        return from_sbits(self.E(zint(k)))

    def size(self, v):
        if self.const:
            return self.csize
        t = self.S(ubits(v, 66))
        self.e.assume(t >= 1)
        return LInt.atom(t)

    def usum(self, k):
        if self.const:
            return k * self.csize
        return LInt.atom(self.U(zint(k)))

    def hook(self, k):
        e, kz = self.e, zint(k)
        key = str(kz)
        if key in self.done:
            return
        self.done.add(key)
        for j in (k - 1, k):
            if type(j) is int and j < 0:
                continue
            jz = zint(j)
            el = self.elem(j)
            rng = z3.And(jz >= 0, jz < zint(self.n))
            e.assume(z3.And(self.E(jz) >= -(1 << 63), self.E(jz) <= (1 << 64) - 1))
            if self.m == 0:     # every delta is zero: all elements equal the first (induction over the definition of M)
                e.assume(z3.Implies(rng, self.E(jz) == self.E(z3.IntVal(0))))
            e.assume(self.U(z3.simplify(jz + 1)) == self.U(jz) + zint(self.size(el)))
            if type(j) is int and j == 0:
                e.assume(z3.And(self.U(z3.IntVal(0)) == 0, self.M(z3.IntVal(1)) == 0, self.B(z3.IntVal(1)) == 0, self.P(z3.IntVal(1)) == self.E(z3.IntVal(0))))
                continue
            step = ubits(blen(el - self.elem(j - 1)), 8)
            pos = jz >= 1
            nxt = z3.simplify(jz + 1)
            e.assume(z3.Implies(pos, self.M(nxt) == z3.If(z3.UGT(step, self.M(jz)), step, self.M(jz))))
            e.assume(z3.Implies(z3.And(pos, jz < zint(self.n)), z3.ULE(self.M(nxt), self.M(zint(self.n)))))     # monotone
            bstep = ubits(blen(el - from_sbits(self.P(jz))), 8)
            low = z3.ULE(self.B(jz), LIM)
            e.assume(z3.Implies(pos, self.B(nxt) == z3.If(z3.And(low, z3.UGT(bstep, self.B(jz))), bstep, self.B(jz))))
            e.assume(z3.Implies(pos, self.P(nxt) == z3.If(low, self.E(jz), self.P(jz))))
            # lemma ghost-relation
            e.assume(z3.Implies(pos, z3.If(z3.ULE(self.M(jz), LIM), z3.And(self.B(jz) == self.M(jz), self.P(jz) == self.E(z3.simplify(jz - 1))), z3.UGT(self.B(jz), LIM))))

    def total(self):
        if self.n == 0:
            return 0
        if self.packed:
            return 7 + self.size(self.elem(0)) + (self.n - 1) * (self.m + 1 if self.m else 0)
        return 1 + self.usum(self.n)

    def traits(self):
        spec = self

        class T:
            HAS_BITSIZEOF_CONSTANT = spec.const
            NEEDS_BITSIZEOF_POSITION = False
            NEEDS_READ_INDEX = False
            _dv_opaque = True

            @property
            def packed_traits(self):
                return ns().array.PackedArrayTraits(self)

            def write(self, writer, v):
                writer.token("elem", v, None)

            def read(self, reader):
                return reader.token("elem", None)
        if spec.const:
            T.bitsizeof = lambda self: spec.csize
        else:
            T.bitsizeof = lambda self, v: spec.size(v)
        return T()

    def token(self, i, name):
        """The i-th token (kind, value, width) of the stream; i may be symbolic."""
        e = self.e
        e.prove(i < self.count(), name + ".no-more-bits")
        if e.branch(tobool_(eq(i, 0))):
            return "u", 1 if self.packed else 0, 1
        if self.packed:
            if e.branch(tobool_(eq(i, 1))):
                return "u", self.m, 6
            if e.branch(tobool_(eq(i, 2))):
                return "elem", self.elem(0), None
            k = i - 2
            self.hook(k)
            return "s", self.elem(k) - self.elem(k - 1), self.m + 1
        return "elem", self.elem(i - 1), None

    def count(self):
        if self.n == 0:
            return 0
        if self.packed:
            return 3 if self.m == 0 else self.n + 2
        return self.n + 1


def tobool_(c):
    c = tobool(c)
    return z3.BoolVal(c) if isinstance(c, bool) else c


class Stream:
    """Monitors the operations of a writer / serves those of a reader against the specified token stream."""

    def __init__(self, spec):
        self.i = 0
        self.__dict__["_spec"] = Hidden(spec)

    def token(self, kind, v, width=None):
        spec = self._spec.v
        e = spec.e
        nm = "stream"
        k, val, w = spec.token(self.i, nm)
        self.i = self.i + 1
        e.prove(kind == k, nm + ".kind")
        if w is not None:
            e.prove(eq(width, w), nm + ".width")
        if v is None:
            return val
        e.prove(eq(v, val), nm + ".value")
        if kind == "s":
            e.prove(And(v >= -(1 << (w - 1)), v < (1 << (w - 1))), nm + ".delta-fits")
        return None


class Hidden:
    _dv_opaque = True

    def __init__(self, v):
        self.v = v


class Writer(Stream):
    def write_bool(self, b):
        self.token("u", ite(b, 1, 0) if type(b) is not bool else int(b), 1)

    def write_bits_unchecked(self, v, n):
        self.token("u", v, n)

    def write_signed_bits_unchecked(self, v, n):
        self.token("s", v, n)
    write_bits, write_signed_bits = write_bits_unchecked, write_signed_bits_unchecked


class Reader(Stream):
    def read_bool(self):
        return self.token("u", None, 1) == 1

    def read_bits_unchecked(self, n):
        return self.token("u", None, n)

    def read_signed_bits_unchecked(self, n):
        return self.token("s", None, n)
    read_bits, read_signed_bits = read_bits_unchecked, read_signed_bits_unchecked


def make(op, m, const, packed):
    def fn(e):
        sp = Spec(e, m, const, packed)
        n = sp.n
        elems = [sp.elem(i) for i in range(n)] if type(n) is int else None
        raw = list(elems) if elems is not None else SList.abstract(sp.elem, n)
        A = ns().array.Array
        t = sp.traits()
        pos = e.int("bitposition", 0)
        if op == "bitsizeof":
            _, r = guard(e, lambda: A(t, raw).bitsizeof_packed(pos), "bitsizeof_packed")
            e.prove(eq(r, sp.total()), "bitsizeof_packed.exact")
        elif op == "offsets":
            _, r = guard(e, lambda: A(t, raw).initialize_offsets_packed(pos), "initialize_offsets_packed")
            e.prove(eq(r, pos + sp.total()), "initialize_offsets_packed.exact")
        elif op == "write":
            w = Writer(sp)
            guard(e, lambda: A(t, raw).write_packed(w), "write_packed")
            e.prove(eq(w.i, sp.count()), "write_packed.everything-written")
        else:
            rd = Reader(sp)
            a = A(t, SList([]) if elems is None else [])
            guard(e, lambda: a.read_packed(rd, n), "read_packed")
            e.prove(eq(rd.i, sp.count()), "read_packed.everything-read")
            prove_seq_eq(a.raw_array, raw, "read_packed.elements")
        e.reach("end")
    return fn


def never_larger(e):
    """Lemma: by the documented decision the packed form is strictly smaller than the unpacked one."""
    m = e.choose(LIM + 1)
    sp = Spec(e, m, bool(e.choose(2)))
    if not sp.packed:
        raise PathEnd()
    e.prove(sp.total() < 1 + sp.usum(sp.n), "lemma.packed-only-when-smaller")
    e.reach("end")


def ghost_relation(e):
    """Inductive step of the lemmas over the ghost functions that the other cases assume."""
    E0, E1, P = (z3.BitVec(x, 66) for x in ("e_prev", "e_cur", "p"))
    M, B = z3.BitVec("M", 8), z3.BitVec("B", 8)
    for x in (E0, E1, P):
        e.assume(z3.And(x >= -(1 << 63), x <= (1 << 64) - 1))

    def inv(M, B, P, E):
        return z3.If(z3.ULE(M, LIM), z3.And(B == M, P == E), z3.UGT(B, LIM))
    e.assume(inv(M, B, P, E0))
    step = ubits(blen(from_sbits(E1) - from_sbits(E0)), 8)
    M1 = z3.If(z3.UGT(step, M), step, M)
    bstep = ubits(blen(from_sbits(E1) - from_sbits(P)), 8)
    low = z3.ULE(B, LIM)
    B1 = z3.If(z3.And(low, z3.UGT(bstep, B)), bstep, B)
    P1 = z3.If(low, E1, P)
    e.prove(inv(M1, B1, P1, E1), "lemma.ghost-relation")
    e.prove(z3.UGE(M1, M), "lemma.monotone-step")
    e.prove(inv(z3.BitVecVal(0, 8), z3.BitVecVal(0, 8), E0, E0), "lemma.ghost-base")
    e.reach("end")


def prepare():
    ns()


QUICK = [0, 1, 2, 7, 8, 31, 32, 61, 62]


def cases(tier):
    cs = [Case("ghost-relation", ghost_relation), Case("never-larger", never_larger)]
    for op in ("read", "write", "offsets", "bitsizeof"):
        for m in ["none", "one", "wide"] + (QUICK if tier == "quick" else list(range(LIM + 1))):
            for const in (False, True):
                if const and op in ("read", "write") and tier == "quick" and m != 7:
                    continue    # neither reads nor writes the element size outside the size computation
                for packed in ((True, False) if type(m) is int else (False,)):
                    cs.append(Case("%s-width-%s%s%s" % (op, m, "-const" if const else "", "-packed" if packed else ""), make(op, m, const, packed)))
    return cs


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.packing(seed, budget, hints)
