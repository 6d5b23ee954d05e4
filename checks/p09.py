"""P09  arrays of the Python runtime: predicted size, offsets, written and read bits."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.pyload import patched
from dv.rope import SList, prove_seq_eq

FUNCTIONS = ["Array.__init__", "Array.bitsizeof", "Array.initialize_offsets", "Array.write", "Array.read", "Array.from_reader", "Array.from_reader_packed",
             "Array.bitsizeof_packed", "Array.initialize_offsets_packed", "Array.write_packed", "Array.read_packed (with an abstract packing context)",
             "bitposition.alignto (inlined)", "BitFieldArrayTraits, SignedBitFieldArrayTraits, VarUInt16/32/64/VarUIntArrayTraits, VarInt16/32/64/VarIntArrayTraits, "
             "VarSizeArrayTraits, Float16/32/64ArrayTraits, BytesArrayTraits, StringArrayTraits, BoolArrayTraits, BitBufferArrayTraits, ObjectArrayTraits, "
             "ObjectPackedArrayTraits: bitsizeof, initialize_offsets, read, write"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers, ropes and loop cutting", "z3",
           "induction over the element index for two lemmas whose steps are proved (closed form of the aligned constant-size layout)"]
ASSUMPTIONS = ["element contract: bitsizeof(element, position) bits are written at position and read back from it (leaf codecs: P01-P04, generated objects: G01)",
               "stream contract: alignto(8) moves to the next byte boundary, write_varsize/read_varsize occupy bitsizeof_varsize bits (P02, P11)",
               "packing contract: after one init per element, element k occupies a size that depends on k and its position only (DeltaContext: P10)",
               "auto arrays have at most 2^31-1 elements"]
NOTE = "any number of elements, any sizes and positions (loop invariants over ghost prefix positions); implicit arrays: one case per element size 1..64"


class Spec:
    """Ghost layout of the array e(0..n-1): Q(k) is where element k starts, P(k) the end of the first k elements."""

    def __init__(self, e, kind, aligned, auto, packed=False, csize=None, one=False):
        self.e, self.kind, self.aligned, self.auto, self.packed = e, kind, aligned, auto, packed
        I, B = z3.IntSort(), z3.BitVecSort(66)
        self.E = z3.Function("elem", I, B)
        self.SV = z3.Function("size", B, I, I)              # element size by value and position
        self.SK = z3.Function("packed_size", I, I, I)       # by index and position (packed)
        self.P = z3.Function("P", I, I)
        self.c = (csize or e.int("element-size", 1)) if kind == "const" else None
        self.n = e.int("n", 0, (1 << 31) - 1 if auto else None)
        self.start = e.int("bitposition", 0)
        self.vs = e.int("varsize-bits", 8) if auto else 0
        self.done = set()
        e.index_hooks.append(self.hook)
        e.shapes += [self.p, self.p_rel]
        e.assume(self.P(z3.IntVal(0)) == zint(self.start + self.vs))
        self.hook(0)
        self.hook(self.n)

    def p(self, k):
        return LInt.atom(self.P(zint(k)))

    def p_rel(self, k):
        return self.p(k) - self.start

    def q(self, k):
        p = self.p(k)
        return 8 * LInt.of(LInt.atom((zint(p) + 7) / 8)) if self.aligned else p

    def elem(self, k):
        return from_sbits(self.E(zint(k)))

    def size(self, v, pos):
        if self.kind == "const":
            return self.c
        t = self.SV(ubits(v, 66), zint(pos) if self.kind == "position" else z3.IntVal(0))
        self.e.assume(t >= 0)
        return LInt.atom(t)

    def size_at(self, k, pos):
        if self.packed:
            t = self.SK(zint(k), zint(pos))
            self.e.assume(t >= 0)
            return LInt.atom(t)
        return self.size(self.elem(k), pos)

    def hook(self, k):
        e, kz = self.e, zint(k)
        if str(kz) in self.done:
            return
        self.done.add(str(kz))
        for j in (k - 1, k):
            if type(j) is int and j < 0:
                continue
            jz = zint(j)
            e.assume(z3.Implies(z3.And(jz >= 0, jz < zint(self.n)),
                                self.P(z3.simplify(jz + 1)) == zint(self.q(j) + self.size_at(j, self.q(j)))))
            e.assume(z3.Implies(jz >= 0, self.P(jz) >= zint(self.start + self.vs)))            # sizes are not negative (induction)
        if self.kind == "const" and not self.packed:        # lemma const-layout
            e.assume(z3.Implies(z3.And(kz >= 0, kz <= zint(self.n)), z3.And(
                kz >= 0, self.P(kz) == zint(self.closed(k)) if not self.aligned else z3.If(kz == 0, self.P(kz) == zint(self.start + self.vs), self.P(kz) == zint(self.closed(k))))))

    def closed(self, k):
        if not self.aligned:
            return self.start + self.vs + k * self.c
        return self.q(0) + self.c + (k - 1) * self.up(self.c)

    @staticmethod
    def up(v):
        return 8 * LInt.of(LInt.of(v + 7) // 8)

    def traits(self, needs_index):
        spec = self

        class T:
            _dv_opaque = True
            HAS_BITSIZEOF_CONSTANT = spec.kind == "const"
            NEEDS_BITSIZEOF_POSITION = spec.kind == "position"
            NEEDS_READ_INDEX = needs_index
            packed_traits = None

            def initialize_offsets(self, pos, v):
                return pos + spec.size(v, pos)

            def write(self, writer, v):
                writer.put(v)
        if spec.kind == "const":
            T.bitsizeof = lambda self: spec.c
        elif spec.kind == "position":
            T.bitsizeof = lambda self, pos, v: spec.size(v, pos)
        else:
            T.bitsizeof = lambda self, v: spec.size(v, 0)
        if needs_index:
            T.read = lambda self, reader, index: reader.get(index)
        else:
            T.read = lambda self, reader: reader.get(None)
        if spec.packed:
            T.packed_traits = PackedT(spec)
        return T()

    def alignment(self):
        return 8


class Ctx:
    def __init__(self):
        self.inits, self.i = 0, 0


class PackedT:
    """Contract of packed traits: every element is announced once, in order, before any is processed in order."""
    _dv_opaque = True

    def __init__(self, spec):
        self.s = spec

    def create_context(self):
        return Ctx()

    def init_context(self, ctx, v):
        e, s = self.s.e, self.s
        s.hook(ctx.inits)
        e.prove(And(eq(ctx.i, 0), ctx.inits < s.n, eq(v, s.elem(ctx.inits))), "packed.init-order")
        ctx.inits = ctx.inits + 1

    def step(self, ctx, v, pos, what, reading=False):
        e, s = self.s.e, self.s
        s.hook(ctx.i)
        if not reading:
            e.prove(eq(ctx.inits, s.n), "packed.%s.after-all-inits" % what)
            e.prove(And(ctx.i < s.n, eq(v, s.elem(ctx.i))), "packed.%s.order" % what)
        r = s.size_at(ctx.i, pos)
        ctx.i = ctx.i + 1
        return r

    def bitsizeof(self, ctx, pos, v):
        return self.step(ctx, v, pos, "bitsizeof")

    def initialize_offsets(self, ctx, pos, v):
        return pos + self.step(ctx, v, pos, "initialize_offsets")

    def write(self, ctx, writer, v):
        self.step(ctx, v, writer.bitposition, "write")
        writer.put(v)

    def read(self, ctx, reader, index):
        self.step(ctx, None, reader.bitposition, "read", True)
        return reader.get(index)


class Hidden:
    _dv_opaque = True

    def __init__(self, v):
        self.v = v


class Stream:
    """Monitored bit stream: position, number of elements passed, number of offsets checked."""

    def __init__(self, spec, size=None):
        self.h = Hidden(spec)
        self.bitposition = spec.start
        self.i = 0
        self.prefixed = 0
        if size is not None:
            self.buffer_bitsize = size

    def alignto(self, a):
        s = self.h.v
        s.e.prove(eq(a, 8), "stream.alignto")
        self.bitposition = Spec.up(self.bitposition)

    def _varsize(self):
        s = self.h.v
        s.e.prove(s.auto, "stream.length-prefix-expected")
        s.e.prove(And(eq(self.bitposition, s.start), self.prefixed == 0), "stream.length-prefix-first")
        self.prefixed = 1
        self.bitposition = self.bitposition + s.vs

    def write_varsize(self, v):
        self.h.v.e.prove(eq(v, self.h.v.n), "stream.length-prefix")
        self._varsize()

    def read_varsize(self):
        self._varsize()
        return self.h.v.n

    def _element(self):
        s = self.h.v
        s.hook(self.i)
        s.e.prove(self.i < s.n, "stream.no-more-elements")
        s.e.prove(eq(self.bitposition, s.q(self.i)), "stream.element-position")
        r = s.elem(self.i)
        self.i = self.i + 1
        self.bitposition = s.p(self.i)
        return r

    def put(self, v):
        e = self.h.v.e
        e.prove(eq(v, self._element()), "stream.element")

    def get(self, index):
        if index is not None:
            self.h.v.e.prove(eq(index, self.i), "stream.element-index")
        return self._element()


class Offsets:
    """Monitored offset callback: called once per element, in order, with its byte aligned position."""

    def __init__(self, spec):
        self.h = Hidden(spec)
        self.calls = 0

    def cb(self, index, pos):
        s = self.h.v
        s.hook(self.calls)
        s.e.prove(And(self.calls < s.n, eq(index, self.calls)), "offset.index")
        s.e.prove(eq(pos, s.q(self.calls)), "offset.position")
        self.calls = self.calls + 1


OPS = ("bitsizeof", "initialize_offsets", "write", "read")


def make(op, kind, aligned, auto, needs_index=False, packed=False, implicit=None):
    def fn(e):
        s = Spec(e, kind, aligned, auto, packed, csize=implicit)
        n = s.n
        t = s.traits(needs_index)
        raw = SList.abstract(s.elem, n)
        off = Offsets(s)
        kw = dict(is_auto=auto, is_implicit=implicit is not None)
        if aligned:
            kw.update(set_offset_method=off.cb, check_offset_method=off.cb)
        A = ns().array.Array
        sfx = "_packed" if packed else ""

        def varsize(v):
            e.prove(eq(v, n), "bitsizeof_varsize.argument")
            e.prove(auto, "bitsizeof_varsize.only-for-auto")
            return s.vs
        with patched(ns(), {"bitsizeof:bitsizeof_varsize": varsize}):
            end = s.p(n)
            if op == "read":
                rest = e.int("rest", 0, None if implicit is None else implicit - 1)
                st = Stream(s, end + rest)
                a = A(t, SList([]), **kw)
                if e.choose(2):
                    old = SList.abstract(lambda k: from_sbits(z3.Function("old", z3.IntSort(), z3.BitVecSort(66))(zint(k))), e.int("old-n", 0))
                    a = A(t, old, **kw)
                rd = getattr(a, "read" + sfx)
                guard(e, lambda: rd(st, e.int("given-size", 0) if implicit is not None or auto else n), "read" + sfx)
                e.prove(eq(st.bitposition, end), "read.end-position")
                e.prove(eq(st.i, n), "read.count")
                if aligned:
                    e.prove(eq(off.calls, n), "read.offsets-checked")
                prove_seq_eq(a.raw_array, raw, "read.elements")
                e.reach("end")
                return
            a = A(t, raw, **kw)
            f = getattr(a, op + sfx)
            if op == "write":
                st = Stream(s)
                guard(e, lambda: f(st), "write")
                e.prove(eq(st.bitposition, end), "write.end-position")
                e.prove(eq(st.i, n), "write.count")
                e.prove(st.prefixed == (1 if auto else 0), "write.length-prefix")
            else:
                _, r = guard(e, lambda: f(s.start), op)
                e.prove(eq(r, end if op == "initialize_offsets" else end - s.start), op + ".exact")
            if aligned and op != "bitsizeof":
                e.prove(eq(off.calls, n), op + ".offsets")
            prove_seq_eq(a.raw_array, SList.abstract(s.elem, n), op + ".array-unchanged")
        e.reach("end")
    return fn


def const_layout(e):
    """Inductive step of the closed form of a byte aligned array of constant-size elements (and of the plain one)."""
    up = Spec.up
    a, c, T, W = e.int("a", 0), e.int("c", 1), e.int("T", 0), None
    w8 = up(c)
    base = 8 * a
    pk = base + c + 8 * T                    # P(k) with 8*T = (k-1)*up(c), a multiple of 8 as up(c) is
    e.prove(eq(up(pk) + c, base + c + 8 * T + w8), "lemma.const-layout.step")
    e.prove(eq(w8 % 8, 0), "lemma.const-layout.multiple")
    s = e.int("s", 0)
    e.prove(eq(up(s) + c, up(s) + c + 0), "lemma.const-layout.base")
    U = e.int("U", 0)
    e.prove(eq(s + U + c, s + (U + c)), "lemma.const-layout.plain-step")
    e.reach("end")


def from_reader(packed):
    """The factory methods construct the array with the given layout and read it."""
    def fn(e):
        calls = []
        A = ns().array.Array
        rd, size = Hidden(0), e.int("size", 0)
        so, co = (lambda i, p: None), (lambda i, p: None)

        class T:
            _dv_opaque = True
            packed_traits = Hidden(1)
        t = T()
        auto, implicit = bool(e.choose(2)), bool(e.choose(2)) and not packed
        offs = bool(e.choose(2))
        kw = dict(is_auto=auto)
        if not packed:
            kw["is_implicit"] = implicit
        if offs:
            kw.update(set_offset_method=so, check_offset_method=co)
        ref = A(t, **kw)

        def stub(self, reader, n=0):
            calls.append(1)
            e.prove(reader is rd, "from_reader.reader")
            e.prove(eq(n, size), "from_reader.size")
            same = all(k in self.__dict__ and (self.__dict__[k] is v or (v == [] and self.__dict__[k] == [])) for k, v in ref.__dict__.items())
            e.prove(same, "from_reader.layout")
        with patched(ns(), {"array:Array.read_packed" if packed else "array:Array.read": stub}):
            f = A.from_reader_packed if packed else A.from_reader
            _, r = guard(e, lambda: f(t, rd, size, **kw), "from_reader")
        e.prove(type(r) is A and len(calls) == 1, "from_reader.read-once")
        e.reach("end")
    return fn


class Tokens:
    """Stream operations performed by element traits, as (format, value, width) tokens."""

    def __init__(self, script=None):
        self.log, self.script = [], script

    def op(self, kind, *a):
        self.log.append((kind,) + a)
        return self.script

    def write_bits(self, v, n):
        self.op("u", v, n)

    def write_signed_bits(self, v, n):
        self.op("s", v, n)

    def write_bool(self, v):
        self.op("bool", v)
    write_bits_unchecked, write_signed_bits_unchecked = write_bits, write_signed_bits

    def read_bits(self, n):
        return self.op("u", n)

    def read_signed_bits(self, n):
        return self.op("s", n)

    def read_bool(self):
        return self.op("bool")
    read_bits_unchecked, read_signed_bits_unchecked = read_bits, read_signed_bits

    def __getattr__(self, name):
        if name.startswith("write_"):
            return lambda v: self.op(name[6:], v)
        if name.startswith("read_"):
            return lambda: self.op(name[5:])
        raise AttributeError(name)


CONCRETE = {"VarUInt16": "varuint16", "VarUInt32": "varuint32", "VarUInt64": "varuint64", "VarUInt": "varuint", "VarInt16": "varint16", "VarInt32": "varint32",
            "VarInt64": "varint64", "VarInt": "varint", "VarSize": "varsize", "Bytes": "bytes", "String": "string", "BitBuffer": "bitbuffer",
            "Float16": 16, "Float32": 32, "Float64": 64, "Bool": 1}


def traits_case(name):
    """A concrete traits class meets the element contract in terms of the leaf codec of its type."""
    def fn(e):
        arr, bs = ns().array, ns().bitsizeof
        pos = e.int("position", 0)
        if name in ("BitField", "SignedBitField"):
            n = e.int("numbits", 1, 64)
            t = getattr(arr, name + "ArrayTraits")(n)
            fmt, size = ("u" if name == "BitField" else "s"), n
        else:
            t = getattr(arr, name + "ArrayTraits")()
            fmt = CONCRETE[name]
            size = fmt if type(fmt) is int else None
            if size:
                fmt = "float%d" % size if size > 1 else "bool"
        v = e.int("value")      # an arbitrary value: the traits only pass it on
        width = (size,) if name in ("BitField", "SignedBitField") else ()
        stubs = {}
        if size is None:
            sz = e.int("leaf-size", 0)

            def leaf(x):
                e.prove(eq(x, v), "leaf-bitsizeof.argument")
                return sz
            stubs["bitsizeof:bitsizeof_" + fmt] = leaf
            size = sz
        with patched(ns(), stubs):
            if t.HAS_BITSIZEOF_CONSTANT:
                _, r = guard(e, lambda: t.bitsizeof(), "bitsizeof")
            elif t.NEEDS_BITSIZEOF_POSITION:
                _, r = guard(e, lambda: t.bitsizeof(pos, v), "bitsizeof")
            else:
                _, r = guard(e, lambda: t.bitsizeof(v), "bitsizeof")
            e.prove(eq(r, size), "traits.bitsizeof")
            _, r = guard(e, lambda: t.initialize_offsets(pos, v), "initialize_offsets")
            e.prove(eq(r, pos + size), "traits.initialize_offsets")
            w = Tokens()
            guard(e, lambda: t.write(w, v), "write")

            def same(log, want):
                if len(log) != 1 or log[0][0] != want[0] or len(log[0]) != len(want):
                    return False
                return And(True, *[eq(a, b) for a, b in zip(log[0][1:], want[1:])])
            e.prove(same(w.log, (fmt, v) + width), "traits.write")
            rd = Tokens(v)
            _, r = guard(e, lambda: t.read(rd, e.int("index", 0)) if t.NEEDS_READ_INDEX else t.read(rd), "read")
            e.prove(same(rd.log, (fmt,) + width), "traits.read")
            e.prove(eq(r, v), "traits.read.value")
            pt = t.packed_traits
            if name.startswith(("Var", "BitField", "Signed")):
                e.prove(isinstance(pt, arr.PackedArrayTraits), "traits.packed")
        e.reach("end")
    return fn


def object_traits(packed):
    def fn(e):
        arr = ns().array
        pos, size, idx = e.int("position", 0), e.int("size", 0), e.int("index", 0)
        log, ctx, stream = [], Hidden("ctx"), Hidden("stream")

        class Obj:
            _dv_opaque = True

            def bitsizeof(self, p):
                log.append(("bitsizeof", p))
                return size

            def initialize_offsets(self, p):
                log.append(("initialize_offsets", p))
                return p + size

            def write(self, w):
                log.append(("write", w))

            def init_packing_context(self, c):
                log.append(("init", c))

            def bitsizeof_packed(self, c, p):
                log.append(("bitsizeof", c, p))
                return size

            def initialize_offsets_packed(self, c, p):
                log.append(("initialize_offsets", c, p))
                return p + size

            def write_packed(self, c, w):
                log.append(("write", c, w))
        o = Obj()

        class Factory:
            IS_OBJECT_PACKABLE = packed

            @staticmethod
            def create(reader, index):
                log.append(("read", reader, index))
                return o

            @staticmethod
            def create_packed(c, reader, index):
                log.append(("read", c, reader, index))
                return o

            @staticmethod
            def create_packing_context():
                log.append(("create",))
                return ctx

        def done(want, name):
            ok = len(log) == 1 and len(log[0]) == len(want) and all(a is b or (not isinstance(a, Hidden) and a == b if isinstance(a, str) else eq(a, b) is True if not isinstance(a, Hidden) else False)
                                                                    for a, b in zip(log[0], want))
            log.clear()
            e.prove(ok, "object-traits." + name)
        t = arr.ObjectArrayTraits(Factory)
        if packed:
            p = t.packed_traits
            e.prove(isinstance(p, arr.ObjectPackedArrayTraits), "object-traits.packed")
            e.prove(guard(e, lambda: p.create_context(), "create")[1] is ctx, "object-traits.create")
            done(("create",), "create")
            guard(e, lambda: p.init_context(ctx, o), "init")
            done(("init", ctx), "init")
            e.prove(eq(guard(e, lambda: p.bitsizeof(ctx, pos, o), "bitsizeof")[1], size), "object-traits.size")
            done(("bitsizeof", ctx, pos), "bitsizeof")
            e.prove(eq(guard(e, lambda: p.initialize_offsets(ctx, pos, o), "offsets")[1], pos + size), "object-traits.end")
            done(("initialize_offsets", ctx, pos), "initialize_offsets")
            guard(e, lambda: p.write(ctx, stream, o), "write")
            done(("write", ctx, stream), "write")
            e.prove(guard(e, lambda: p.read(ctx, stream, idx), "read")[1] is o, "object-traits.read")
            done(("read", ctx, stream, idx), "read-args")
        else:
            e.prove(t.packed_traits is None, "object-traits.not-packable")
            e.prove(eq(guard(e, lambda: t.bitsizeof(pos, o), "bitsizeof")[1], size), "object-traits.size")
            done(("bitsizeof", pos), "bitsizeof")
            e.prove(eq(guard(e, lambda: t.initialize_offsets(pos, o), "offsets")[1], pos + size), "object-traits.end")
            done(("initialize_offsets", pos), "initialize_offsets")
            guard(e, lambda: t.write(stream, o), "write")
            done(("write", stream), "write")
            e.prove(guard(e, lambda: t.read(stream, idx), "read")[1] is o, "object-traits.read")
            done(("read", stream, idx), "read-args")
        e.reach("end")
    return fn


def prepare():
    ns()


def cases(tier):
    cs = [Case("const-layout", const_layout), Case("from_reader", from_reader(False)), Case("from_reader_packed", from_reader(True))]
    for op in OPS:
        for kind in ("const", "value", "position"):
            for aligned in (False, True):
                for auto in (False, True):
                    for idx in ((False, True) if op == "read" else (False,)):
                        nm = "%s-%s%s%s%s" % (op, kind, "-offsets" if aligned else "", "-auto" if auto else "", "-indexed" if idx else "")
                        cs.append(Case(nm, make(op, kind, aligned, auto, idx)))
        for aligned in (False, True):
            for auto in (False, True):
                cs.append(Case("%s-packed%s%s" % (op, "-offsets" if aligned else "", "-auto" if auto else ""), make(op, "value", aligned, auto, op == "read", True)))
    for c in range(1, 65):
        cs.append(Case("read-implicit-%d" % c, make("read", "const", False, False, implicit=c)))
    for op in OPS[:3]:
        cs.append(Case(op + "-implicit", make(op, "const", False, False, implicit=8)))
    for name in ["BitField", "SignedBitField"] + list(CONCRETE):
        cs.append(Case("traits-" + name, traits_case(name)))
    cs += [Case("traits-Object", object_traits(False)), Case("traits-ObjectPacked", object_traits(True))]
    return cs


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.arrays(seed, budget, hints)
