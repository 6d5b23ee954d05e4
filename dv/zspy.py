"""Contracts of the Python runtime for generated code: ghost writer and reader, sizes, alignment, hash codes, packing
contexts; and the construction of arbitrary objects of generated classes."""
import importlib
import importlib.abc
import os
import sys
import types

import z3

from dv import jbuild, pyload
from dv.core import LInt, SBool, SInt, And, Not, Or, Unsupported, cur, eq, is_sym
from dv.pyharness import ns, PRE
from dv.zs import VAR_RANGE, EnumV, Invalid, Schema, Scope, T, limits
from dv.zsref import Api, GVal, Item, Layout, Stream, align_up, key, offset_fields, same, size_of

VARS = ("varint16", "varint32", "varint64", "varint", "varuint16", "varuint32", "varuint64", "varuint", "varsize")


def _limit(n, signed):
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)


def _bad(msg):
    raise PRE()(msg)


class GhostWriter(Stream):
    """Contract of BitStreamWriter: a value in range is appended, any other is refused."""

    def __init__(self, pos):
        super().__init__(pos)

    @property
    def bitposition(self):
        return self.pos

    def write_bits(self, value, numbits):
        if type(numbits) is int and numbits <= 0:
            _bad("numbits")
        elif not (numbits >= 1 and numbits <= 64):
            _bad("numbits")
        if value is None:
            raise TypeError("None")
        if not (value >= 0 and value < _pow2(numbits)):
            _bad("value out of range")
        self.u(numbits, value)

    def write_signed_bits(self, value, numbits):
        if not (numbits >= 1 and numbits <= 64):
            _bad("numbits")
        if not (value >= -_pow2(numbits - 1) and value < _pow2(numbits - 1)):
            _bad("value out of range")
        self.s(numbits, value)

    def write_bool(self, value):
        self.boolean(value if type(value) is SBool else bool(value))

    def alignto(self, n):
        self.align(n)

    def write_string(self, v):
        self._blob("string", v)

    def write_bytes(self, v):
        self._blob("bytes", v)

    def write_bitbuffer(self, v):
        self._blob("extern", v)

    def _blob(self, kind, v):
        if type(v) is not GVal or v.kind != kind:
            raise TypeError("%s expected, got %s" % (kind, type(v).__name__))
        self.blob(kind, v)

    def _float(self, n, v):
        if type(v) is not GVal or v.kind != "f%d" % n:
            raise TypeError("float%d expected" % n)
        self.flt(n, v)

    def write_float16(self, v):
        self._float(16, v)

    def write_float32(self, v):
        self._float(32, v)

    def write_float64(self, v):
        self._float(64, v)


def _pow2(n):
    if type(n) is int:
        return 1 << n
    return 1 << n


def _mkvar(kind):
    def write(self, value):
        lo, hi = VAR_RANGE[kind]
        if not (value >= lo and value <= hi):
            _bad("value out of range")
        self.var(kind, value)
    return write


def _mkrvar(kind):
    def read(self):
        return self._take(kind)[0]
    return read


class GhostReader:
    """Contract of BitStreamReader on a stream of items: each read delivers the value the matching write stored and
    moves past its bits.  Reading with another operation or width than the item was stored with is an error of the
    code under test (the check fails), except where both denote the same bits."""

    def __init__(self, items, pos, end):
        self.items, self.pos, self.end, self.i = items, pos, end, 0

    @property
    def bitposition(self):
        return self.pos

    @property
    def buffer_bitsize(self):
        return self.end

    def _take(self, kind):
        e = cur()
        if self.i < len(self.items) and self.items[self.i].kind == "pad" and kind != "pad":
            it = self.items[self.i]
            if not e.must(eq(it.size, 0)):
                e.fail("read.alignment", "%s is read where the stream has padding" % kind)
            self.i += 1
        if self.i >= len(self.items):
            e.fail("read.beyond", "%s is read beyond what was written" % kind)
        it = self.items[self.i]
        if it.kind != kind:
            e.fail("read.kind", "%s is read where the stream has %s" % (kind, it.kind))
        e.prove(eq(self.pos, it.pos), "read.position")
        self.i += 1
        self.pos = self.pos + it.size
        return it.args

    def read_bits(self, n):
        if self._kind() == "bool" and type(n) is int and n == 1:
            v = self._take("bool")[0]
            return v.as_int() if type(v) is SBool else int(v)
        if self._kind() == "s" and type(n) is int and n > 0:
            m, v = self._take("s")
            cur().prove(eq(m, n), "read.width")
            return v % (1 << n)
        m, v = self._take("u")
        cur().prove(eq(m, n), "read.width")
        return v

    def read_signed_bits(self, n):
        m, v = self._take("s")
        cur().prove(eq(m, n), "read.width")
        return v

    def read_bool(self):
        if self._kind() == "u":
            m, v = self._take("u")
            cur().prove(eq(m, 1), "read.width")
            return v != 0
        return self._take("bool")[0]

    def _kind(self):
        return self.items[self.i].kind if self.i < len(self.items) else None

    def alignto(self, n):
        to = align_up(n, self.pos)
        if self._kind() == "pad":
            it = self.items[self.i]
            if cur().must(eq(it.size, to - self.pos)):
                self.i += 1
                self.pos = to
                return
        cur().prove(eq(to, self.pos), "read.alignment")
        self.pos = to

    def read_string(self):
        return self._take("string")[0]

    def read_bytes(self):
        return self._take("bytes")[0]

    def read_bitbuffer(self):
        return self._take("extern")[0]

    def read_float16(self):
        return self._take("f16")[0]

    def read_float32(self):
        return self._take("f32")[0]

    def read_float64(self):
        return self._take("f64")[0]


for _k in VARS:
    setattr(GhostWriter, "write_" + _k, _mkvar(_k))
    setattr(GhostReader, "read_" + _k, _mkrvar(_k))


class GhostDelta:
    """Contract of DeltaContext (P10): initialised with the elements in order, it predicts for the k-th element
    exactly the bits the k-th write stores, and reading in the same order returns the elements."""

    def __init__(self):
        self.inits, self.sized, self.written, self.nread = [], 0, 0, 0

    @staticmethod
    def _item(traits, v):
        w = GhostWriter(0)
        traits.write(w, v)
        if len(w.items) != 1:
            raise Unsupported("array traits write %d items" % len(w.items))
        return w.items[0]

    def init(self, traits, element):
        self.inits.append(self._item(traits, element))

    def _check(self, k, it):
        e = cur()
        if k >= len(self.inits):
            e.fail("packing.not-initialised", "element %d was not announced to the packing context" % k)
        j = self.inits[k]
        e.prove(j.kind == it.kind and And(*[same(a, b) for a, b in zip(j.args, it.args)]), "packing.order")

    def bitsizeof(self, traits, element):
        it = self._item(traits, element)
        k = self.sized
        self.sized += 1
        self._check(k, it)
        s = Stream(0)
        s.delta(self.inits, k, it)
        return s.pos

    def write(self, traits, writer, element):
        it = self._item(traits, element)
        k = self.written
        self.written += 1
        self._check(k, it)
        writer.delta(self.inits, k, it)

    def read(self, traits, reader):
        inits, idx, it = reader._take("delta")
        e = cur()
        e.prove(idx == self.nread, "packing.read-order")
        if self.nread == 0:
            self.inits = inits
        e.prove(inits is self.inits or (len(inits) == len(self.inits) and And(*[
            And(a.kind == b.kind, *[same(x, y) for x, y in zip(a.args, b.args)]) for a, b in zip(inits, self.inits)])),
            "packing.read-context")
        self.nread += 1
        r = GhostReader([Item(it.kind, it.args, 0, it.size)], 0, it.size)
        return traits.read(r)


class HashTerm:
    """Uninterpreted hash code: equal when built alike from equal values."""

    def __init__(self, *parts):
        self.parts = parts


def hash_same(a, b):
    if type(a) is HashTerm or type(b) is HashTerm:
        if type(a) is not type(b) or len(a.parts) != len(b.parts):
            return False
        return And(True, *[hash_same(x, y) for x, y in zip(a.parts, b.parts)])
    return same(a, b)


def _hash_of(v):
    return type(v).__hash__(v)


def _stub_scalar(kind):
    def calc(seed, value):
        return HashTerm(kind, seed, value)
    return calc


def _stub_object(seed, value):
    return HashTerm("object", seed, None if value is None else _hash_of(value))


def _stub_array(kind):
    def calc(seed, values):
        return HashTerm(kind, seed, *list(values))
    return calc


def _stub_objects(seed, values):
    return HashTerm("objects", seed, *[None if v is None else _hash_of(v) for v in values])


def contracts():
    r = {"bitposition:alignto": align_up, "array:DeltaContext": GhostDelta}
    for k in VARS:
        r["bitsizeof:bitsizeof_" + k] = (lambda kk: lambda v: size_of(kk, v))(k)
    r["bitsizeof:bitsizeof_string"] = lambda v: size_of("string", v)
    r["bitsizeof:bitsizeof_bytes"] = lambda v: size_of("bytes", v)
    r["bitsizeof:bitsizeof_bitbuffer"] = lambda v: size_of("extern", v)
    for k in ("bool", "int32", "int64", "float32", "float64", "bytes", "string"):
        r["hashcode:calc_hashcode_" + k] = _stub_scalar(k)
    for k in ("bool", "int", "float32", "float64", "bytes", "string"):
        r["hashcode:calc_hashcode_%s_array" % k] = _stub_array(k + "s")
    r["hashcode:calc_hashcode_object"] = _stub_object
    r["hashcode:calc_hashcode_object_array"] = _stub_objects
    return r


# --- generated code

class Generated:
    """The generated packages of one corpus, imported over the current runtime."""

    def __init__(self, directory, shims=True, runtime=None):
        self.dir = directory
        self.classes, self.modules = {}, []
        runtime = runtime or ns()
        for k in [k for k in sys.modules if k == "zserio" or k.startswith("zserio.")]:
            del sys.modules[k]
        sys.modules["zserio"] = runtime.pkg
        for m in pyload.MODULES:
            sys.modules["zserio." + m] = getattr(runtime, m)
        tops = sorted(d for d in os.listdir(directory))
        for t in tops:
            for k in [k for k in sys.modules if k == t or k.startswith(t + ".")]:
                del sys.modules[k]
        sys.path.insert(0, directory)
        sys.dont_write_bytecode = True
        try:
            importlib.invalidate_caches()
            for root, _, files in sorted(os.walk(directory)):
                for f in sorted(files):
                    if f.endswith(".py") and f not in ("__init__.py", "api.py"):
                        rel = os.path.relpath(os.path.join(root, f), directory)[:-3].replace(os.sep, ".")
                        m = importlib.import_module(rel)
                        self.modules.append(m)
                        for n, v in vars(m).items():
                            if isinstance(v, type) and v.__module__ == rel:
                                self.classes[n] = v
        finally:
            sys.path.remove(directory)
        if shims:
            for m in self.modules:
                pyload.apply_shims(m)


def inst_name(t):
    return "_".join([t.name] + [inst_name(x) for x in t.targs])


class Maker:
    """Creates arbitrary objects of generated classes, field by field in schema order."""

    LIMIT = 24
    tries = 1
    linear_offsets = True

    def __init__(self, schema, gen, e, valid=True, prefix="", depth=3):
        self.s, self.g, self.e, self.valid, self.prefix = schema, gen, e, valid, prefix
        self.api = Api()
        self.count = 0
        self.prod = 1
        self.base = None
        self.n = self.wrong = 0
        self.wide, self.ints, self.wide_ids, self.keep = None, 0, set(), []
        self.ctor = None
        self.max_len = 2

    def pick(self, n):
        if n == 1:
            return 0
        if self.prod * n <= self.LIMIT:
            self.prod *= n
            return self.e.choose(n)
        if self.base is None:
            self.base = self.e.choose(3)
        self.n += 1
        return (self.n * (self.base + 1) + self.base) % n

    def name(self, base):
        self.count += 1
        return "%s%s.%d" % (self.prefix, base, self.count)

    def cls(self, rt):
        c = self.g.classes.get(inst_name(rt))
        if c is None:
            for d in self.s.decls.values():
                if getattr(d, "inst", False) and inst_name(d.type) == inst_name(rt):
                    c = self.g.classes.get(d.name)
        if c is None:
            raise Unsupported("no generated class for %s" % inst_name(rt))
        return c

    def scalar(self, t, name, scope):
        """An arbitrary value of a non-compound type."""
        e, s = self.e, self.s
        ik = s.int_kind(t)
        if self.is_offset and ik:
            return e.int(self.name(name), *limits(ik))
        if ik:
            if self.wide is not None and scope.index is None and not (ik[0] != "var" and ik[1] is None):
                self.ints += 1
                if self.ints == self.wide:
                    v = e.bv(self.name(name), -(1 << 66), 1 << 66)
                    self.wide_ids.add(id(v))
                    self.keep.append(v)
                    return v
            if ik[0] == "var":
                return e.bv(self.name(name), *VAR_RANGE[ik[1]])
            if ik[1] is not None:
                return e.bv(self.name(name), *_limit(ik[1], ik[0] == "s"))
            n = scope.eval(t.dyn)
            if type(n) is int:
                if not 1 <= n <= 64:
                    raise Unsupported("dynamic width %d" % n)
                return e.bv(self.name(name), *_limit(n, ik[0] == "s"))
            v = e.bv(self.name(name), *((-(1 << 63), (1 << 63) - 1) if ik[0] == "s" else (0, (1 << 64) - 1)))
            if ik[0] == "s":
                e.assume(And(v >= -(1 << (n - 1)), v < (1 << (n - 1))))
            else:
                e.assume(v < (1 << n))
            return v
        if t.name == "bool":
            return e.bool(self.name(name))
        if t.name in ("string", "bytes", "extern"):
            return GVal(t.name, z3.Int(self.name(name)))
        if t.name.startswith("float"):
            return GVal("f" + t.name[5:], z3.Int(self.name(name)))
        d = s.decl(t)
        c = self.cls(t)
        if d.k == "enum":
            items = list(c)
            return items[self.pick(len(items))]
        if d.k == "bitmask":
            wide, self.wide = self.wide, None
            v = self.scalar(s.resolve(d.type), name, scope)
            self.wide = wide
            return c.from_value(v)
        raise Unsupported(t.name)

    def value(self, t, name, scope):
        rt = self.s.resolve(t, scope.env)
        d = self.s.decl(rt)
        if d is not None and d.k in ("struct", "union", "choice"):
            params = {}
            for (n, pt), a in zip(d.params, rt.args or ()):
                v = scope.eval(a)
                if isinstance(v, EnumV):
                    v = self.as_object(v)
                if not self.valid and scope.index is None and self.wrong < 3 and not hasattr(v, "bitsizeof") and self.pick(2) and type(v) is not bool and not isinstance(v, SBool):
                    self.wrong += 1
                    v = self.scalar(self.s.resolve(pt), name + "." + n, scope)
                params[n] = v
            return self.compound(rt, params, name)
        return self.scalar(rt, name, scope)

    def as_object(self, v):
        c = self.g.classes[v.decl.name]
        return c(v.value) if v.decl.k == "enum" else c.from_value(v.value)

    def compound(self, rt, params, name):
        d = self.s.decl(rt)
        c = self.cls(rt)
        env = self.s.tenv(rt)
        sn = self.api.snake
        kw = {sn(n) + "_": v for n, v in params.items()}
        obj = c(**kw)
        sc = Scope(self.s, d, obj, params, env, None, self.api)
        given = {}

        def put(f, v):
            setattr(obj, sn(f.name), v)
            given[sn(f.name) + "_"] = v
        if d.k == "struct":
            lay = Layout(self.s, None, self.api)
            for f in d.fields:
                if f.optional:
                    if not self.pick(2):
                        continue
                elif f.cond is not None and not sc.eval(f.cond):
                    continue
                self.fill(f, put, sc, name)
        elif d.k == "union":
            self.fill(d.fields[self.pick(len(d.fields))], put, sc, name)
        else:
            try:
                f = Layout(self.s, None, self.api).chosen(d, sc)
            except Invalid:
                if self.valid:
                    self.e.assume(False)
                f = None
            if f is not None:
                self.fill(f, put, sc, name)
        if self.ctor is None:
            self.ctor = self.pick(2)
        if self.ctor:
            obj = c(**kw, **given)
        return obj

    is_offset = False

    def fill(self, f, put, sc, name):
        self.is_offset = self.linear_offsets and (sc.decl.name, f.name) in offset_fields(self.s)
        for i in range(self.tries):
            put(f, self.field(f, sc, name))
            if not self.valid or f.constraint is None or sc.eval(f.constraint):
                self.is_offset = False
                return
        self.is_offset = False
        self.e.assume(False)

    def field(self, f, sc, name):
        nm = name + "." + f.name
        if f.array is None:
            return self.value(f.type, nm, sc)
        n = self.pick(self.max_len + 1)
        if f.array[0] == "len":
            want = sc.eval(f.array[1])
            if type(want) is int and not 0 <= want <= 1000:
                raise Invalid("array length")
            if type(want) is int and (self.valid or self.pick(2)):
                n = want
            elif self.valid:
                self.e.assume(eq(want, n))
        return [self.value(f.type, "%s[%d]" % (nm, i), Scope(self.s, sc.decl, sc.obj, sc.params, sc.env, i, self.api))
                for i in range(n)]


def clone_params(maker, d, rt, name):
    """Arbitrary parameter values for a top-level object."""
    res = {}
    for n, pt in d.params:
        t = maker.s.resolve(pt, maker.s.tenv(rt))
        dd = maker.s.decl(t)
        if dd is not None and dd.k in ("struct", "union", "choice"):
            res[n] = maker.compound(t, clone_params(maker, dd, t, n), n)
        else:
            res[n] = maker.scalar(t, n, Scope(maker.s, None, None, {}, {}, None, maker.api))
    return res
