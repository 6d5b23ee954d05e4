"""P13  Enum and bitmask values of the Python runtime: JSON text written by JsonWriter is read back by JsonReader."""
import itertools
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.pyload import patched
from dv.rope import Abs, Con, prove_seq_eq
from dv.text import SText, SChar
from checks.p12 import chars, text, Encoder, JsonModule

FUNCTIONS = ["JsonWriter.visit_value", "JsonWriter._write_value", "JsonWriter._write_stringified_enum", "JsonWriter._write_stringified_bitmask",
             "JsonReader.read", "JsonReader._CreatorAdapter (all observer methods used)", "_convert_value", "_enum_from_string", "_bitmask_from_string",
             "_parse_enum_string_value", "_parse_bitmask_string_value", "_parse_bitmask_numeric_string_value", "ZserioTreeCreator (root, set_value, get_field_type)"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers, texts and loop cutting (while loops are "
           "mechanically rewritten to for loops over an unbounded iterator on load)", "z3",
           "contracts: JsonEncoder/JsonDecoder text round trip (P12), the parser hands keys and values to its observer in order, int() and str() of decimal digits, str.split and str.strip",
           "generated bitmask classes: from_value keeps a value in the type's range and raises the runtime's exception otherwise"]
ASSUMPTIONS = ["names of a type are distinct identifiers"]
BOUNDED = ["at most 5 names per type (names concrete, including prefixes of each other; their 64-bit values arbitrary)", "arbitrary texts starting with a letter: at most 3 '|'-separated parts"]
NOTE = ("all 64-bit bitmask values, all values of the names, texts of any length and content; bounded: at most 5 names per type, at most 3 parts in arbitrary "
        "'|'-separated texts (each part a name or not)")
NAMES = ["READ", "READ_2", "_x", "READ_WRITE", "R"]


class Out:
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)


class Setup:
    """A type with one field f of an enum or bitmask type, the real TypeInfo classes, and JSON text through the P12 contract."""

    def __init__(self, e, kind, n):
        N = ns()
        self.e, self.kind, T = e, kind, N.typeinfo
        self.vals = []
        e_ = e

        class Mask:
            def __init__(self):
                self._v = 0

            @classmethod
            def from_value(cls, v):
                if v < 0 or v > (1 << 64) - 1:
                    raise N.exception.PythonRuntimeException("out of bounds")
                o = cls()
                o._v = v
                return o

            @property
            def value(self):
                return self._v

        class Item:
            def __init__(self, v=0):
                raise ValueError("not an item")

            @property
            def value(self):
                return self._v
        self.cls = Mask if kind == "bitmask" else Item
        items = []
        for i in range(n):
            it = object.__new__(self.cls)
            it._v = e.bv("item%d" % i, 0, (1 << 64) - 1) if kind == "bitmask" else i
            items.append(it)
        self.items = items
        infos = [T.ItemInfo(NAMES[i], it, False, False) for i, it in enumerate(items)]
        A = T.TypeAttribute
        self.ti = T.TypeInfo("test.Type", self.cls, attributes={A.BITMASK_VALUES if kind == "bitmask" else A.ENUM_ITEMS: infos})
        self.mi = T.MemberInfo("f", self.ti, attributes={T.MemberAttribute.PROPERTY_NAME: "prop"})

        class Root:
            def __init__(self):
                self.prop = None
        self.root = T.TypeInfo("test.Root", Root, attributes={A.FIELDS: [self.mi]})

    def write(self, value):
        """The text the real writer encodes for the value."""
        e, J = self.e, ns().json
        encoded = []

        def make(v, ascii_):
            encoded.append(v)
            return "\x00%d\x00" % (len(encoded) - 1)
        old = J.__dict__["json"]
        Encoder.made = staticmethod(make)
        J.__dict__["json"] = JsonModule
        out = Out()
        try:
            guard(e, lambda: J.JsonWriter(text_io=out).visit_value(value, self.mi), "write")
        finally:
            J.__dict__["json"] = old
        got = "".join(out.parts)
        toks = got.split("\x00")
        seen = [int(t) for t in toks[1::2]]
        e.prove(len(seen) == 2 and isinstance(encoded[seen[0]], str) and encoded[seen[0]] == "f", "write.one-key-one-value")
        return encoded[seen[-1]]

    def read(self, value, exc=None):
        """The field value the real reader creates for a JSON value."""
        e, J = self.e, ns().json

        class Parser:
            def __init__(self, text_io, observer):
                self.o = observer

            def parse(self):
                o = self.o
                o.begin_object()
                o.visit_key("f")
                o.visit_value(value)
                o.end_object()
                return True

            def get_line(self):
                return 1

            get_column = get_line
        with patched(ns(), {"json:JsonParser": Parser}):
            bad, r = guard(e, lambda: J.JsonReader(None).read(self.root), "read", exc)
        return (True, None) if bad else (False, r.prop)


def digits(e, name="digit"):
    """Decimal digits of some length >= 1."""
    L = e.int(name + "s", 1)
    D, get = chars(name)

    def hook(k):
        for j in (k - 1, k):
            jz = zint(j)
            e.assume(z3.Implies(z3.And(jz >= 0, jz < zint(L)), z3.And(z3.UGE(D(jz), 48), z3.ULE(D(jz), 57))))
    e.index_hooks.append(hook)
    hook(0)
    hook(L)

    def digit(j):
        hook(j)
        return get(j)
    return SText([Abs(digit, L)]), L


def number_loops(e, L):
    e.cut_while = True
    e.while_bound = [L - 1, L, L + 1]
    e.shapes += [lambda k: k + 1, lambda k: k]


def mask_case(n):
    def fn(e):
        s = Setup(e, "bitmask", n)
        value = e.bv("value", 0, (1 << 64) - 1)
        txt, L = digits(e)

        def printer(v):
            e.prove(eq(v, value), "write.printed-value")
            return txt
        e.int_printer = printer
        m = s.cls.from_value(value)
        t = s.write(m)
        number_loops(e, L)

        def parse(x, *a):
            prove_seq_eq(x, txt, "read.number-text")
            return value
        e.int_parser = parse
        _, r = s.read(t)
        e.prove(type(r) is s.cls, "read.type")
        e.prove(eq(r.value, value), "round-trip")
        e.reach("end")
    return fn


def enum_case(n):
    def fn(e):
        s = Setup(e, "enum", n)
        it = s.items[e.choose(n)]
        t = s.write(it)
        _, r = s.read(t)
        e.prove(r is it, "round-trip")
        e.reach("end")
    return fn


def enum_text(e):
    """Any text at all for an enum: exactly the items' names are accepted."""
    n = e.choose(3)
    s = Setup(e, "enum", n)
    content, f = text(e, "text", e.int("text-length", 0))
    bad, r = s.read(content, PRE())
    names = [content == NAMES[i] for i in range(n)]
    if bad:
        for i, q in enumerate(names):
            e.prove(Not(q), "rejected.only-when-no-name")
    else:
        e.prove(any(r is it and e.must(names[i]) for i, it in enumerate(s.items)), "accepted.the-named-item")
    e.reach("end")


class Part(SText):
    """One '|'-separated part of an abstract text: after stripping, name number k or some other text."""

    def __init__(self, k):
        SText.__init__(self, [Con([ord(c) for c in NAMES[k]])] if k is not None else [Abs(chars("part")[1], cur_int("part-length"))])
        self.k = k

    def strip(self, *a):
        if a:
            raise Unsupported("strip of given characters")
        return NAMES[self.k] if self.k is not None else Other()


class Other:
    """A text that is none of the names."""
    def __eq__(self, o):
        return self is o
    __hash__ = object.__hash__

    def __format__(self, s):
        return "<other>"


def cur_int(name):
    from dv.core import cur
    return cur().int(name, 0)


class Letters(SText):
    parts = None

    def split(self, sep=None, *a):
        if sep != "|" or a:
            raise Unsupported("split")
        return list(self.parts)


def letter(c):
    return z3.Or(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c == 95)


def mask_text_letters(e):
    n = e.choose(4)
    s = Setup(e, "bitmask", n)
    L = e.int("text-length", 1)
    t, f = text(e, "text", L)
    t.at(0)
    e.assume(letter(f(z3.IntVal(0))))
    t.__class__  # an abstract str
    u = Letters(t.segs)
    ks = [e.choose(n + 1) for _ in range(1 + e.choose(3))]
    u.parts = [Part(k if k < n else None) for k in ks]
    bad, r = s.read(u, PRE())
    if any(k == n for k in ks):
        e.prove(bad, "letters.unknown-name-rejected")
    else:
        e.prove(not bad, "letters.known-names-accepted")
        if not bad:
            want = 0
            for k in ks:
                want = want | s.items[k]._v
            e.prove(eq(r.value, want), "letters.value")
    e.reach("end")


def mask_text_number(e):
    n = e.choose(2)
    s = Setup(e, "bitmask", n)
    dig, L = digits(e)
    m = e.int("rest-length", 0)
    rest, rf = text(e, "rest", m)
    c = rf(z3.IntVal(0))
    e.assume(z3.Implies(zint(m) > 0, z3.Not(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)))))
    number_loops(e, L)
    v = e.bv("parsed", 0, (1 << 70) - 1)

    def parse(x, *a):
        prove_seq_eq(x, dig, "number.leading-digits")
        return v
    e.int_parser = parse
    bad, r = s.read(dig + rest, PRE())
    e.prove(eq(bad, v > (1 << 64) - 1), "number.rejected-iff-out-of-range")
    if not bad:
        e.prove(eq(r.value, v), "number.value")
    e.reach("end")


def mask_text_other(e):
    n = e.choose(2)
    s = Setup(e, "bitmask", n)
    m = e.int("text-length", 0)
    t, f = text(e, "text", m)
    c = f(z3.IntVal(0))
    e.assume(z3.Implies(zint(m) > 0, z3.Not(z3.Or(letter(c), z3.And(z3.UGE(c, 48), z3.ULE(c, 57))))))
    bad, r = s.read(t, PRE())
    e.prove(bad, "other-start.rejected")
    e.reach("end")


def prepare():
    ns()


def cases(tier):
    top = 4 if tier == "quick" else 5
    return ([Case("bitmask-%d-names" % n, mask_case(n)) for n in range(top + 1)] + [Case("enum-%d-items" % n, enum_case(n)) for n in range(1, 5)]
            + [Case("enum-any-text", enum_text), Case("bitmask-text-letter", mask_text_letters), Case("bitmask-text-digit", mask_text_number),
               Case("bitmask-text-other", mask_text_other)])


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.json_names(seed, budget, hints)
