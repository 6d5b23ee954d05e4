"""P12  JSON values of the Python runtime: encoder output decodes to the same value; any text is decoded cleanly."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.rope import Abs, Con, prove_seq_eq
from dv.loops import is_text
from dv.text import SText, SChar

FUNCTIONS = ["JsonDecoder.decode_value", "JsonDecoder._decode_literal", "JsonDecoder._decode_string", "JsonDecoder._decode_unicode_escape",
             "JsonDecoder._decode_number", "JsonDecoder._extract_number", "JsonDecoder.Result", "JsonEncoder.__init__", "JsonEncoder.encode_value"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers, texts and loop cutting (while loops are "
           "mechanically rewritten to for loops over an unbounded iterator on load)", "z3",
           "CPython library contracts: json.JSONEncoder.encode (string escapes with ensure_ascii on or off, decimal integers), int() and float() of text "
           "(a value or ValueError), the unicode-escape codec on \\uXXXX, str.isdigit on ASCII"]
ASSUMPTIONS = ["an encoded integer is followed by the end of the text or a character that cannot continue a number (no digit, '.', 'e', 'E')"]
NOTE = "strings and texts of any length and content, at any position (loop invariants); integers of any number of digits"
CP = 0x10ffff


def chars(name):
    f = z3.Function(name, z3.IntSort(), z3.BitVecSort(21))

    def get(j):
        v = from_ubits(f(zint(j)))
        return v
    return f, get


def text(e, name, n):
    f, get = chars(name)

    def at(j):
        e.assume(z3.ULE(f(zint(j)), CP))
        return get(j)
    return SText([Abs(at, n)]), f


SHORT = {'"': '"', "\\": "\\", "\n": "n", "\r": "r", "\t": "t", "\f": "f", "\b": "b"}


class EncodedString:
    """Contract of json.JSONEncoder(ensure_ascii=...).encode on an abstract string: ghost offsets of its characters."""

    def __init__(self, e, src, f, n, ascii_):
        self.e, self.src, self.f, self.n, self.ascii = e, src, f, n, ascii_
        self.OFF = z3.Function("OFF", z3.IntSort(), z3.IntSort())
        self.C, self.get = chars("encoded")
        self.done = set()
        e.assume(self.OFF(z3.IntVal(0)) == 0)
        e.index_hooks.append(self.hook)
        self.hook(0)
        self.hook(n)
        self.text = SText([Con([34]), Abs(self.get, LInt.atom(self.OFF(zint(n)))), Con([34])])

    def hook(self, k):
        e, kz = self.e, zint(k)
        if str(kz) in self.done:
            return
        self.done.add(str(kz))
        for j in (k - 1, k):
            if type(j) is int and j < 0:
                continue
            self.one(zint(j))
        # offsets grow, so the total is not smaller (induction over k)
        for q in (kz, z3.simplify(kz + 1)):
            e.assume(z3.Implies(z3.And(q >= 0, q <= zint(self.n)), z3.And(self.OFF(q) >= 0, self.OFF(zint(self.n)) - self.OFF(q) >= zint(self.n) - q)))

    def one(self, jz):
        e, c = self.e, self.f(jz)
        off = self.OFF(jz)
        e.assume(z3.ULE(c, CP))
        at = lambda i: self.C(z3.simplify(off + i))
        bv = lambda x: z3.BitVecVal(x, 21)
        hexd = lambda t: z3.If(z3.ULT(t, 10), t + 48, t + 87)
        uesc = lambda i, v: z3.And(at(i) == 92, at(i + 1) == ord("u"), *[at(i + 2 + q) == hexd(z3.LShR(v, 12 - 4 * q) & 15) for q in range(4)])
        short = z3.Or(*[c == ord(x) for x in SHORT])
        letter = bv(0)
        for x, y in SHORT.items():
            letter = z3.If(c == ord(x), bv(ord(y)), letter)
        if not self.ascii:
            esc, length, other = z3.ULT(c, 32), z3.If(short, 2, z3.If(z3.ULT(c, 32), 6, 1)), z3.BoolVal(False)
        else:
            esc = z3.Or(z3.ULT(c, 32), z3.UGT(c, 126))
            other = z3.UGT(c, 0xffff)
            length = z3.If(short, 2, z3.If(other, 12, z3.If(esc, 6, 1)))
        v = c - 0x10000
        body = z3.If(short, z3.And(at(0) == 92, at(1) == letter),
                     z3.If(other, z3.And(uesc(0, 0xd800 + z3.LShR(v, 10)), uesc(6, 0xdc00 + (v & 0x3ff))),
                           z3.If(esc, uesc(0, c), at(0) == c)))
        rng = z3.And(jz >= 0, jz < zint(self.n))
        e.assume(z3.Implies(rng, z3.And(body, self.OFF(z3.simplify(jz + 1)) == off + length)))


class Encoder:
    """Stands for json.JSONEncoder inside zserio.json."""
    made = None

    def __init__(self, **kw):
        known = {"ensure_ascii": True}
        bad = {k: v for k, v in kw.items() if k not in known and v not in (None, False) and k not in ("check_circular", "allow_nan")}
        if bad:
            raise Unsupported("json.JSONEncoder(%s)" % ", ".join(bad))
        self.ascii = kw.get("ensure_ascii", True)

    def encode(self, v):
        return Encoder.made(v, self.ascii)


class JsonModule:
    JSONEncoder = Encoder

    @staticmethod
    def dumps(v, **kw):
        return Encoder(**kw).encode(v)


def with_encoder(made):
    """A JsonEncoder of the real module, on top of the library contract."""
    J = ns().json
    old = J.__dict__.get("json")
    Encoder.made = staticmethod(made)
    J.__dict__["json"] = JsonModule
    return J, old


def decode(e, content, pos, name):
    return guard(e, lambda: ns().json.JsonDecoder.decode_value(content, pos), name)[1]


def string_case(e):
    n = e.int("length", 0)
    src, f = text(e, "string", n)
    made = []

    def make(v, ascii_):
        e.prove(v is src, "encoder.value")
        made.append(EncodedString(e, src, f, n, ascii_))
        return made[0].text
    J, old = with_encoder(make)
    try:
        enc = guard(e, lambda: J.JsonEncoder().encode_value(src), "encode")[1]
    finally:
        J.__dict__["json"] = old
    g = made[0]
    e.prove(enc is g.text, "encoder.result-passed-on")
    pre, _ = text(e, "before", e.int("before-length", 0))
    post, _ = text(e, "after", e.int("after-length", 0))
    content = pre + enc + post
    pos = pre.dv_len()
    e.cut_while = True
    e.while_bound = [n, n + 1]
    off = lambda k: LInt.atom(g.OFF(zint(k)))
    e.shapes += [lambda k: pos + 1 + off(k), lambda k: 1 + off(k), lambda k: off(k)]
    e.str_shapes += [lambda k: [Abs(lambda j: from_ubits(f(zint(j))), k)]]
    r = decode(e, content, pos, "decode")
    e.prove(r.success is True, "string.decoded")
    if not is_text(r.value):
        raise PathEnd()
    v = r.value
    prove_seq_eq(SText.of(v), src, "string.value")
    e.prove(eq(r.num_read_chars, enc.dv_len()), "string.consumed")
    e.reach("end")


def int_case(neg):
    def fn(e):
        L = e.int("digits", 1)
        D, get = chars("digit")
        done = set()

        def hook(k):
            for j in (k - 1, k):
                jz = zint(j)
                e.assume(z3.Implies(z3.And(jz >= 0, jz < zint(L)), z3.And(z3.UGE(D(jz), 48), z3.ULE(D(jz), 57))))
        e.index_hooks.append(hook)
        hook(0)
        hook(L)

        def digit(j):
            hook(j)
            return get(j)
        enc = SText(([Con([45])] if neg else []) + [Abs(digit, L)])
        value = e.int("value")
        J, old = with_encoder(lambda v, ascii_: (e.prove(v is value, "encoder.value"), enc)[1])
        try:
            got = guard(e, lambda: J.JsonEncoder().encode_value(value), "encode")[1]
        finally:
            J.__dict__["json"] = old
        e.prove(got is enc, "encoder.result-passed-on")
        pre, _ = text(e, "before", e.int("before-length", 0))
        m = e.int("after-length", 0)
        post, pf = text(e, "after", m)
        c = pf(z3.IntVal(0))
        e.assume(z3.Implies(zint(m) > 0, z3.And(*[c != ord(x) for x in "0123456789.eE"],
                                               z3.Not(z3.Function("dv.isdigit", z3.BitVecSort(24), z3.BoolSort())(z3.ZeroExt(3, c))))))
        content = pre + enc + post
        pos = pre.dv_len()
        s = 1 if neg else 0
        e.cut_while = True
        e.while_bound = [L - 1, L, L + 1]
        e.shapes += [lambda k: pos + s + k, lambda k: s + k, lambda k: k]

        def parse(t):
            e.prove(True, "int.parsed")
            prove_seq_eq(t, enc, "int.text")
            return value

        def bad(t):
            e.fail("int.parsed-as-float")
            raise PathEnd()
        e.int_parser, e.float_parser = parse, bad
        r = decode(e, content, pos, "decode")
        e.prove(r.success is True, "int.decoded")
        e.prove(r.value is value, "int.value")

        e.prove(eq(r.num_read_chars, L + s), "int.consumed")
        e.reach("end")
    return fn


def any_text(e):
    """Any text, any position inside it: success or failure, no exception, 1 <= consumed <= remaining."""
    n = e.int("text-length", 1)
    content, f = text(e, "text", n)
    pos = e.int("position", 0)
    e.assume(pos < n)
    e.cut_while = True
    e.bounds += [lambda: (pos, n), lambda: (0, n - pos)]

    def parse(t, *a):
        if e.choose(2):
            raise ValueError("invalid literal")
        return e.int("parsed", register=False)
    e.int_parser = e.float_parser = parse
    r = decode(e, content, pos, "decode")
    e.prove(r.success is True or r.success is False, "any-text.result")
    if r.success is False:
        e.prove(r.value is None, "any-text.no-value-on-failure")
    e.prove(r.num_read_chars >= 1, "any-text.consumes")
    e.prove(r.num_read_chars <= n - pos, "any-text.inside")
    e.reach("end")


def prepare():
    ns()


def cases(tier):
    return [Case("string", string_case), Case("integer", int_case(False)), Case("negative-integer", int_case(True)), Case("any-text", any_text)]


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.json_values(seed, budget, hints)
