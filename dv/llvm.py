"""Symbolic execution of LLVM IR (clang -O0 of the real C++ sources) on top of dv.core.

An integer of N bits is a Python int (unsigned, in range) or a z3 bit-vector of N bits with exactly LLVM's wrap-around
semantics; a float or double is its bit pattern; a pointer is an object and a byte offset. A memory object is either a
set of typed cells (locals, class objects, constants) or a byte array with symbolic size and content (a buffer).
Every branch that can go two ways forks the path; a thrown C++ exception is an outcome of the path. These become
obligations wherever they can go wrong: loads and stores inside their object, reads of initialised memory, shift counts
below the width, no signed overflow (nsw), no division by zero. What is not modelled raises Unsupported."""
import re
import z3
from . import core
from .core import Unsupported

is_z = z3.is_expr


# members of the exception classes and operator<< into an exception: they only build its text
EXC_TEXT = re.compile(r"^_ZNK?6zserio(\d+[A-Za-z]+)?(19CppRuntimeException|29InsufficientCapacityException)|^_ZN6zseriols.*19CppRuntimeException")


class CThrow(Exception):
    """A C++ exception thrown by the code under verification; typ is the mangled type info symbol."""

    def __init__(self, typ):
        super().__init__(typ)
        self.typ = typ


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def __repr__(self):
        return "&%s+%s" % (self.o.name, self.off)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Lin:
    """A 64-bit number held as an exact linear form over non-negative atoms (positions, sizes); it never wraps around."""
    __slots__ = ("co", "c")
    atoms = {}          # name -> (lo, hi, z3 term of 64 bits)

    def __init__(self, co, c):
        self.co, self.c = co, c

    @staticmethod
    def atom(name, hi, lo=0):
        t = z3.BitVec(name, 64)
        Lin.atoms[name] = (lo, hi, t)
        return Lin(((name, 1),), 0)

    @staticmethod
    def make(co, c):
        co = tuple(sorted((k, v) for k, v in co.items() if v))
        return Lin(co, c) if co else c

    def range(self):
        lo = hi = self.c
        for k, v in self.co:
            a, b, _ = Lin.atoms[k]
            lo += v * (a if v > 0 else b)
            hi += v * (b if v > 0 else a)
        return lo, hi

    def term(self):
        t = None
        for k, v in self.co:
            x = Lin.atoms[k][2]
            x = x if v == 1 else x * v
            t = x if t is None else t + x
        return t + self.c if self.c else t

    def key(self):
        return self.co, self.c

    def __repr__(self):
        return "+".join(["%d*%s" % (v, k) for k, v in self.co] + [str(self.c)])

    @staticmethod
    def combine(a, b, s):
        """a + s*b, or None when it could leave 0..2^64-1."""
        d = dict(a.co) if isinstance(a, Lin) else {}
        c = a.c if isinstance(a, Lin) else a
        if isinstance(b, Lin):
            for k, v in b.co:
                d[k] = d.get(k, 0) + s * v
            c += s * b.c
        else:
            c += s * b
        return Lin.make(d, c)

    def __add__(self, o):
        return Lin.combine(self, o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return Lin.combine(self, o, -1)

    def __mul__(self, k):
        return Lin.make({n: v * k for n, v in self.co}, self.c * k)

    __rmul__ = __mul__


def fits(x, w=64):
    lo, hi = x.range() if isinstance(x, Lin) else (x, x)
    return 0 <= lo and hi < 1 << w


UNDEF = type("Undef", (), {"__repr__": lambda s: "undef"})()


class Obj:
    """Cells: byte offset -> (size in bytes, value)."""
    def __init__(self, name, size, cells=None, const=False):
        self.name, self.size, self.cells, self.const = name, size, cells if cells is not None else {}, const

    def snapshot(self):
        return dict(self.cells)


class Bytes:
    """Byte array of symbolic size and content. Bytes are named by their index as a linear form; indices that are not
    known to be equal give unrelated bytes for reading, and writing needs all indices comparable."""
    def __init__(self, name, size, const=False):
        self.name, self.size, self.const = name, size, const
        self.init, self.log = {}, {}

    def get(self, off):
        k = off.key() if isinstance(off, Lin) else ((), off)
        if k in self.log:
            return self.log[k]
        if any(j[0] != k[0] for j in self.log):
            raise Unsupported("unrelated indices of " + self.name)
        return self.first(off)

    def first(self, off):
        """The byte before any write."""
        k = off.key() if isinstance(off, Lin) else ((), off)
        if k not in self.init:
            self.init[k] = z3.BitVec("%s[%s]" % (self.name, off), 8)
        return self.init[k]

    def put(self, off, v):
        k = off.key() if isinstance(off, Lin) else ((), off)
        if any(j[0] != k[0] for j in self.log):
            raise Unsupported("unrelated indices of " + self.name)
        self.log[k] = v


# ---------------------------------------------------------------- types and parsing
class Ty:
    __slots__ = ("k", "n", "e", "_size", "_align", "packed")

    def __init__(self, k, n=None, e=None, packed=False):
        self.k, self.n, self.e, self.packed = k, n, e, packed
        self._size = self._align = None

    def __repr__(self):
        return "%s%s%s" % (self.k, self.n if self.n is not None else "", self.e if self.e is not None else "")


PTR = Ty("ptr")
VOID = Ty("void")
FLT = {"float": Ty("fp", 32), "double": Ty("fp", 64), "x86_fp80": Ty("fp", 80)}
_INTS = {}


def int_ty(n):
    if n not in _INTS:
        _INTS[n] = Ty("i", n)
    return _INTS[n]


_NAME = re.compile(r'[%@](?:"[^"]*"|[-\w.$]+)')
_ATTR = re.compile(r'(?:(?:noundef|nonnull|signext|zeroext|noalias|nocapture|readonly|writeonly|readnone|immarg|returned|inreg|nest|'
                   r'swiftself|allocptr|allocalign|writable|dead_on_unwind|captures\([^)]*\))\b|align \d+|align\(\d+\)|dereferenceable(?:_or_null)?\(\d+\))\s*')
_BYVAL = re.compile(r'(byval|sret)\(')


class P:
    """Cursor over a piece of IR text."""
    def __init__(self, mod, s, i=0):
        self.m, self.s, self.i = mod, s, i

    def ws(self):
        s = self.s
        while self.i < len(s) and s[self.i] in " \t\n":
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            raise Unsupported("IR syntax: expected %r in %r" % (t, self.s[max(0, self.i - 30):self.i + 60]))

    def re(self, rx):
        self.ws()
        m = re.compile(rx).match(self.s, self.i) if isinstance(rx, str) else rx.match(self.s, self.i)
        if m:
            self.i = m.end()
        return m

    def type(self):
        t = self._type()
        while True:                                 # function types: "T (args)"
            if self.peek("(") and t.k in ("void", "i", "ptr", "fp"):
                d = 0
                while True:
                    c = self.s[self.i]
                    d += (c == "(") - (c == ")")
                    self.i += 1
                    if d == 0:
                        break
                t = Ty("fn", None, t)
                continue
            return t

    def _type(self):
        m = self.re(r"i(\d+)\b")
        if m:
            return int_ty(int(m.group(1)))
        if self.eat("ptr"):
            return PTR
        if self.eat("void"):
            return VOID
        for f in FLT:
            if self.re(f + r"\b"):
                return FLT[f]
        if self.eat("["):
            n = int(self.re(r"\d+").group())
            self.need("x")
            t = self.type()
            self.need("]")
            return Ty("arr", n, t)
        for o, c, pk in (("<{", "}>", True), ("{", "}", False)):
            if self.eat(o):
                es = []
                if not self.eat(c):
                    es.append(self.type())
                    while self.eat(","):
                        es.append(self.type())
                    self.need(c)
                return Ty("st", None, es, pk)
        m = self.re(_NAME)
        if m and m.group()[0] == "%":
            return self.m.named(m.group())
        if self.re(r"opaque\b|metadata\b|label\b|token\b"):
            return Ty("opaque")
        raise Unsupported("IR type: %r" % self.s[self.i:self.i + 60])

    def operand(self, t):
        """Operand of type t -> ("c", value) | ("l", name) | ("g", name) | ("agg", [..]) | ("gep", ...)."""
        m = self.re(_NAME)
        if m:
            n = m.group()
            return ("l", n) if n[0] == "%" else ("g", n[1:])
        if t.k == "i":
            m = self.re(r"-?\d+")
            if m:
                return ("c", int(m.group()) & ((1 << t.n) - 1))
            if self.re(r"true\b"):
                return ("c", 1)
            if self.re(r"false\b"):
                return ("c", 0)
        if t.k == "fp":
            m = self.re(r"0x([0-9A-F]{16})")
            import struct
            if m:
                b = int(m.group(1), 16)
                if t.n == 32:
                    b = struct.unpack("<I", struct.pack("<f", struct.unpack("<d", struct.pack("<Q", b))[0]))[0]
                return ("c", b)
            m = self.re(r"-?\d+\.\d+(?:e[-+]?\d+)?")
            if m:
                f = float(m.group())
                return ("c", struct.unpack("<I", struct.pack("<f", f))[0] if t.n == 32 else struct.unpack("<Q", struct.pack("<d", f))[0])
        if self.re(r"null\b"):
            return ("c", 0)
        if self.re(r"zeroinitializer\b"):
            return ("zero",)
        if self.re(r"(undef|poison)\b"):
            return ("c", UNDEF)
        if self.eat('c"'):
            out = bytearray()
            while self.s[self.i] != '"':
                if self.s[self.i] == "\\":
                    out.append(int(self.s[self.i + 1:self.i + 3], 16))
                    self.i += 3
                else:
                    out.append(ord(self.s[self.i]))
                    self.i += 1
            self.i += 1
            return ("agg", [("c", b) for b in out])
        for o, c in (("<{", "}>"), ("{", "}"), ("[", "]")):
            if self.eat(o):
                es = []
                while not self.eat(c):
                    et = self.type()
                    es.append(self.operand(et))
                    self.eat(",")
                return ("agg", es)
        if self.re(r"getelementptr\s+(?:inbounds\s+)?(?:inrange\([^)]*\)\s*)?\("):
            bt = self.type()
            self.need(",")
            base = self.typed()
            idx = []
            while self.eat(","):
                self.re(r"inrange\b")
                idx.append(self.typed())
            self.need(")")
            return ("gep", bt, base, idx)
        raise Unsupported("IR operand: %r" % self.s[self.i:self.i + 60])

    def attrs(self):
        """Skips parameter attributes; returns the byval/sret type if there is one."""
        r = None
        while True:
            if self.re(_ATTR):
                continue
            m = self.re(_BYVAL)
            if m:
                r = (m.group(1), self.type())
                self.need(")")
                continue
            return r

    def typed(self):
        t = self.type()
        self.attrs()
        return t, self.operand(t)


class Module:
    def __init__(self, path):
        self.path = path
        self.types, self.gtext, self.ftext, self.funcs, self.globals, self.alias = {}, {}, {}, {}, {}, {}
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("define "):
                body = []
                head = ln
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                name = re.search(r'@("[^"]*"|[-\w.$]+)\(', head).group(1)
                self.ftext[name] = (head, body)
            elif ln.startswith("%"):
                n, _, d = ln.partition(" = type ")
                self.types[n] = d
            elif ln.startswith("@"):
                n, _, d = ln.partition(" = ")
                m = re.match(r"(?:[\w]+\s+|unnamed_addr\s+)*alias\s+", d)
                if m:
                    self.alias[n[1:]] = re.findall(r"@([-\w.$]+)", d)[-1]
                else:
                    self.gtext[n[1:]] = d
            i += 1
        self._named = {}

    def named(self, n):
        if n not in self._named:
            d = self.types.get(n)
            if d is None or d.strip() == "opaque":
                return Ty("opaque")
            self._named[n] = P(self, d).type()
        return self._named[n]

    def func(self, name):
        name = self.alias.get(name, name)
        if name not in self.funcs:
            self.funcs[name] = Func(self, name, *self.ftext[name])
        return self.funcs[name]

    def has(self, name):
        return self.alias.get(name, name) in self.ftext


def align(t):
    if t._align is None:
        if t.k == "i":
            a = 1
            while a * 8 < t.n and a < 16:
                a *= 2
        elif t.k == "ptr":
            a = 8
        elif t.k == "fp":
            a = {32: 4, 64: 8, 80: 16}[t.n]
        elif t.k == "arr":
            a = align(t.e)
        elif t.k == "st":
            a = 1 if t.packed else max([align(x) for x in t.e] or [1])
        else:
            raise Unsupported("alignment of %r" % t)
        t._align = a
    return t._align


def size(t):
    if t._size is None:
        if t.k == "i":
            b = (t.n + 7) // 8
            a = align(t)
            s = (b + a - 1) // a * a
        elif t.k == "ptr":
            s = 8
        elif t.k == "fp":
            s = {32: 4, 64: 8, 80: 16}[t.n]
        elif t.k == "arr":
            s = t.n * size(t.e)
        elif t.k == "st":
            s = 0
            for x in t.e:
                a = 1 if t.packed else align(x)
                s = (s + a - 1) // a * a + size(x)
            a = align(t)
            s = (s + a - 1) // a * a
        else:
            raise Unsupported("size of %r" % t)
        t._size = s
    return t._size


def field(t, i):
    s = 0
    for j, x in enumerate(t.e):
        a = 1 if t.packed else align(x)
        s = (s + a - 1) // a * a
        if j == i:
            return s, x
        s += size(x)
    raise Unsupported("field %d of %r" % (i, t))


class Func:
    def __init__(self, mod, name, head, body):
        self.m, self.name = mod, name
        p = P(mod, head, head.index("@"))
        p.re(_NAME)
        p.need("(")
        self.params = []
        while not p.eat(")"):
            if p.eat("..."):
                continue
            p.type()
            by = p.attrs()
            n = p.re(_NAME)
            self.params.append((n.group() if n else "%%%d" % len(self.params), by))
            p.eat(",")
        self.blocks, cur = {}, None
        self.text = body
        k = 0
        first = None
        while k < len(body):
            ln = body[k].split(" ;")[0].rstrip() if not re.match(r"^[-\w.$\"]+:", body[k]) else body[k]
            m = re.match(r'^("[^"]*"|[-\w.$]+):', body[k])
            if m:
                cur = m.group(1)
                self.blocks[cur] = []
                first = first or cur
            elif ln.strip():
                t = ln.strip()
                if cur is None:
                    cur = "%entry"
                    self.blocks[cur] = []
                    first = cur
                while t.startswith("switch ") and "]" not in t:
                    k += 1
                    t += " " + body[k].strip()
                if (t.startswith("invoke ") or " = invoke " in t or "landingpad" in t):
                    while k + 1 < len(body) and re.match(r"^\s+(to label|cleanup|catch|filter)", body[k + 1]):
                        k += 1
                        t += " " + body[k].strip()
                t = re.sub(r", ![-\w.]+ ![-\w]+", "", t)
                self.blocks[cur].append(t)
            k += 1
        self.entry = first
        self.parsed = {}

    def block(self, b):
        if b not in self.parsed:
            self.parsed[b] = [parse_ins(self.m, t) for t in self.blocks[b]]
        return self.parsed[b]


BIN = {"add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fpext", "fptrunc", "uitofp", "sitofp", "fptoui", "fptosi"}


def parse_ins(m, t):
    dst = None
    mm = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = ', t)
    if mm:
        dst = mm.group(1)
        t = t[mm.end():]
    p = P(m, t)
    op = p.re(r"[\w]+").group()
    if op in ("tail", "musttail", "notail"):
        op = p.re(r"[\w]+").group()
    if op == "alloca":
        ty = p.type()
        n = None
        if p.eat(",") and not p.peek("align"):
            n = p.typed()
        return (op, dst, ty, n)
    if op == "load":
        p.re(r"volatile|atomic")
        ty = p.type()
        p.need(",")
        return (op, dst, ty, p.typed()[1])
    if op == "store":
        p.re(r"volatile|atomic")
        ty, v = p.typed()
        p.need(",")
        return (op, dst, ty, v, p.typed()[1])
    if op == "getelementptr":
        p.re(r"inbounds")
        p.re(r"nuw|nusw")
        bt = p.type()
        p.need(",")
        base = p.typed()[1]
        idx = []
        while p.eat(","):
            idx.append(p.typed())
        return (op, dst, bt, base, idx)
    if op in BIN:
        fl = set()
        while True:
            f = p.re(r"(nsw|nuw|exact|disjoint)\b")
            if not f:
                break
            fl.add(f.group())
        ty = p.type()
        a = p.operand(ty)
        p.need(",")
        return ("bin", dst, op, fl, ty, a, p.operand(ty))
    if op in CAST:
        p.re(r"nneg")
        ty, v = p.typed()
        p.need("to")
        return ("cast", dst, op, ty, v, p.type())
    if op == "icmp":
        c = p.re(r"\w+").group()
        ty = p.type()
        a = p.operand(ty)
        p.need(",")
        return (op, dst, c, ty, a, p.operand(ty))
    if op == "br":
        if p.eat("label"):
            return ("jmp", None, p.re(_NAME).group()[1:])
        ty, c = p.typed()
        p.need(",")
        p.need("label")
        a = p.re(_NAME).group()[1:]
        p.need(",")
        p.need("label")
        return ("br", None, c, a, p.re(_NAME).group()[1:])
    if op == "switch":
        ty, v = p.typed()
        p.need(",")
        p.need("label")
        d = p.re(_NAME).group()[1:]
        p.need("[")
        cases = []
        while not p.eat("]"):
            _, c = p.typed()
            p.need(",")
            p.need("label")
            cases.append((c[1], p.re(_NAME).group()[1:]))
        return (op, None, ty, v, d, cases)
    if op == "ret":
        if p.eat("void"):
            return (op, None, None, None)
        ty, v = p.typed()
        return (op, None, ty, v)
    if op in ("call", "invoke"):
        p.re(r"(fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|fastcc|ccc)\b")
        p.attrs()
        ty = p.type()
        if ty.k == "fn":
            ty = ty.e
        callee = p.operand(PTR)
        p.need("(")
        args = []
        while not p.eat(")"):
            at = p.type()
            by = p.attrs()
            args.append((at, by, p.operand(at)))
            p.eat(",")
        norm = unw = None
        if op == "invoke":
            p.re(r"(#\d+)?\s*to label ")
            norm = p.re(_NAME).group()[1:]
            p.need("unwind label")
            unw = p.re(_NAME).group()[1:]
        return ("call", dst, ty, callee, args, norm, unw)
    if op == "phi":
        ty = p.type()
        inc = []
        while p.eat("["):
            v = p.operand(ty)
            p.need(",")
            inc.append((p.re(_NAME).group()[1:], v))
            p.need("]")
            p.eat(",")
        return (op, dst, ty, dict(inc))
    if op == "select":
        _, c = p.typed()
        p.need(",")
        ty, a = p.typed()
        p.need(",")
        return (op, dst, ty, c, a, p.typed()[1])
    if op == "extractvalue":
        ty, v = p.typed()
        p.need(",")
        return (op, dst, v, [int(x) for x in p.s[p.i:].replace(" ", "").split(",")])
    if op == "insertvalue":
        ty, v = p.typed()
        p.need(",")
        et, x = p.typed()
        p.need(",")
        return (op, dst, ty, v, x, [int(y) for y in p.s[p.i:].replace(" ", "").split(",")])
    if op == "freeze":
        return (op, dst, p.typed()[1])
    if op in ("unreachable", "resume", "landingpad", "fcmp", "fneg", "fadd", "fsub", "fmul", "fdiv"):
        return (op, dst, t)
    raise Unsupported("IR instruction " + op)


# ---------------------------------------------------------------- machine
def bv(x, w):
    if is_z(x):
        return x
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if isinstance(x, Lin):
        return x.term()
    raise Unsupported("number expected, got %r" % (x,))


def norm(x):
    """Constant terms become Python ints."""
    if is_z(x):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
    return x


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class VM:
    """modules: list of Module; stubs: {predicate or exact name: fn(vm, args, name)}."""
    MAXDEPTH = 60

    def __init__(self, modules, e, quiet_throw=True):
        self.mods, self.e = modules, e
        self.stubs = {}
        self.depth = 0
        self.steps = 0
        self.limit = 3000000
        self.hooks = {}

    # -- memory
    def alloc(self, name, sz):
        return Ptr(Obj(name, sz))

    def buffer(self, name, sz, const=False):
        return Ptr(Bytes(name, sz, const))

    def inb(self, p, n, what):
        o, off = p.o, p.off
        if isinstance(o.size, int) and isinstance(off, int):
            if 0 <= off and off + n <= o.size:
                return
            self.e.prove(False, "memory.in-bounds", "%s of %d bytes at offset %d of %s (%d bytes)" % (what, n, off, o.name, o.size))
            raise core.PathEnd()
        if not is_z(o.size) and not is_z(off):
            d = Lin.combine(o.size, off, -1)
            lo, hi = d.range() if isinstance(d, Lin) else (d, d)
            if lo >= n and fits(off):
                self.e.prove(True, "memory.in-bounds")
                return
        sz, f = bv(o.size, 64), bv(off, 64)
        self.e.prove(z3.And(z3.ULE(f, sz), z3.UGE(sz - f, n)), "memory.in-bounds", "%s of %d bytes of %s" % (what, n, o.name))

    def load(self, p, n):
        """n bytes at p as an n*8-bit value."""
        if not isinstance(p, Ptr):
            self.e.prove(False, "memory.valid-pointer", "load through %r" % (p,))
            raise core.PathEnd()
        self.inb(p, n, "load")
        o = p.o
        if isinstance(o, Bytes):
            if is_z(p.off):
                raise Unsupported("index of %s is not a linear form" % o.name)
            bs = [o.get(p.off + i) for i in range(n)]
            return bs[0] if n == 1 else norm(z3.Concat(*[bv(x, 8) for x in reversed(bs)]))
        off = p.off
        if not isinstance(off, int):
            off = self.e.concretize(bv(off, 64)) & (2 ** 64 - 1)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            if c[1] is UNDEF:
                self.uninit(o, off)
            return c[1]
        bs = [self.byte(o, off + i) for i in range(n)]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        return norm(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if n > 1 else bs[0]

    def uninit(self, o, off):
        self.e.prove(False, "memory.initialised", "%s+%d" % (o.name, off))
        raise core.PathEnd()

    def byte(self, o, off, missing_ok=False):
        for b in range(off, off - 17, -1):
            c = o.cells.get(b)
            if c is not None and b + c[0] > off:
                if c[1] is UNDEF:
                    break
                if isinstance(c[1], (Ptr, Fn)):
                    raise Unsupported("byte of a pointer")
                k = off - b
                if isinstance(c[1], int):
                    return (c[1] >> (8 * k)) & 255
                return norm(z3.Extract(8 * k + 7, 8 * k, bv(c[1], 64)))
        if missing_ok:
            return None
        self.uninit(o, off)

    def store(self, p, n, v):
        if not isinstance(p, Ptr):
            self.e.prove(False, "memory.valid-pointer", "store through %r" % (p,))
            raise core.PathEnd()
        self.inb(p, n, "store")
        o = p.o
        if o.const:
            self.e.prove(False, "memory.writable", o.name)
            raise core.PathEnd()
        if isinstance(o, Bytes):
            if is_z(p.off):
                raise Unsupported("index of %s is not a linear form" % o.name)
            for i in range(n):
                o.put(p.off + i, norm(z3.Extract(8 * i + 7, 8 * i, bv(v, 8 * n))))
            return
        off = p.off
        if not isinstance(off, int):
            off = self.e.concretize(bv(off, 64)) & (2 ** 64 - 1)
        self.carve(o, off, n)
        o.cells[off] = (n, v)

    def carve(self, o, off, n):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            del o.cells[off]
            return
        for b in list(o.cells):
            s = o.cells[b][0]
            if b < off + n and b + s > off:
                parts = []
                if not (off <= b and b + s <= off + n):
                    for i in range(b, b + s):
                        if not off <= i < off + n:
                            parts.append((i, self.byte(o, i)))
                del o.cells[b]
                for i, x in parts:
                    o.cells[i] = (1, x)

    def copy(self, d, s, n):
        n = norm(n)
        if not isinstance(n, int):
            n = self.e.concretize(bv(n, 64)) & (2 ** 64 - 1)
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            self.e.prove(False, "memory.valid-pointer", "copy of %d bytes" % n)
            raise core.PathEnd()
        self.inb(d, n, "copy to")
        self.inb(s, n, "copy from")
        if isinstance(d.o, Obj) and isinstance(s.o, Obj) and isinstance(d.off, int) and isinstance(s.off, int):
            cells = []
            for b, (z, v) in sorted(s.o.cells.items()):
                if b >= s.off and b + z <= s.off + n:
                    cells.append((b - s.off, z, v))
                elif b < s.off + n and b + z > s.off:
                    for i in range(max(b, s.off), min(b + z, s.off + n)):
                        cells.append((i - s.off, 1, self.byte(s.o, i)))
            self.carve(d.o, d.off, n)
            for b, z, v in cells:
                d.o.cells[d.off + b] = (z, v)
            return
        vals = [self.load(self.add(s, i), 1) for i in range(n)]
        for i, v in enumerate(vals):
            self.store(self.add(d, i), 1, v)

    def add(self, p, k):
        if isinstance(p, Ptr):
            if not is_z(p.off) and not is_z(k):
                if isinstance(k, int):
                    k = sgn(k, 64) if k >= 0 else k
                return Ptr(p.o, p.off + k)
            return Ptr(p.o, norm(bv(p.off, 64) + bv(k, 64)))
        if isinstance(p, int) and isinstance(k, int):
            return (p + k) & (2 ** 64 - 1)
        raise Unsupported("pointer arithmetic on %r" % (p,))

    # -- constants
    def glob(self, m, n):
        if m.has(n) or n in self.stubs:
            return Fn(n)
        key = n
        if key not in m.globals:
            d = m.gtext.get(n)
            if d is None or re.match(r"external\b", d):
                for m2 in self.mods:
                    if m2 is not m and n in m2.gtext and not re.match(r"(external|internal|private)\b", m2.gtext[n]):
                        return self.glob(m2, n)
                return Ptr(Obj(n, 0))        # address only (type info, vtable of another library)
            mm = re.match(r"(?:(?:internal|private|linkonce_odr|weak_odr|constant|global|unnamed_addr|local_unnamed_addr|dso_local|hidden|external|"
                          r"thread_local|externally_initialized|comdat)\s+|comdat\(\$[^)]*\)\s+)*", d)
            const = " constant " in " " + mm.group()
            try:
                p = P(m, d[mm.end():])
                t = p.type()
                o = Obj(n, size(t), const=const)
                m.globals[key] = o
                self.init(o, 0, t, p.operand(t), m)
            except Unsupported:
                o = Obj(n, 0)
                m.globals[key] = o
        return Ptr(m.globals[key])

    def init(self, o, off, t, v, m):
        if v[0] == "zero":
            if t.k == "arr":
                for i in range(t.n):
                    self.init(o, off + i * size(t.e), t.e, v, m)
            elif t.k == "st":
                for i in range(len(t.e)):
                    f, ft = field(t, i)
                    self.init(o, off + f, ft, v, m)
            else:
                o.cells[off] = (size(t), 0)
        elif v[0] == "agg":
            for i, x in enumerate(v[1]):
                f, ft = (i * size(t.e), t.e) if t.k == "arr" else field(t, i)
                self.init(o, off + f, ft, x, m)
        else:
            o.cells[off] = (size(t), self.val(m, {}, v, t))

    def val(self, m, fr, v, t=None):
        k = v[0]
        if k == "l":
            return fr[v[1]]
        if k == "c":
            return v[1]
        if k == "g":
            return self.glob(m, v[1])
        if k == "gep":
            return self.gep(m, fr, v[1], self.val(m, fr, v[2][1]), v[3])
        if k == "zero":
            return self.zero(t)
        if k == "agg":
            return [self.val(m, fr, x) for x in v[1]]
        raise Unsupported("value %r" % (v,))

    def zero(self, t):
        if t.k == "st":
            return [self.zero(x) for x in t.e]
        if t.k == "arr":
            return [self.zero(t.e) for _ in range(t.n)]
        return 0

    def gep(self, m, fr, bt, base, idx):
        off = 0
        sym = None
        t = bt
        for j, (it, iv) in enumerate(idx):
            i = self.val(m, fr, iv)
            if j == 0:
                s = size(t)
            elif t.k == "arr":
                t = t.e
                s = size(t)
            elif t.k == "st":
                f, t = field(t, i)
                off += f
                continue
            else:
                raise Unsupported("gep into %r" % t)
            if isinstance(i, int):
                off += sgn(i, it.n) * s
            elif isinstance(i, Lin):
                sym = i * s if sym is None else sym + i * s
            else:
                x = z3.SignExt(64 - it.n, i) if it.n < 64 else i
                x = x * s if s != 1 else x
                sym = x if sym is None else sym + x
        r = self.add(base, off) if off else base
        return self.add(r, norm(sym)) if sym is not None else r

    # -- execution
    def call(self, name, *args):
        """Runs a function by its (mangled or extern "C") name."""
        for m in self.mods:
            if m.has(name):
                return self.run(m.func(name), list(args))
        raise Unsupported("function %s is not there" % name)

    def dispatch(self, m, name, args, ty):
        h = self.hooks.get(name)
        if h is not None:
            return h(self, args, name)
        if EXC_TEXT.match(name):
            # construction of an exception text: no effect on the data
            return args[0] if args and ty.k == "ptr" else None
        if name == "__cxa_allocate_exception":
            return Ptr(Obj("exception", 4096))
        if name == "__cxa_throw":
            raise CThrow(args[1].o.name)
        if name.startswith("llvm."):
            return self.intrinsic(name, args)
        if name in ("memcpy", "memmove"):
            self.copy(*args[:3])
            return args[0]
        if m.has(name):
            return self.run(m.func(name), args)
        for m2 in self.mods:
            if m2.has(name) and not re.match(r"define (internal|private)", m2.ftext[m2.alias.get(name, name)][0]):
                return self.run(m2.func(name), args)
        raise Unsupported("call of " + name)

    def intrinsic(self, name, args):
        if name.startswith(("llvm.memcpy", "llvm.memmove")):
            return self.copy(args[0], args[1], args[2])
        if name.startswith("llvm.memset"):
            n = norm(args[2])
            if not isinstance(n, int):
                n = self.e.concretize(bv(n, 64)) & (2 ** 64 - 1)
            for i in range(n):
                self.store(self.add(args[0], i), 1, args[1])
            return None
        if name.startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.assume")):
            return None
        if name.startswith("llvm.trap"):
            self.e.prove(False, "no-trap", name)
            raise core.PathEnd()
        if name.startswith(("llvm.abs.", "llvm.umin.", "llvm.umax.", "llvm.smin.", "llvm.smax.")):
            w = int(re.search(r"\.i(\d+)$", name).group(1))
            a = bv(args[0], w)
            if name.startswith("llvm.abs."):
                return norm(z3.If(a < 0, -a, a))
            b = bv(args[1], w)
            c = {"umin": z3.ULT(a, b), "umax": z3.UGT(a, b), "smin": a < b, "smax": a > b}[name[5:9]]
            return norm(z3.If(c, a, b))
        raise Unsupported(name)

    def run(self, f, args):
        self.depth += 1
        if self.depth > self.MAXDEPTH:
            raise Unsupported("call depth")
        try:
            return self._run(f, args)
        finally:
            self.depth -= 1

    def _run(self, f, args):
        fr = {}
        m = f.m
        for (pn, by), a in zip(f.params, args):
            if by and by[0] == "byval":
                c = self.alloc(pn, size(by[1]))
                self.copy(c, a, size(by[1]))
                a = c
            fr[pn] = a
        blk, prev = f.entry, None
        e = self.e
        val = self.val
        while True:
            nxt = None
            phis = None
            for ins in f.block(blk):
                op, dst = ins[0], ins[1]
                self.steps += 1
                if self.steps > self.limit:
                    raise Unsupported("step limit")
                if op == "phi":
                    phis = phis if phis is not None else dict(fr)
                    fr[dst] = val(m, phis, ins[3][prev], ins[2])
                elif op == "load":
                    t = ins[2]
                    fr[dst] = self.load_t(val(m, fr, ins[3]), t)
                elif op == "store":
                    self.store_t(val(m, fr, ins[4]), ins[2], val(m, fr, ins[3], ins[2]))
                elif op == "alloca":
                    if ins[3] is not None:
                        n = val(m, fr, ins[3][1])
                        if not isinstance(n, int):
                            raise Unsupported("variable-length array")
                        fr[dst] = self.alloc(dst, n * size(ins[2]))
                    else:
                        fr[dst] = self.alloc(dst, size(ins[2]))
                elif op == "getelementptr":
                    fr[dst] = self.gep(m, fr, ins[2], val(m, fr, ins[3]), ins[4])
                elif op == "bin":
                    fr[dst] = self.binop(ins[2], ins[3], ins[4].n, val(m, fr, ins[5]), val(m, fr, ins[6]))
                elif op == "cast":
                    fr[dst] = self.cast(ins[2], ins[3], ins[5], val(m, fr, ins[4]))
                elif op == "icmp":
                    fr[dst] = self.icmp(ins[2], ins[3], val(m, fr, ins[4]), val(m, fr, ins[5]))
                elif op == "call":
                    callee = ins[3]
                    cn = callee[1] if callee[0] == "g" else None
                    if cn is None:
                        c = val(m, fr, callee)
                        if not isinstance(c, Fn):
                            raise Unsupported("indirect call")
                        cn = c.name
                    av = []
                    for at, by, a in ins[4]:
                        if at.k == "opaque":
                            av.append(None)
                        else:
                            x = val(m, fr, a, at)
                            if by and by[0] == "byval":
                                cpy = self.alloc("byval", size(by[1]))
                                self.copy(cpy, x, size(by[1]))
                                x = cpy
                            av.append(x)
                    try:
                        r = self.dispatch(m, cn, av, ins[2])
                    except CThrow:
                        if ins[6] is not None:
                            self.unwind(f, ins[6])
                        raise
                    if dst is not None:
                        fr[dst] = r
                    if ins[5] is not None:
                        nxt = ins[5]
                elif op == "jmp":
                    nxt = ins[2]
                elif op == "br":
                    c = val(m, fr, ins[2])
                    if is_z(c):
                        c = e.branch(c == 1)
                    elif c is UNDEF:
                        raise Unsupported("branch on undef")
                    nxt = ins[3] if c else ins[4]
                elif op == "switch":
                    v = val(m, fr, ins[3])
                    nxt = ins[4]
                    for c, b in ins[5]:
                        if (e.branch(v == c) if is_z(v) else v == c):
                            nxt = b
                            break
                elif op == "ret":
                    return None if ins[2] is None else val(m, fr, ins[3], ins[2])
                elif op == "select":
                    c, a, b = val(m, fr, ins[3]), val(m, fr, ins[4], ins[2]), val(m, fr, ins[5], ins[2])
                    if not is_z(c):
                        fr[dst] = a if c else b
                    elif ins[2].k in ("i", "fp") and a is not UNDEF and b is not UNDEF:
                        fr[dst] = norm(z3.If(c == 1, bv(a, ins[2].n), bv(b, ins[2].n)))
                    else:
                        fr[dst] = a if e.branch(c == 1) else b
                elif op == "extractvalue":
                    v = val(m, fr, ins[2])
                    for i in ins[3]:
                        v = v[i]
                    fr[dst] = v
                elif op == "insertvalue":
                    v = val(m, fr, ins[3], ins[2])
                    if v is UNDEF:
                        v = [UNDEF] * (len(ins[2].e) if ins[2].k == "st" else ins[2].n)
                    v = list(v)
                    if len(ins[5]) != 1:
                        raise Unsupported("nested insertvalue")
                    v[ins[5][0]] = val(m, fr, ins[4])
                    fr[dst] = v
                elif op == "freeze":
                    fr[dst] = val(m, fr, ins[2])
                elif op == "unreachable":
                    e.prove(False, "no-undefined-behaviour", "unreachable code in " + f.name)
                    raise core.PathEnd()
                else:
                    raise Unsupported("IR instruction " + op)
                if nxt is not None:
                    break
            if nxt is None:
                raise Unsupported("block without end")
            prev, blk = blk, nxt

    def unwind(self, f, label):
        """An exception leaves through a landing pad: only cleanups may be there."""
        lp = next((t for t in f.blocks[label] if "landingpad" in t), "")
        if "catch" in lp:
            if any("__clang_call_terminate" in t for t in f.blocks[label]):
                self.e.prove(False, "no-terminate", "exception leaves a noexcept function: " + f.name)
                raise core.PathEnd()
            raise Unsupported("catch in " + f.name)

    def load_t(self, p, t):
        if t.k in ("i", "ptr", "fp"):
            r = self.load(p, size(t))
            if t.k == "i" and t.n % 8:
                r = norm(z3.Extract(t.n - 1, 0, r)) if is_z(r) else r & ((1 << t.n) - 1)
            return r
        if t.k == "st":
            return [self.load_t(self.add(p, field(t, i)[0]), field(t, i)[1]) for i in range(len(t.e))]
        if t.k == "arr":
            return [self.load_t(self.add(p, i * size(t.e)), t.e) for i in range(t.n)]
        raise Unsupported("load of %r" % t)

    def store_t(self, p, t, v):
        if t.k in ("i", "ptr", "fp"):
            if t.k == "i" and t.n % 8 and is_z(v):
                v = z3.ZeroExt(size(t) * 8 - t.n, v)
            self.store(p, size(t), v)
        elif t.k == "st":
            for i in range(len(t.e)):
                o, ft = field(t, i)
                self.store_t(self.add(p, o), ft, UNDEF if v is UNDEF else v[i])
        else:
            raise Unsupported("store of %r" % t)

    def binop(self, op, fl, w, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("arithmetic on undef")
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrop(op, a, b)
        if (isinstance(a, Lin) or isinstance(b, Lin)) and w == 64 and not is_z(a) and not is_z(b) and not fl - {"nuw", "exact"}:
            r = self.linop(op, a, b)
            if r is not None:
                return r
        M = (1 << w) - 1
        e = self.e
        ci = isinstance(a, int) and isinstance(b, int)
        if op in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                if b >= w:
                    e.prove(False, "no-undefined-behaviour.shift-count", "%s by %d" % (op, b))
                    raise core.PathEnd()
            else:
                e.prove(z3.ULT(b, w), "no-undefined-behaviour.shift-count", op)
        if op in ("udiv", "sdiv", "urem", "srem"):
            if isinstance(b, int):
                if b == 0:
                    e.prove(False, "no-undefined-behaviour.division", op)
                    raise core.PathEnd()
            else:
                e.prove(b != 0, "no-undefined-behaviour.division", op)
            if op in ("sdiv", "srem"):
                e.prove(z3.Not(z3.And(bv(a, w) == 1 << (w - 1), bv(b, w) == M)), "no-undefined-behaviour.division", op)
        if "nsw" in fl and op in ("add", "sub", "mul", "shl"):
            if ci:
                x, y = sgn(a, w), sgn(b, w)
                r = {"add": x + y, "sub": x - y, "mul": x * y, "shl": x << b}[op]
                if not -(1 << (w - 1)) <= r < 1 << (w - 1):
                    e.prove(False, "no-undefined-behaviour.signed-overflow", op)
                    raise core.PathEnd()
            else:
                A, B = bv(a, w), bv(b, w)
                if op == "add":
                    ok = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
                elif op == "sub":
                    ok = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
                elif op == "mul":
                    ok = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
                else:
                    ok = (A << B) >> B == A
                e.prove(ok, "no-undefined-behaviour.signed-overflow", op)
        if "nuw" in fl:
            if not ci or op not in ("add", "mul", "sub", "shl"):
                A, B = bv(a, w), bv(b, w)
                ok = {"add": lambda: z3.BVAddNoOverflow(A, B, False), "mul": lambda: z3.BVMulNoOverflow(A, B, False),
                      "sub": lambda: z3.UGE(A, B), "shl": lambda: z3.LShR(A << B, B) == A}[op]()
                e.prove(ok, "no-undefined-behaviour.nuw", op)
        if ci:
            if op == "add":
                return (a + b) & M
            if op == "sub":
                return (a - b) & M
            if op == "mul":
                return (a * b) & M
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & M
            if op == "lshr":
                return a >> b
            if op == "ashr":
                return (sgn(a, w) >> b) & M
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return (q if op == "sdiv" else x - q * y) & M
        if op in ("udiv", "urem") and isinstance(b, int) and b & (b - 1) == 0:
            k = b.bit_length() - 1
            if op == "urem":
                return norm(bv(a, w) & (b - 1)) if k else 0
            return norm(z3.Concat(z3.BitVecVal(0, k), z3.Extract(w - 1, k, bv(a, w)))) if k else a
        A, B = bv(a, w), bv(b, w)
        if op == "lshr" and isinstance(b, int):
            return norm(z3.Concat(z3.BitVecVal(0, b), z3.Extract(w - 1, b, A))) if b else a
        if op == "mul" and isinstance(b, int) and b and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return norm(z3.Concat(z3.Extract(w - 1 - k, 0, A), z3.BitVecVal(0, k))) if k else a
        return norm({"add": lambda: A + B, "sub": lambda: A - B, "mul": lambda: A * B, "and": lambda: A & B, "or": lambda: A | B,
                     "xor": lambda: A ^ B, "shl": lambda: A << B, "lshr": lambda: z3.LShR(A, B), "ashr": lambda: A >> B,
                     "udiv": lambda: z3.UDiv(A, B), "urem": lambda: z3.URem(A, B), "sdiv": lambda: A / B, "srem": lambda: z3.SRem(A, B)}[op]())

    def linop(self, op, a, b):
        r = None
        if op in ("add", "sub"):
            r = Lin.combine(a, b, 1 if op == "add" else -1)
            if not fits(r):
                return None
            return r
        if isinstance(b, int):
            if op == "mul" or (op == "shl" and b < 64):
                r = a * (b if op == "mul" else 1 << b)
                return r if fits(r) else None
            if op in ("udiv", "lshr") and (b if op == "udiv" else b < 64):
                d = b if op == "udiv" else 1 << b
                if all(v % d == 0 for _, v in a.co):
                    return Lin.make({k: v // d for k, v in a.co}, a.c // d)
                return None
            if op in ("urem", "and"):
                d = b if op == "urem" else b + 1
                if op == "and" and b & (b + 1):
                    d = (1 << 64) - b
                    if d & (d - 1) or not all(v % d == 0 for _, v in a.co):
                        return None
                    return a - a.c % d
                if d and all(v % d == 0 for _, v in a.co):
                    return a.c % d
        elif op == "mul" and isinstance(a, int):
            return self.linop(op, b, a)
        return None

    def ptrop(self, op, a, b):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
            if not is_z(a.off) and not is_z(b.off):
                r = Lin.combine(a.off, b.off, -1)
                if isinstance(r, int):
                    return r & (2 ** 64 - 1)
                if fits(r):
                    return r
            return norm(bv(a.off, 64) - bv(b.off, 64))
        if op in ("add", "sub") and isinstance(a, Ptr) and not isinstance(b, Ptr):
            return self.add(a, b if op == "add" else (-b if isinstance(b, int) else -b))
        raise Unsupported("pointer arithmetic " + op)

    def cast(self, op, st, dt, v):
        if v is UNDEF:
            return v
        if op == "zext":
            return v if isinstance(v, int) else norm(z3.ZeroExt(dt.n - st.n, bv(v, st.n)))
        if op == "sext":
            return sgn(v, st.n) & ((1 << dt.n) - 1) if isinstance(v, int) else norm(z3.SignExt(dt.n - st.n, bv(v, st.n)))
        if op == "trunc":
            if isinstance(v, Ptr):
                raise Unsupported("truncated pointer")
            return v & ((1 << dt.n) - 1) if isinstance(v, int) else norm(z3.Extract(dt.n - 1, 0, bv(v, st.n)))
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op == "bitcast":
            return v
        raise Unsupported("conversion " + op)

    def icmp(self, c, t, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of undef")
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o:
                a, b = a.off, b.off
                a = a & (2 ** 64 - 1) if isinstance(a, int) else a
                b = b & (2 ** 64 - 1) if isinstance(b, int) else b
                w = 64
            elif c in ("eq", "ne"):
                # distinct objects, or an object and null
                return int(c == "ne")
            else:
                raise Unsupported("order of unrelated pointers")
        else:
            w = 64 if t.k == "ptr" else t.n
        if isinstance(a, int) and isinstance(b, int):
            x, y = sgn(a, w), sgn(b, w)
            return int({"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b,
                        "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y}[c])
        if not is_z(a) and not is_z(b) and c in ("eq", "ne", "ult", "ule", "ugt", "uge"):
            d = Lin.combine(a, b, -1)
            lo, hi = d.range() if isinstance(d, Lin) else (d, d)
            if lo > 0 or hi < 0:
                return int({"eq": False, "ne": True, "ult": hi < 0, "ule": hi < 0, "ugt": lo > 0, "uge": lo > 0}[c])
            if lo == hi == 0:
                return int(c in ("eq", "ule", "uge"))
            if lo >= 0 and c in ("ult", "uge"):
                return int(c == "uge")
            if hi <= 0 and c in ("ugt", "ule"):
                return int(c == "ule")
        A, B = bv(a, w), bv(b, w)
        r = {"eq": lambda: A == B, "ne": lambda: A != B, "ult": lambda: z3.ULT(A, B), "ule": lambda: z3.ULE(A, B), "ugt": lambda: z3.UGT(A, B),
             "uge": lambda: z3.UGE(A, B), "slt": lambda: A < B, "sle": lambda: A <= B, "sgt": lambda: A > B, "sge": lambda: A >= B}[c]()
        return norm(z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
