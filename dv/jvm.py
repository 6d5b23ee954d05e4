"""Symbolic execution of JVM bytecode on top of dv.core: every int/long is either a Python int (signed, in range)
or a z3 bit-vector of 32/64 bits with exactly the JVM's wrap-around semantics; arrays have symbolic length and
content; every branch, array access, division and cast that can go two ways forks the path; an exception is an
outcome of the path. Nothing is approximated: what is not modelled raises Unsupported (the case is undecided)."""
import z3
from . import core
from .core import Unsupported
from .jclass import decode, parse_desc

TOP = type("Top", (), {"__repr__": lambda s: "TOP"})()
is_z = z3.is_expr


class JThrow(Exception):
    def __init__(self, obj):
        super().__init__(obj)
        self.obj = obj


class JObj:
    __slots__ = ("cls", "f", "tag")

    def __init__(self, cls, tag=None):
        self.cls, self.f, self.tag = cls, {}, tag

    def __repr__(self):
        return "<%s>" % self.cls


class JBig:
    """java.math.BigInteger: v supports exact integer arithmetic (Python int, core.SInt or another exact integer)."""
    __slots__ = ("v",)
    cls = "java/math/BigInteger"

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Big(%r)" % (self.v,)


class JFp:
    """float/double given by its bits, or (big) the double nearest to an integer."""
    __slots__ = ("bits", "w", "big")

    def __init__(self, bits, w, big=None):
        self.bits, self.w, self.big = bits, w, big


class XInt:
    """A machine word held as an exact integer (core.LInt); an operation whose result might not fit is unsupported."""
    __slots__ = ("v", "w")

    def __init__(self, v, w):
        self.v, self.w = v, w

    @staticmethod
    def of(x):
        if isinstance(x, XInt):
            return x.v
        x = norm(x)
        if is_z(x):
            raise Unsupported("machine word mixed with an exact integer")
        return x

    @staticmethod
    def fit(v, w):
        if type(v) is int:
            return swrap(v, w)
        if not core.cur().must(core.And(v >= -(1 << (w - 1)), v <= (1 << (w - 1)) - 1)):
            raise Unsupported("overflow of an exact integer not excluded")
        return XInt(v, w)

    def __eq__(self, o):
        return core.tobool(self.v == XInt.of(o))

    def __ne__(self, o):
        return core.tobool(self.v != XInt.of(o))

    def __lt__(self, o):
        return core.tobool(self.v < XInt.of(o))

    def __le__(self, o):
        return core.tobool(self.v <= XInt.of(o))

    def __gt__(self, o):
        return core.tobool(self.v > XInt.of(o))

    def __ge__(self, o):
        return core.tobool(self.v >= XInt.of(o))

    __hash__ = object.__hash__


class JBox:
    __slots__ = ("cls", "v")

    def __init__(self, cls, v):
        self.cls, self.v = cls, v


class JClassRef:
    cls = "java/lang/Class"

    def __init__(self, name):
        self.name = name


def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def swrap(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def bv(x, w):
    return x if is_z(x) else z3.BitVecVal(x, w)


def norm(x):
    """python int if the value is a constant"""
    if is_z(x):
        if z3.is_bv_value(x):
            return x.as_signed_long()
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_signed_long()
    return x


ELEM_W = {"Z": 8, "B": 8, "C": 16, "S": 16, "I": 32, "J": 64, "F": 32, "D": 64}


class JArr:
    """length: int or BV32. Content: concrete list, or base function (BV32 index -> element) with a write log."""

    def __init__(self, kind, length, conc=None, base=None):
        self.kind, self.length, self.conc, self.base, self.log = kind, length, conc, base, []
        self.cls = "[" + (kind if len(kind) == 1 else "L%s;" % kind if kind[0] != "[" else kind)
        self.bufid = None

    def snapshot(self):
        a = JArr(self.kind, self.length, list(self.conc) if self.conc is not None else None, self.base)
        a.log = list(self.log)
        return a

    @property
    def w(self):
        return ELEM_W[self.kind]

    def raw(self, i):
        """element bits (BV of the element width, or python object for references) at index i, assumed in bounds"""
        i = norm(i)
        if self.conc is not None:
            if not is_z(i):
                return self.conc[i]
            if len(self.kind) > 1:
                raise Unsupported("symbolic index into a reference array")
            r = None
            for k, v in enumerate(self.conc):
                b = bv(v, self.w)
                r = b if r is None else z3.If(i == k, b, r)
            return r
        return self._look(i, len(self.log))

    def _look(self, i, n):
        k = n - 1
        while k >= 0:
            ent = self.log[k]
            if ent[0] == "st":
                d = norm(bv(i, 32) - bv(ent[1], 32))
                if not is_z(d):
                    if d == 0:
                        return bv(ent[2], self.w)
                    k -= 1
                    continue
                return z3.If(d == 0, bv(ent[2], self.w), self._look(i, k))
            _c, dst, ln, src, sp = ent
            off = norm(bv(i, 32) - bv(dst, 32))
            inside = z3.simplify(z3.ULT(bv(off, 32), bv(ln, 32)))
            if z3.is_true(inside) or core.cur().must(inside):
                return bv(src.raw(norm(bv(off, 32) + bv(sp, 32))), self.w)
            if z3.is_false(inside) or core.cur().must(z3.Not(inside)):
                k -= 1
                continue
            return z3.If(inside, bv(src.raw(norm(bv(off, 32) + bv(sp, 32))), self.w), self._look(i, k))
        return self.base(bv(i, 32)) if self.base is not None else z3.BitVecVal(0, self.w)

    def store(self, i, v):
        i = norm(i)
        if self.conc is not None:
            if is_z(i):
                if len(self.kind) > 1:
                    raise Unsupported("symbolic index into a reference array")
                self.conc = [z3.If(i == k, bv(v, self.w), bv(o, self.w)) for k, o in enumerate(self.conc)]
            else:
                self.conc[i] = v
            return
        self.log.append(("st", i, v))


EXC = {
    "java/lang/Throwable": "java/lang/Object",
    "java/lang/Exception": "java/lang/Throwable", "java/lang/Error": "java/lang/Throwable",
    "java/lang/RuntimeException": "java/lang/Exception", "java/io/IOException": "java/lang/Exception",
    "java/io/EOFException": "java/io/IOException", "java/lang/IllegalArgumentException": "java/lang/RuntimeException",
    "java/lang/NumberFormatException": "java/lang/IllegalArgumentException",
    "java/lang/IllegalStateException": "java/lang/RuntimeException",
    "java/lang/UnsupportedOperationException": "java/lang/RuntimeException",
    "java/lang/ArithmeticException": "java/lang/RuntimeException",
    "java/lang/ClassCastException": "java/lang/RuntimeException",
    "java/lang/NullPointerException": "java/lang/RuntimeException",
    "java/lang/NegativeArraySizeException": "java/lang/RuntimeException",
    "java/lang/ArrayStoreException": "java/lang/RuntimeException",
    "java/lang/IndexOutOfBoundsException": "java/lang/RuntimeException",
    "java/lang/ArrayIndexOutOfBoundsException": "java/lang/IndexOutOfBoundsException",
    "java/lang/VirtualMachineError": "java/lang/Error", "java/lang/OutOfMemoryError": "java/lang/VirtualMachineError",
    "java/lang/Integer": "java/lang/Number", "java/lang/Long": "java/lang/Number", "java/lang/Short": "java/lang/Number",
    "java/lang/Byte": "java/lang/Number", "java/math/BigInteger": "java/lang/Number", "java/lang/Number": "java/lang/Object",
}


class VM:
    def __init__(self, cpath, e):
        self.cp, self.e = cpath, e
        self.statics, self.inited = {}, set()
        self.hooks = {}             # (class, name, desc) or (class, name) -> f(vm, args) replaces the body
        self.ranges = {}            # method -> its loops (first, last byte code position)
        self.loops = {}             # (class, name, desc) -> f(vm, frame, header index) at loop headers
        self.steps = 0
        self.max_steps = 400000
        self.depth = 0
        self.trace = None

    # -- classes -----------------------------------------------------------
    def cls(self, name):
        return self.cp.find(name)

    def supers(self, name):
        """name and all its superclasses and interfaces"""
        seen, todo = [], [name]
        while todo:
            n = todo.pop(0)
            if n is None or n in seen:
                continue
            seen.append(n)
            c = self.cls(n)
            if c is not None:
                todo.append(c.super)
                todo.extend(c.interfaces)
            elif n in EXC:
                todo.append(EXC[n])
            elif n != "java/lang/Object":
                todo.append("java/lang/Object")
        return seen

    def isa(self, name, target):
        if target == "java/lang/Object":
            return True
        if name.startswith("["):
            return name == target
        return target in self.supers(name)

    def clsof(self, o):
        return "java/lang/String" if isinstance(o, str) else o.cls

    def init(self, name):
        if name in self.inited:
            return
        c = self.cls(name)
        if c is None:
            return
        self.inited.add(name)
        if c.super:
            self.init(c.super)
        for f, (fl, ds, const) in c.fields.items():
            if fl & 8:
                v = self.default(ds)
                if const is not None:
                    v = self.const(const)
                self.statics[(name, f)] = v
        m = c.methods.get(("<clinit>", "()V"))
        if m:
            self.run(m, [])

    def default(self, ds):
        if ds[0] in "L[":
            return None
        if ds in "FD":
            return JFp(0, 32 if ds == "F" else 64)
        return 0

    def const(self, c):
        k, v = c
        if k in ("int", "long", "string"):
            return v
        if k == "float":
            return JFp(v, 32)
        if k == "double":
            return JFp(v, 64)
        if k == "class":
            return JClassRef(v)
        raise Unsupported("constant " + k)

    def resolve_field(self, name, f):
        for n in self.supers(name):
            c = self.cls(n)
            if c is not None and f in c.fields:
                return n
        return name

    def find_method(self, name, nm, ds):
        for n in self.supers(name):
            c = self.cls(n)
            if c is not None:
                m = c.methods.get((nm, ds))
                if m is not None and (m.code is not None or m.flags & 0x100):
                    return m
        return None

    def new(self, name, ds="()V", *args):
        self.init(name)
        o = self.alloc(name)
        self.invoke(name, "<init>", ds, [o] + list(args))
        return o

    def alloc(self, name):
        o = JObj(name)
        for n in self.supers(name):
            c = self.cls(n)
            if c is not None:
                for f, (fl, ds, _c) in c.fields.items():
                    if not fl & 8:
                        o.f[f] = self.default(ds)
        return o

    def throw(self, name):
        raise JThrow(JObj(name))

    # -- invocation --------------------------------------------------------
    def call(self, cname, nm, ds, *args):
        """static call from a harness"""
        self.init(cname)
        return self.invoke(cname, nm, ds, list(args))

    def vcall(self, obj, nm, ds, *args):
        return self.invoke(self.clsof(obj), nm, ds, [obj] + list(args))

    def invoke(self, cname, nm, ds, args):
        m = self.find_method(cname, nm, ds)
        owner = m.cls.name if m is not None else cname
        for k in ((owner, nm, ds), (owner, nm), (cname, nm, ds), (cname, nm)):
            h = self.hooks.get(k)
            if h is not None:
                return h(self, args)
        if m is not None and m.code is not None:
            return self.run(m, args)
        for n in [cname] + self.supers(cname):
            h = NATIVE.get((n, nm, ds)) or NATIVE.get((n, nm))
            if h is not None:
                return h(self, *args)
        raise Unsupported("no model of %s.%s%s" % (cname, nm, ds))

    def run(self, m, args):
        if self.depth > 60:
            raise Unsupported("call depth")
        self.depth += 1
        try:
            return self._run(m, args)
        finally:
            self.depth -= 1

    def _run(self, m, args):
        insns = decode(m)
        loc = [None] * (m.max_locals + 2)
        i = 0
        ads = ([] if m.static else ["L"]) + m.args
        for a, d in zip(args, ads):
            loc[i] = a
            i += 2 if d in "JD" else 1
        st = []
        pc = 0
        loopf = self.loopf(m)
        heads = None
        if loopf:
            heads = sorted({a for p, (op, a, _n) in insns.items()
                            if (op == "goto" or op.startswith("if")) and a <= p})
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            if heads and pc in heads:
                r = loopf(self, loc, heads.index(pc), m)
                if r is not None:
                    pc = r
            op, a, nxt = insns[pc]
            try:
                r = self.step(m, op, a, loc, st, pc)
            except JThrow as t:
                for s, en, h, tp in m.handlers:
                    if s <= pc < en and (tp is None or self.isa(t.obj.cls, tp)):
                        st[:] = [t.obj]
                        pc = h
                        break
                else:
                    raise
                continue
            if r is None:
                pc = nxt
            elif r[0] == "j":
                pc = r[1]
            else:
                return r[1]

    # -- helpers -----------------------------------------------------------
    def br(self, c):
        if isinstance(c, bool):
            return c
        return self.e.branch(c)

    def brj(self, c, m, pc, target):
        """a conditional jump; in a loop that is cut, the way that stays inside is explored first"""
        if isinstance(c, bool):
            return c
        r = self.ranges.get(m)
        if r is None:
            r = []
            if self.loopf(m):
                r = [(a, p) for p, (op, a, _n) in decode(m).items() if (op == "goto" or op.startswith("if")) and a <= p]
            self.ranges[m] = r
        if any(lo <= pc <= hi and not lo <= target <= hi for lo, hi in r):
            return not self.e.branch(z3.Not(c))
        return self.e.branch(c)

    def loopf(self, m):
        return self.loops.get((m.cls.name, m.name, m.desc)) or self.loops.get((m.cls.name, m.name)) or self.loops.get(m.cls.name)

    def null(self, o):
        if o is None:
            self.throw("java/lang/NullPointerException")
        return o

    def bounds(self, arr, i):
        self.null(arr)
        i, n = norm(i), arr.length
        if not is_z(i) and not is_z(n):
            ok = 0 <= i < n
        else:
            ok = z3.And(bv(i, 32) >= 0, bv(i, 32) < bv(n, 32))
        if not self.br(ok):
            self.throw("java/lang/ArrayIndexOutOfBoundsException")
        return i

    def load(self, arr, i):
        i = self.bounds(arr, i)
        v = arr.raw(i)
        k = arr.kind
        if k in ("B", "Z", "S"):
            return z3.SignExt(32 - arr.w, v) if is_z(v) else v
        if k == "C":
            return z3.ZeroExt(16, v) if is_z(v) else v
        if k == "F" or k == "D":
            return v if isinstance(v, JFp) else JFp(v, arr.w)
        return v

    def store(self, arr, i, v):
        i = self.bounds(arr, i)
        k = arr.kind
        if k in ("B", "Z", "S", "C"):
            if is_z(v):
                v = norm(z3.Extract(arr.w - 1, 0, v))
            elif k == "C":
                v &= 0xffff
            else:
                v = swrap(v, arr.w)
        if k in "FD" and isinstance(v, JFp) and arr.conc is None:
            v = v.bits
        arr.store(i, v)

    def newarray(self, kind, n):
        n = norm(n)
        neg = n < 0
        if self.br(neg if not is_z(n) else z3.simplify(neg)):
            self.throw("java/lang/NegativeArraySizeException")
        if is_z(n):
            if len(kind) > 1:
                raise Unsupported("reference array of symbolic length")
            return JArr(kind, n)
        if n > 4096:
            return JArr(kind, n)
        return JArr(kind, n, conc=[self.default(kind if len(kind) == 1 else "L") for _ in range(n)])

    def step(self, m, op, a, loc, st, pc):
        f = DISPATCH.get(op)
        if f is None:
            raise Unsupported("bytecode %s in %r" % (op, m))
        return f(self, m, a, loc, st, pc)


DISPATCH = {}


def ins(*names):
    def deco(f):
        for n in names:
            DISPATCH[n] = f
        return f
    return deco


def _const(v, two=False):
    def f(vm, m, a, loc, st, pc):
        st.append(v)
        if two:
            st.append(TOP)
    return f


for _i, _n in enumerate("iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5".split()):
    DISPATCH[_n] = _const(_i - 1)
DISPATCH["lconst_0"], DISPATCH["lconst_1"] = _const(0, True), _const(1, True)
DISPATCH["aconst_null"] = _const(None)
for _i, _b in enumerate((0, 0x3f800000, 0x40000000)):
    DISPATCH["fconst_%d" % _i] = _const(JFp(_b, 32))
for _i, _b in enumerate((0, 0x3ff0000000000000)):
    DISPATCH["dconst_%d" % _i] = _const(JFp(_b, 64), True)


@ins("nop")
def _(vm, m, a, loc, st, pc):
    pass


@ins("bipush", "sipush")
def _(vm, m, a, loc, st, pc):
    st.append(a)


@ins("ldc")
def _(vm, m, a, loc, st, pc):
    st.append(vm.const(a))


@ins("ldc2_w")
def _(vm, m, a, loc, st, pc):
    st.append(vm.const(a))
    st.append(TOP)


@ins("iload", "fload", "aload")
def _(vm, m, a, loc, st, pc):
    st.append(loc[a])


@ins("lload", "dload")
def _(vm, m, a, loc, st, pc):
    st.append(loc[a])
    st.append(TOP)


@ins("istore", "fstore", "astore")
def _(vm, m, a, loc, st, pc):
    loc[a] = st.pop()


@ins("lstore", "dstore")
def _(vm, m, a, loc, st, pc):
    st.pop()
    loc[a] = st.pop()


@ins("iaload", "baload", "caload", "saload", "faload", "aaload")
def _(vm, m, a, loc, st, pc):
    i = st.pop()
    st.append(vm.load(st.pop(), i))


@ins("laload", "daload")
def _(vm, m, a, loc, st, pc):
    i = st.pop()
    st.append(vm.load(st.pop(), i))
    st.append(TOP)


@ins("iastore", "bastore", "castore", "sastore", "fastore", "aastore")
def _(vm, m, a, loc, st, pc):
    v, i = st.pop(), st.pop()
    vm.store(st.pop(), i, v)


@ins("lastore", "dastore")
def _(vm, m, a, loc, st, pc):
    st.pop()
    v, i = st.pop(), st.pop()
    vm.store(st.pop(), i, v)


@ins("pop")
def _(vm, m, a, loc, st, pc):
    st.pop()


@ins("pop2")
def _(vm, m, a, loc, st, pc):
    del st[-2:]


@ins("dup")
def _(vm, m, a, loc, st, pc):
    st.append(st[-1])


@ins("dup_x1")
def _(vm, m, a, loc, st, pc):
    st[-2:] = [st[-1], st[-2], st[-1]]


@ins("dup_x2")
def _(vm, m, a, loc, st, pc):
    st[-3:] = [st[-1], st[-3], st[-2], st[-1]]


@ins("dup2")
def _(vm, m, a, loc, st, pc):
    st.extend(st[-2:])


@ins("dup2_x1")
def _(vm, m, a, loc, st, pc):
    st[-3:] = [st[-2], st[-1], st[-3], st[-2], st[-1]]


@ins("dup2_x2")
def _(vm, m, a, loc, st, pc):
    st[-4:] = [st[-2], st[-1], st[-4], st[-3], st[-2], st[-1]]


@ins("swap")
def _(vm, m, a, loc, st, pc):
    st[-2:] = [st[-1], st[-2]]


def sdiv(x, y, w):
    """truncated division, y nonzero"""
    if isinstance(x, XInt) or isinstance(y, XInt):
        a, b = XInt.of(x), XInt.of(y)
        e = core.cur()
        na, nb = e.branch(core.tobool(a < 0)), e.branch(core.tobool(b < 0))
        q = (-a if na else a) // (-b if nb else b)
        return XInt.fit(q if na == nb else -q, w)
    if not is_z(x) and not is_z(y):
        q = abs(x) // abs(y)
        return swrap(q if (x < 0) == (y < 0) else -q, w)
    if not is_z(y) and y > 0 and y & (y - 1) == 0:
        k = y.bit_length() - 1
        if k == 0:
            return x
        return (x + z3.LShR(x >> (w - 1), w - k)) >> k
    return bv(x, w) / bv(y, w)


def srem(x, y, w):
    if isinstance(x, XInt) or isinstance(y, XInt):
        a, b = XInt.of(x), XInt.of(y)
        e = core.cur()
        na, nb = e.branch(core.tobool(a < 0)), e.branch(core.tobool(b < 0))
        r = (-a if na else a) % (-b if nb else b)
        return XInt.fit(-r if na else r, w)
    if not is_z(x) and not is_z(y):
        r = abs(x) % abs(y)
        return -r if x < 0 else r
    if not is_z(y) and y > 0 and y & (y - 1) == 0:
        return x - (sdiv(x, y, w) << (y.bit_length() - 1))
    return z3.SRem(bv(x, w), bv(y, w))


BIN = {
    "add": (lambda x, y: x + y, lambda x, y: x + y), "sub": (lambda x, y: x - y, lambda x, y: x - y),
    "mul": (lambda x, y: x * y, lambda x, y: x * y), "and": (lambda x, y: x & y, lambda x, y: x & y),
    "or": (lambda x, y: x | y, lambda x, y: x | y), "xor": (lambda x, y: x ^ y, lambda x, y: x ^ y),
}


def _binop(name, w):
    two = w == 64
    fc, fz = BIN[name]

    def f(vm, m, a, loc, st, pc):
        if two:
            st.pop()
        y = st.pop()
        if two:
            st.pop()
        x = st.pop()
        if isinstance(x, XInt) or isinstance(y, XInt):
            r = XInt.fit(fc(XInt.of(x), XInt.of(y)), w)
        elif is_z(x) or is_z(y):
            r = fz(bv(x, w), bv(y, w))
        else:
            r = swrap(fc(x, y), w)
        st.append(r)
        if two:
            st.append(TOP)
    return f


def _divop(name, w):
    two = w == 64

    def f(vm, m, a, loc, st, pc):
        if two:
            st.pop()
        y = norm(st.pop())
        if two:
            st.pop()
        x = norm(st.pop())
        zero = (y == 0) if not is_z(y) else z3.simplify(y == 0)
        if vm.br(zero):
            vm.throw("java/lang/ArithmeticException")
        st.append((sdiv if name == "div" else srem)(x, y, w))
        if two:
            st.append(TOP)
    return f


def _shop(name, w):
    two = w == 64

    def f(vm, m, a, loc, st, pc):
        y = norm(st.pop())
        if two:
            st.pop()
        x = st.pop()
        if isinstance(x, XInt):
            k = XInt.of(y)
            if type(k) is not int or name == "ushr":
                raise Unsupported("shift of an exact integer")
            st.append(XInt.fit(x.v << (k & (w - 1)) if name == "shl" else x.v >> (k & (w - 1)), w))
            if two:
                st.append(TOP)
            return
        if not is_z(y):
            y &= w - 1
        else:
            y = y & (w - 1)
            if two:
                y = z3.ZeroExt(32, y)
        if is_z(x) or is_z(y):
            xx, yy = bv(x, w), bv(y, w)
            r = xx << yy if name == "shl" else xx >> yy if name == "shr" else z3.LShR(xx, yy)
        elif name == "shl":
            r = swrap(x << y, w)
        elif name == "shr":
            r = x >> y
        else:
            r = swrap((x & ((1 << w) - 1)) >> y, w)
        st.append(r)
        if two:
            st.append(TOP)
    return f


for _w, _t in ((32, "i"), (64, "l")):
    for _n in BIN:
        DISPATCH[_t + _n] = _binop(_n, _w)
    for _n in ("div", "rem"):
        DISPATCH[_t + _n] = _divop(_n, _w)
    for _n in ("shl", "shr", "ushr"):
        DISPATCH[_t + _n] = _shop(_n, _w)


@ins("ineg")
def _(vm, m, a, loc, st, pc):
    x = st.pop()
    st.append(-x if is_z(x) else XInt.fit(-x.v, 32) if isinstance(x, XInt) else s32(-x))


@ins("lneg")
def _(vm, m, a, loc, st, pc):
    x = st[-2]
    st[-2] = -x if is_z(x) else XInt.fit(-x.v, 64) if isinstance(x, XInt) else s64(-x)


@ins("iinc")
def _(vm, m, a, loc, st, pc):
    x = loc[a[0]]
    loc[a[0]] = x + a[1] if is_z(x) else XInt.fit(x.v + a[1], 32) if isinstance(x, XInt) else s32(x + a[1])


@ins("i2l")
def _(vm, m, a, loc, st, pc):
    x = st.pop()
    st.append(z3.SignExt(32, x) if is_z(x) else XInt(x.v, 64) if isinstance(x, XInt) else x)
    st.append(TOP)


@ins("l2i")
def _(vm, m, a, loc, st, pc):
    st.pop()
    x = st.pop()
    st.append(z3.Extract(31, 0, x) if is_z(x) else XInt.fit(x.v, 32) if isinstance(x, XInt) else s32(x))


@ins("i2b")
def _(vm, m, a, loc, st, pc):
    x = st.pop()
    st.append(z3.SignExt(24, z3.Extract(7, 0, x)) if is_z(x) else swrap(x, 8))


@ins("i2s")
def _(vm, m, a, loc, st, pc):
    x = st.pop()
    st.append(z3.SignExt(16, z3.Extract(15, 0, x)) if is_z(x) else swrap(x, 16))


@ins("i2c")
def _(vm, m, a, loc, st, pc):
    x = st.pop()
    st.append(z3.ZeroExt(16, z3.Extract(15, 0, x)) if is_z(x) else x & 0xffff)


@ins("lcmp")
def _(vm, m, a, loc, st, pc):
    st.pop()
    y = st.pop()
    st.pop()
    x = st.pop()
    if is_z(x) or is_z(y):
        x, y = bv(x, 64), bv(y, 64)
        st.append(Cmp(x, y))
    elif isinstance(x, XInt) or isinstance(y, XInt):
        st.append(BCmp(None, None, _rel(XInt.of(x), XInt.of(y))))
    else:
        st.append((x > y) - (x < y))


class Cmp:
    """result of a three-way comparison of x and y that is only compared with zero"""
    __slots__ = ("x", "y", "rel")

    def __init__(self, x, y, rel=None):
        self.x, self.y, self.rel = x, y, rel

    def test(self, op):
        if self.rel is not None:
            return self.rel(op)
        x, y = self.x, self.y
        return {"eq": x == y, "ne": x != y, "lt": x < y, "ge": x >= y, "gt": x > y, "le": x <= y}[op]

    def value(self):
        return z3.If(self.test("lt"), z3.BitVecVal(-1, 32), z3.If(self.test("eq"), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))


def plain(x):
    return x.value() if isinstance(x, Cmp) else x


def _fpcmp(vm, x, y):
    for p, q, flip in ((x, y, False), (y, x, True)):
        if p.big is not None:
            if q.big is not None or is_z(q.bits):
                raise Unsupported("comparison of two doubles")
            import struct
            c = struct.unpack(">d", struct.pack(">Q", q.bits & ((1 << 64) - 1)))[0]
            if c != int(c) or abs(c) > 2 ** 53:
                raise Unsupported("double constant")
            c = int(c)
            # rounding to nearest is monotone and exact on integers of magnitude up to 2^53
            from .core import SBool

            def rel(op, v=p.big, c=c, flip=flip):
                a, b = (c, v) if flip else (v, c)
                r = {"eq": a == b, "ne": a != b, "lt": a < b, "ge": a >= b, "gt": a > b, "le": a <= b}[op]
                return r.t if isinstance(r, SBool) else r
            return Cmp(None, None, rel)
    raise Unsupported("floating-point comparison")


@ins("dcmpl", "dcmpg")
def _(vm, m, a, loc, st, pc):
    st.pop()
    y = st.pop()
    st.pop()
    x = st.pop()
    st.append(_fpcmp(vm, x, y))


def _if(op):
    def f(vm, m, a, loc, st, pc):
        x = st.pop()
        if isinstance(x, Cmp):
            c = x.test(op)
        else:
            c = {"eq": lambda: x == 0, "ne": lambda: x != 0, "lt": lambda: x < 0, "ge": lambda: x >= 0,
                 "gt": lambda: x > 0, "le": lambda: x <= 0}[op]()
        if vm.brj(c, m, pc, a):
            return ("j", a)
    return f


def _ificmp(op):
    def f(vm, m, a, loc, st, pc):
        y, x = plain(st.pop()), plain(st.pop())
        c = {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "ge": lambda: x >= y,
             "gt": lambda: x > y, "le": lambda: x <= y}[op]()
        if vm.brj(c, m, pc, a):
            return ("j", a)
    return f


for _o in ("eq", "ne", "lt", "ge", "gt", "le"):
    DISPATCH["if" + _o] = _if(_o)
    DISPATCH["if_icmp" + _o] = _ificmp(_o)


@ins("if_acmpeq", "if_acmpne")
def _(vm, m, a, loc, st, pc):
    raise Unsupported("reference comparison")


def _acmp(neg):
    def f(vm, m, a, loc, st, pc):
        y, x = st.pop(), st.pop()
        if isinstance(x, (JBig, JBox, str)) or isinstance(y, (JBig, JBox, str)):
            if not (x is None or y is None or x is y):
                raise Unsupported("identity of value objects")
        if (x is y) != neg:
            return ("j", a)
    return f


DISPATCH["if_acmpeq"], DISPATCH["if_acmpne"] = _acmp(False), _acmp(True)


@ins("ifnull")
def _(vm, m, a, loc, st, pc):
    if st.pop() is None:
        return ("j", a)


@ins("ifnonnull")
def _(vm, m, a, loc, st, pc):
    if st.pop() is not None:
        return ("j", a)


@ins("goto")
def _(vm, m, a, loc, st, pc):
    return ("j", a)


@ins("tableswitch")
def _(vm, m, a, loc, st, pc):
    x = norm(plain(st.pop()))
    df, tbl = a
    if not is_z(x):
        return ("j", tbl.get(x, df))
    for k, t in tbl.items():
        if vm.br(x == k):
            return ("j", t)
    return ("j", df)


@ins("ireturn", "freturn", "areturn")
def _(vm, m, a, loc, st, pc):
    v = plain(st.pop())
    return ("r", v)


@ins("lreturn", "dreturn")
def _(vm, m, a, loc, st, pc):
    st.pop()
    return ("r", st.pop())


@ins("return")
def _(vm, m, a, loc, st, pc):
    return ("r", None)


@ins("getstatic")
def _(vm, m, a, loc, st, pc):
    c, f, ds = a
    if vm.cls(c) is None:
        k = STATICS.get((c, f))
        if k is None:
            raise Unsupported("static field %s.%s" % (c, f))
        v = k() if callable(k) else k
    else:
        n = vm.resolve_field(c, f)
        vm.init(n)
        v = vm.statics[(n, f)]
    st.append(v)
    if ds in "JD":
        st.append(TOP)


@ins("putstatic")
def _(vm, m, a, loc, st, pc):
    c, f, ds = a
    n = vm.resolve_field(c, f)
    vm.init(n)
    if ds in "JD":
        st.pop()
    vm.statics[(n, f)] = plain(st.pop())


@ins("getfield")
def _(vm, m, a, loc, st, pc):
    c, f, ds = a
    o = vm.null(st.pop())
    if f not in o.f:
        raise Unsupported("field %s.%s" % (c, f))
    st.append(o.f[f])
    if ds in "JD":
        st.append(TOP)


@ins("putfield")
def _(vm, m, a, loc, st, pc):
    c, f, ds = a
    if ds in "JD":
        st.pop()
    v = plain(st.pop())
    o = vm.null(st.pop())
    if ds in "ZBSC":
        v = _narrow(v, ds)
    o.f[f] = v


def _narrow(v, ds):
    """the verifier guarantees values are already in range (javac emits i2b/i2s); keep the value"""
    return v


def _invoke(vm, a, st, static, virtual):
    c, nm, ds = a
    args, ret = parse_desc(ds)
    vals = []
    for d in reversed(args):
        if d in "JD":
            st.pop()
        vals.append(plain(st.pop()))
    if not static:
        o = st.pop()
        vals.append(o)
    vals.reverse()
    if static:
        vm.init(c)
        r = vm.invoke(c, nm, ds, vals)
    else:
        if o is None:
            vm.throw("java/lang/NullPointerException")
        r = vm.invoke(vm.clsof(o) if virtual else c, nm, ds, vals)
    if ret != "V":
        st.append(r)
        if ret in "JD":
            st.append(TOP)


@ins("invokestatic")
def _(vm, m, a, loc, st, pc):
    _invoke(vm, a, st, True, False)


@ins("invokespecial")
def _(vm, m, a, loc, st, pc):
    _invoke(vm, a, st, False, False)


@ins("invokevirtual", "invokeinterface")
def _(vm, m, a, loc, st, pc):
    _invoke(vm, a, st, False, True)


@ins("new")
def _(vm, m, a, loc, st, pc):
    vm.init(a)
    st.append(JBig(None) if a == "java/math/BigInteger" else vm.alloc(a))


KIND = {4: "Z", 5: "C", 6: "F", 7: "D", 8: "B", 9: "S", 10: "I", 11: "J"}


@ins("newarray")
def _(vm, m, a, loc, st, pc):
    st.append(vm.newarray(KIND[a], st.pop()))


@ins("anewarray")
def _(vm, m, a, loc, st, pc):
    st.append(vm.newarray(a if len(a) > 1 else "L" + a, st.pop()))


@ins("arraylength")
def _(vm, m, a, loc, st, pc):
    st.append(vm.null(st.pop()).length)


@ins("athrow")
def _(vm, m, a, loc, st, pc):
    raise JThrow(vm.null(st.pop()))


@ins("checkcast")
def _(vm, m, a, loc, st, pc):
    o = st[-1]
    if o is not None and not vm.isa(vm.clsof(o), a):
        vm.throw("java/lang/ClassCastException")


@ins("instanceof")
def _(vm, m, a, loc, st, pc):
    o = st.pop()
    st.append(0 if o is None else int(vm.isa(vm.clsof(o), a)))


# ---------------------------------------------------------------- models of the Java class library
NATIVE = {}
STATICS = {("java/math/BigInteger", "ZERO"): lambda: JBig(0), ("java/math/BigInteger", "ONE"): lambda: JBig(1),
           ("java/math/BigInteger", "TEN"): lambda: JBig(10)}


def nat(c, *names):
    def deco(f):
        for n in names:
            NATIVE[(c, n)] = f
        return f
    return deco


@nat("java/lang/Object", "<init>")
def _(vm, o, *a):
    pass


@nat("java/lang/Throwable", "<init>")
def _(vm, o, *a):
    pass


@nat("java/lang/Throwable", "getMessage", "toString")
def _(vm, o, *a):
    return "?"


@nat("java/lang/Throwable", "addSuppressed", "printStackTrace")
def _(vm, o, *a):
    return None


@nat("java/lang/StringBuilder", "<init>")
def _(vm, o, *a):
    pass


@nat("java/lang/StringBuilder", "append")
def _(vm, o, *a):
    return o


@nat("java/lang/StringBuilder", "toString")
def _(vm, o):
    return "?"


@nat("java/lang/String", "valueOf", "format")
def _(vm, *a):
    return "?"


def _arraycopy(vm, src, sp, dst, dp, n):
    vm.null(src), vm.null(dst)
    sp, dp, n = norm(sp), norm(dp), norm(n)

    def inb(p, ln):
        if not is_z(p) and not is_z(n) and not is_z(ln):
            return p >= 0 and n >= 0 and p + n <= ln
        p64, n64, l64 = [z3.SignExt(32, bv(x, 32)) for x in (p, n, ln)]
        return z3.And(p64 >= 0, n64 >= 0, p64 + n64 <= l64)
    for p, ln in ((sp, src.length), (dp, dst.length)):
        if not vm.br(inb(p, ln)):
            vm.throw("java/lang/ArrayIndexOutOfBoundsException")
    if not is_z(n) and n <= 64:
        vals = [src.raw(norm(bv(sp, 32) + i) if is_z(sp) else sp + i) for i in range(n)]
        for i, v in enumerate(vals):
            dst.store(norm(bv(dp, 32) + i) if is_z(dp) else dp + i, v)
        return
    if dst.conc is not None:
        vals = list(dst.conc)
        snap, w = src.snapshot(), dst.w

        def base(i, vals=vals, snap=snap, w=w):
            r = z3.BitVecVal(0, w)
            for k, v in enumerate(vals):
                r = z3.If(i == k, bv(v, w), r)
            return r
        dst.conc, dst.base = None, base
    dst.log.append(("cp", dp, n, src.snapshot(), sp))


NATIVE[("java/lang/System", "arraycopy")] = _arraycopy


def _ite(c, a, b, w):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, bv(a, w), bv(b, w))


def _minmax(w, ismax):
    def f(vm, x, y):
        if not is_z(x) and not is_z(y):
            return max(x, y) if ismax else min(x, y)
        c = bv(x, w) > bv(y, w)
        return _ite(c, x if ismax else y, y if ismax else x, w)
    return f


for _w, _d in ((32, "I"), (64, "J")):
    NATIVE[("java/lang/Math", "min", "(%s%s)%s" % (_d, _d, _d))] = _minmax(_w, False)
    NATIVE[("java/lang/Math", "max", "(%s%s)%s" % (_d, _d, _d))] = _minmax(_w, True)

    def _abs(vm, x, w=_w):
        if not is_z(x):
            return swrap(abs(x), w)
        return z3.If(x < 0, -x, x)
    NATIVE[("java/lang/Math", "abs", "(%s)%s" % (_d, _d))] = _abs


def _clz(w):
    def f(vm, x):
        if not is_z(x):
            return w - (x & ((1 << w) - 1)).bit_length()
        r = z3.BitVecVal(w, 32)
        for k in range(w):
            r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k, 32), r)
        return r
    return f


NATIVE[("java/lang/Long", "numberOfLeadingZeros")] = _clz(64)
NATIVE[("java/lang/Integer", "numberOfLeadingZeros")] = _clz(32)


@nat("java/lang/Float", "intBitsToFloat")
def _(vm, x):
    return JFp(x, 32)


@nat("java/lang/Float", "floatToRawIntBits")
def _(vm, x):
    return x.bits


NATIVE[("java/lang/Float", "floatValue")] = NATIVE[("java/lang/Double", "doubleValue")] = lambda vm, o: o.v
NATIVE[("java/lang/Float", "valueOf")] = lambda vm, x: JBox("java/lang/Float", x)
NATIVE[("java/lang/Double", "valueOf")] = lambda vm, x: JBox("java/lang/Double", x)


@nat("java/lang/Float", "floatToIntBits")
def _(vm, x):
    if not is_z(x.bits):
        b = x.bits & 0xffffffff
        return 0x7fc00000 if (b & 0x7fffffff) > 0x7f800000 else s32(b)
    nan = z3.UGT(x.bits & 0x7fffffff, z3.BitVecVal(0x7f800000, 32))
    return z3.If(nan, z3.BitVecVal(0x7fc00000, 32), x.bits)


@nat("java/lang/Double", "longBitsToDouble")
def _(vm, x):
    return JFp(x, 64)


@nat("java/lang/Double", "doubleToRawLongBits")
def _(vm, x):
    return x.bits


@nat("java/lang/Double", "doubleToLongBits")
def _(vm, x):
    if not is_z(x.bits):
        b = x.bits & (1 << 64) - 1
        return 0x7ff8000000000000 if (b & (1 << 63) - 1) > 0x7ff0000000000000 else s64(b)
    nan = z3.UGT(x.bits & ((1 << 63) - 1), z3.BitVecVal(0x7ff0000000000000, 64))
    return z3.If(nan, z3.BitVecVal(0x7ff8000000000000, 64), x.bits)


for _c, _w in (("Byte", 32), ("Short", 32), ("Integer", 32), ("Long", 64), ("Boolean", 32)):
    def _valueOf(vm, x, c="java/lang/" + _c):
        return JBox(c, x)

    def _get(w):
        def f(vm, o, frm=_w, w=w):
            x = o.v
            if frm == w:
                return x
            if w == 64:
                return z3.SignExt(32, x) if is_z(x) else x
            return z3.Extract(31, 0, x) if is_z(x) else s32(x)
        return f
    NATIVE[("java/lang/" + _c, "valueOf")] = _valueOf
    NATIVE[("java/lang/" + _c, "intValue")] = NATIVE[("java/lang/" + _c, "booleanValue")] = _get(32)
    NATIVE[("java/lang/" + _c, "longValue")] = _get(64)

    def _narrowv(b):
        def f(vm, o):
            x = o.v
            if is_z(x):
                return z3.SignExt(32 - b, z3.Extract(b - 1, 0, x))
            return swrap(x, b)
        return f
    NATIVE[("java/lang/" + _c, "byteValue")] = _narrowv(8)
    NATIVE[("java/lang/" + _c, "shortValue")] = _narrowv(16)


# BigInteger: exact integers
B = "java/math/BigInteger"


def to_exact(x, w):
    if isinstance(x, XInt):
        return x.v
    return core.from_sbits(bv(x, w)) if is_z(x) else x


def to_bits(v, w):
    """low w bits of an exact integer as a signed machine word"""
    if isinstance(v, int) and not core.is_sym(v):
        return swrap(v, w)
    if hasattr(v, "low_bits"):
        return v.low_bits(w)
    return norm(core.ubits(v & ((1 << w) - 1), w))


NATIVE[(B, "valueOf")] = lambda vm, x: JBig(to_exact(x, 64))
NATIVE[(B, "add")] = lambda vm, a, b: JBig(a.v + b.v)
NATIVE[(B, "subtract")] = lambda vm, a, b: JBig(a.v - b.v)
NATIVE[(B, "multiply")] = lambda vm, a, b: JBig(a.v * b.v)
NATIVE[(B, "negate")] = lambda vm, a: JBig(-a.v)
NATIVE[(B, "and")] = lambda vm, a, b: JBig(a.v & b.v)
NATIVE[(B, "or")] = lambda vm, a, b: JBig(a.v | b.v)
NATIVE[(B, "xor")] = lambda vm, a, b: JBig(a.v ^ b.v)
NATIVE[(B, "not")] = lambda vm, a: JBig(~a.v)
NATIVE[(B, "abs")] = lambda vm, a: JBig(abs(a.v))
NATIVE[(B, "intValue")] = lambda vm, a: to_bits(a.v, 32)
NATIVE[(B, "longValue")] = lambda vm, a: to_bits(a.v, 64)
NATIVE[(B, "doubleValue")] = lambda vm, a: JFp(None, 64, big=a.v)


def _bignarrow(b):
    def f(vm, a):
        x = to_bits(a.v, 32)
        return z3.SignExt(32 - b, z3.Extract(b - 1, 0, x)) if is_z(x) else swrap(x, b)
    return f


NATIVE[(B, "byteValue")] = _bignarrow(8)
NATIVE[(B, "shortValue")] = _bignarrow(16)


def _rel(a, b):
    def rel(op):
        r = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "ge": lambda: a >= b,
             "gt": lambda: a > b, "le": lambda: a <= b}[op]()
        r = core.tobool(r)
        return r
    return rel


class BCmp(Cmp):
    __slots__ = ()

    def test(self, op):
        return self.rel(op)

    def value(self):
        lt, eq = self.test("lt"), self.test("eq")
        if isinstance(lt, bool) and isinstance(eq, bool):
            return -1 if lt else 0 if eq else 1
        return z3.If(lt, z3.BitVecVal(-1, 32), z3.If(eq, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))


NATIVE[(B, "compareTo")] = lambda vm, a, b: BCmp(None, None, _rel(vm.null(a).v, vm.null(b).v))
NATIVE[(B, "signum")] = lambda vm, a: BCmp(None, None, _rel(a.v, 0))


def _bigeq(vm, a, b):
    if not isinstance(b, JBig):
        return 0
    r = core.tobool(a.v == b.v)
    return int(r) if isinstance(r, bool) else z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


NATIVE[(B, "equals")] = _bigeq


def _bigmm(ismax):
    def f(vm, a, b):
        c = core.tobool(vm.null(a).v > vm.null(b).v)
        return (a if vm.br(c) else b) if ismax else (b if vm.br(c) else a)
    return f


NATIVE[(B, "min")], NATIVE[(B, "max")] = _bigmm(False), _bigmm(True)


def _conc_int(vm, n, what):
    n = norm(n)
    if is_z(n):
        n = vm.e.concretize(n)
    return n


def _shl(vm, a, n):
    if isinstance(n, XInt) and hasattr(n.v, "of") and not hasattr(a.v, "shift_left"):
        a = JBig(n.v.of(a.v))
    if hasattr(a.v, "shift_left"):
        return JBig(a.v.shift_left(n))
    n = _conc_int(vm, n, "shift")
    return JBig(a.v << n if n >= 0 else a.v >> -n)


def _shr(vm, a, n):
    if isinstance(n, XInt) and hasattr(n.v, "of") and not hasattr(a.v, "shift_right"):
        a = JBig(n.v.of(a.v))
    if hasattr(a.v, "shift_right"):
        return JBig(a.v.shift_right(n))
    n = _conc_int(vm, n, "shift")
    return JBig(a.v >> n if n >= 0 else a.v << -n)


NATIVE[(B, "shiftLeft")], NATIVE[(B, "shiftRight")] = _shl, _shr


def _truncdiv(vm, a, b, rem):
    if hasattr(a.v, "trunc_div") or hasattr(b.v, "trunc_div"):
        if vm.br(core.tobool(b.v == 0)):
            vm.throw("java/lang/ArithmeticException")
        x = a.v if hasattr(a.v, "trunc_div") else b.v.of(a.v)
        return JBig(x.trunc_rem(b.v) if rem else x.trunc_div(b.v))
    if vm.br(core.tobool(b.v == 0)):
        vm.throw("java/lang/ArithmeticException")
    q = abs(a.v) // abs(b.v)
    if vm.br(core.tobool(a.v < 0)) != vm.br(core.tobool(b.v < 0)):
        q = -q
    return JBig(a.v - q * b.v if rem else q)


NATIVE[(B, "divide")] = lambda vm, a, b: _truncdiv(vm, a, b, False)
NATIVE[(B, "remainder")] = lambda vm, a, b: _truncdiv(vm, a, b, True)


def _mod(vm, a, b):
    if vm.br(core.tobool(b.v <= 0)):
        vm.throw("java/lang/ArithmeticException")
    r = _truncdiv(vm, a, b, True)
    return JBig(r.v + b.v) if vm.br(core.tobool(r.v < 0)) else r


NATIVE[(B, "mod")] = _mod


def bit_length(vm, v):
    """BigInteger.bitLength as an exact integer"""
    if isinstance(v, int) and not core.is_sym(v):
        return (v if v >= 0 else ~v).bit_length()
    if hasattr(v, "java_bit_length"):
        return v.java_bit_length()
    if vm.br(core.tobool(v < 0)):
        v = ~v
    return v.bit_length()


def _bitlen(vm, a):
    n = bit_length(vm, a.v)
    if isinstance(n, int) and not core.is_sym(n):
        return n
    if isinstance(n, core.SInt):
        return norm(core.ubits(n, 32))
    return n


NATIVE[(B, "bitLength")] = _bitlen


def _testbit(vm, a, n):
    n = _conc_int(vm, n, "testBit")
    if n < 0:
        vm.throw("java/lang/ArithmeticException")
    r = core.tobool(((a.v >> n) & 1) != 0)
    return int(r) if isinstance(r, bool) else z3.If(r, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


NATIVE[(B, "testBit")] = _testbit


def _tobytes(vm, a):
    n = norm(_bitlen(vm, a))
    nb = vm.e.concretize(n) if is_z(n) else n
    nb = nb // 8 + 1
    bits = [to_bits((a.v >> (8 * (nb - 1 - k))) & 0xff, 16) for k in range(nb)]
    return JArr("B", nb, conc=[norm(z3.Extract(7, 0, b)) if is_z(b) else swrap(b, 8) for b in bits])


NATIVE[(B, "toByteArray")] = _tobytes


def _biginit(vm, o, *a):
    if len(a) == 2 and isinstance(a[1], JArr) and not is_z(a[1].length):
        v = 0
        for k in range(a[1].length):
            x = a[1].raw(k)
            v = (v << 8) | (core.from_ubits(x) if is_z(x) else x & 0xff)
        if a[0] != 1:
            raise Unsupported("BigInteger(signum, bytes)")
        o.v = v
    elif len(a) >= 1 and isinstance(a[0], str) and a[0] != "?":
        o.v = int(a[0], a[1] if len(a) > 1 else 10)
    else:
        raise Unsupported("BigInteger constructor")


NATIVE[(B, "<init>")] = _biginit


def exc(fn):
    """Runs fn: (result, None) or (None, class of the exception)"""
    try:
        return fn(), None
    except JThrow as t:
        return None, t.obj.cls
