"""Reader of Java class files (what javac produced from /repo's current source)."""
import struct
import os


class Method:
    __slots__ = ("cls", "name", "desc", "flags", "code", "max_locals", "handlers", "lines", "insns", "nargs", "ret", "args")

    @property
    def static(self):
        return bool(self.flags & 8)

    def line(self, pc):
        res = None
        for p, l in self.lines:
            if p <= pc:
                res = l
        return res

    def __repr__(self):
        return "%s.%s%s" % (self.cls.name, self.name, self.desc)


def parse_desc(desc):
    """(list of argument type descriptors, return type descriptor)"""
    assert desc[0] == "("
    i, args = 1, []
    while desc[i] != ")":
        j = i
        while desc[j] == "[":
            j += 1
        if desc[j] == "L":
            j = desc.index(";", j)
        args.append(desc[i:j + 1])
        i = j + 1
    return args, desc[i + 1:]


class ClassFile:
    def __init__(self, data):
        self.data = data
        self.p = 8
        assert data[:4] == b"\xca\xfe\xba\xbe"
        self._pool()
        self.flags, this, sup = self._u("HHH")
        self.name = self.clsname(this)
        self.super = self.clsname(sup) if sup else None
        n, = self._u("H")
        self.interfaces = [self.clsname(self._u("H")[0]) for _ in range(n)]
        self.fields, self.methods = {}, {}
        n, = self._u("H")
        for _ in range(n):
            fl, nm, ds, na = self._u("HHHH")
            const = None
            for _ in range(na):
                an, ln = self._u("HI")
                if self.cp[an] == "ConstantValue":
                    const = self.const(struct.unpack(">H", data[self.p:self.p + 2])[0])
                self.p += ln
            self.fields[self.cp[nm]] = (fl, self.cp[ds], const)
        n, = self._u("H")
        for _ in range(n):
            m = Method()
            m.cls = self
            fl, nm, ds, na = self._u("HHHH")
            m.flags, m.name, m.desc = fl, self.cp[nm], self.cp[ds]
            m.args, m.ret = parse_desc(m.desc)
            m.code, m.handlers, m.lines, m.insns, m.max_locals = None, [], [], None, 0
            for _ in range(na):
                an, ln = self._u("HI")
                end = self.p + ln
                if self.cp[an] == "Code":
                    _ms, m.max_locals, cl = self._u("HHI")
                    m.code = data[self.p:self.p + cl]
                    self.p += cl
                    ne, = self._u("H")
                    for _ in range(ne):
                        s, e, h, t = self._u("HHHH")
                        m.handlers.append((s, e, h, self.clsname(t) if t else None))
                    nca, = self._u("H")
                    for _ in range(nca):
                        can, cln = self._u("HI")
                        if self.cp[can] == "LineNumberTable":
                            k, = struct.unpack(">H", data[self.p:self.p + 2])
                            for i in range(k):
                                m.lines.append(struct.unpack(">HH", data[self.p + 2 + 4 * i:self.p + 6 + 4 * i]))
                        self.p += cln
                self.p = end
            m.lines.sort()
            self.methods[(m.name, m.desc)] = m

    def _u(self, fmt):
        fmt = ">" + fmt
        n = struct.calcsize(fmt)
        r = struct.unpack(fmt, self.data[self.p:self.p + n])
        self.p += n
        return r

    def _pool(self):
        n, = self._u("H")
        self.cp = cp = [None] * n
        i = 1
        while i < n:
            t, = self._u("B")
            if t == 1:
                ln, = self._u("H")
                cp[i] = self.data[self.p:self.p + ln].decode("utf-8", "surrogatepass")
                self.p += ln
            elif t == 3:
                cp[i] = ("int", self._u("i")[0])
            elif t == 4:
                cp[i] = ("float", self._u("I")[0])
            elif t == 5:
                cp[i] = ("long", self._u("q")[0])
                i += 1
            elif t == 6:
                cp[i] = ("double", self._u("Q")[0])
                i += 1
            elif t == 7:
                cp[i] = ("class", self._u("H")[0])
            elif t == 8:
                cp[i] = ("string", self._u("H")[0])
            elif t in (9, 10, 11):
                cp[i] = ("ref",) + self._u("HH")
            elif t == 12:
                cp[i] = ("nt",) + self._u("HH")
            elif t == 15:
                cp[i] = ("mh",) + self._u("BH")
            elif t == 16:
                cp[i] = ("mt", self._u("H")[0])
            elif t in (17, 18):
                cp[i] = ("indy",) + self._u("HH")
            else:
                raise ValueError("constant tag %d" % t)
            i += 1

    def clsname(self, i):
        return self.cp[self.cp[i][1]]

    def const(self, i):
        c = self.cp[i]
        if c[0] == "string":
            return ("string", self.cp[c[1]])
        if c[0] == "class":
            return ("class", self.cp[c[1]])
        return c

    def ref(self, i):
        _k, ci, ni = self.cp[i]
        _k, a, b = self.cp[ni]
        return self.clsname(ci), self.cp[a], self.cp[b]


class ClassPath:
    def __init__(self, *dirs):
        self.dirs = dirs
        self.cache = {}

    def find(self, name):
        if name not in self.cache:
            self.cache[name] = None
            for d in self.dirs:
                f = os.path.join(d, name + ".class")
                if os.path.exists(f):
                    with open(f, "rb") as fh:
                        self.cache[name] = ClassFile(fh.read())
                    break
        return self.cache[name]


OPS = {}


def _ops():
    names = ("nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 "
             "dconst_0 dconst_1 bipush sipush ldc ldc_w ldc2_w iload lload fload dload aload "
             + " ".join("%sload_%d" % (t, i) for t in "ilfda" for i in range(4))
             + " iaload laload faload daload aaload baload caload saload istore lstore fstore dstore astore "
             + " ".join("%sstore_%d" % (t, i) for t in "ilfda" for i in range(4))
             + " iastore lastore fastore dastore aastore bastore castore sastore pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap "
             + " ".join("%s%s" % (t, o) for o in ("add", "sub", "mul", "div", "rem", "neg") for t in "ilfd")
             + " ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor iinc i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s "
             "lcmp fcmpl fcmpg dcmpl dcmpg ifeq ifne iflt ifge ifgt ifle if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple "
             "if_acmpeq if_acmpne goto jsr ret tableswitch lookupswitch ireturn lreturn freturn dreturn areturn return getstatic putstatic "
             "getfield putfield invokevirtual invokespecial invokestatic invokeinterface invokedynamic new newarray anewarray arraylength "
             "athrow checkcast instanceof monitorenter monitorexit wide multianewarray ifnull ifnonnull goto_w jsr_w").split()
    for i, n in enumerate(names):
        OPS[i] = n


_ops()
WIDE_VAL = set("lconst_0 lconst_1 dconst_0 dconst_1".split())


def decode(m):
    """dict pc -> (op, operands, next pc)"""
    if m.insns is not None:
        return m.insns
    c, cf, i, out = m.code, m.cls, 0, {}
    U = struct.unpack_from
    while i < len(c):
        op = OPS[c[i]]
        s = i
        a = None
        if op == "bipush":
            a, i = U(">b", c, i + 1)[0], i + 2
        elif op == "sipush":
            a, i = U(">h", c, i + 1)[0], i + 3
        elif op == "ldc":
            a, i = cf.const(c[i + 1]), i + 2
        elif op in ("ldc_w", "ldc2_w"):
            a, i = cf.const(U(">H", c, i + 1)[0]), i + 3
            op = "ldc" if op == "ldc_w" else op
        elif op in ("iload", "lload", "fload", "dload", "aload", "istore", "lstore", "fstore", "dstore", "astore"):
            a, i = c[i + 1], i + 2
        elif len(op) > 6 and op[-2] == "_" and op[1:5] in ("load", "stor"):
            a, op, i = int(op[-1]), op[:-2], i + 1
        elif op == "iinc":
            a, i = (c[i + 1], U(">b", c, i + 2)[0]), i + 3
        elif op.startswith("if") or op == "goto":
            a, i = s + U(">h", c, i + 1)[0], i + 3
        elif op == "goto_w":
            a, i, op = s + U(">i", c, i + 1)[0], i + 5, "goto"
        elif op == "tableswitch":
            j = (i + 4) & ~3
            df, lo, hi = U(">iii", c, j)
            a = (s + df, {lo + k: s + U(">i", c, j + 12 + 4 * k)[0] for k in range(hi - lo + 1)})
            i = j + 12 + 4 * (hi - lo + 1)
        elif op == "lookupswitch":
            j = (i + 4) & ~3
            df, n = U(">ii", c, j)
            a = (s + df, {U(">i", c, j + 8 + 8 * k)[0]: s + U(">i", c, j + 12 + 8 * k)[0] for k in range(n)})
            i = j + 8 + 8 * n
            op = "tableswitch"
        elif op in ("getstatic", "putstatic", "getfield", "putfield", "invokevirtual", "invokespecial", "invokestatic"):
            a, i = cf.ref(U(">H", c, i + 1)[0]), i + 3
        elif op == "invokeinterface":
            a, i = cf.ref(U(">H", c, i + 1)[0]), i + 5
        elif op == "invokedynamic":
            a, i = cf.cp[U(">H", c, i + 1)[0]], i + 5
        elif op in ("new", "anewarray", "checkcast", "instanceof"):
            a, i = cf.clsname(U(">H", c, i + 1)[0]), i + 3
        elif op == "newarray":
            a, i = c[i + 1], i + 2
        elif op == "multianewarray":
            a, i = (cf.clsname(U(">H", c, i + 1)[0]), c[i + 3]), i + 4
        elif op == "wide":
            w = OPS[c[i + 1]]
            if w == "iinc":
                a, i, op = U(">Hh", c, i + 2), i + 6, w
            else:
                a, i, op = U(">H", c, i + 2)[0], i + 4, w
        else:
            i += 1
        out[s] = (op, a, i)
    m.insns = out
    return out
