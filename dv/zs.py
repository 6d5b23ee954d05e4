"""An independent reading of zserio schemas: a parser for the language (without SQL, services and rules) and the
reference layout of every type.  Nothing here looks at the compiler or at generated code.

The layout of an object is a list of stream items in schema order; positions are kept in a `Sink`."""
import re

TOKEN = re.compile(r"""
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
  | (?P<num>0[xX][0-9a-fA-F]+|[01]+[bB](?![0-9a-zA-Z])|\d+\.\d*(?:[eE][-+]?\d+)?f?|\d+[eE][-+]?\d+f?|\d+)
  | (?P<str>"(?:\\.|[^"\\])*")
  | (?P<idx>@index)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op><<|<=|>=|==|!=|&&|\|\||[-+*/%<>=!&|^~?:;,.(){}\[\]])
""", re.X | re.S)


class T:
    """Type reference: name, template args, type args (expressions), dynamic length expression, bit width."""

    def __init__(self, name, targs=(), args=None, dyn=None, width=None):
        self.name, self.targs, self.args, self.dyn, self.width = name, list(targs), args, dyn, width

    def __repr__(self):
        return "T(%s%s)" % (self.name, self.targs or "")


class Node:
    def __init__(self, **k):
        self.__dict__.update(k)

    def __repr__(self):
        return "Node(%s)" % self.__dict__


class Parser:
    BUILTIN = {"bool", "string", "extern", "bytes", "float16", "float32", "float64", "varsize", "varint", "varint16", "varint32",
               "varint64", "varuint", "varuint16", "varuint32", "varuint64", "int8", "int16", "int32", "int64", "uint8",
               "uint16", "uint32", "uint64", "bit", "int"}

    def __init__(self, text):
        self.toks = []
        pos = 0
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise SyntaxError("schema: %r" % text[pos:pos + 30])
            pos = m.end()
            if m.lastgroup != "ws":
                self.toks.append((m.lastgroup, m.group()))
        self.toks.append(("eof", ""))
        self.i = 0

    def peek(self, k=0):
        return self.toks[min(self.i + k, len(self.toks) - 1)][1]

    def kind(self):
        return self.toks[self.i][0]

    def next(self):
        t = self.toks[self.i][1]
        self.i += 1
        return t

    def accept(self, *ts):
        if self.kind() != "str" and self.peek() in ts:
            return self.next()
        return None

    def expect(self, t):
        if self.peek() != t:
            raise SyntaxError("expected %r, got %r at token %d" % (t, self.peek(), self.i))
        return self.next()

    # --- declarations

    def package(self):
        decls, imports, name = [], [], ""
        while self.kind() != "eof":
            if self.accept("package"):
                name = self.dotted()
                self.expect(";")
            elif self.accept("import"):
                parts = [self.next()]
                while self.accept("."):
                    parts.append(self.next())
                imports.append(parts)
                self.expect(";")
            elif self.accept("const"):
                ty = self.type()
                n = self.next()
                self.expect("=")
                decls.append(Node(k="const", name=n, type=ty, value=self.expr()))
                self.expect(";")
            elif self.accept("subtype"):
                ty = self.type()
                decls.append(Node(k="subtype", type=ty, name=self.next()))
                self.expect(";")
            elif self.peek() in ("enum", "bitmask"):
                k = self.next()
                ty = self.type()
                n = self.next()
                self.expect("{")
                items = []
                while self.peek() != "}":
                    self.accept("@deprecated", "deprecated", "@removed", "removed")
                    item = self.next()
                    v = self.expr() if self.accept("=") else None
                    items.append((item, v))
                    if not self.accept(","):
                        break
                self.expect("}")
                self.expect(";")
                decls.append(Node(k=k, name=n, type=ty, items=items))
            elif self.peek() in ("struct", "union", "choice"):
                decls.append(self.compound(self.next()))
            elif self.accept("instantiate"):
                ty = self.type()
                decls.append(Node(k="subtype", type=ty, name=self.next(), inst=True))
                self.expect(";")
            else:
                raise SyntaxError("declaration: %r" % self.peek())
        return Node(name=name, decls=decls, imports=imports)

    def dotted(self):
        r = self.next()
        while self.accept("."):
            r += "." + self.next()
        return r

    def compound(self, k):
        n = self.next()
        tparams, params = [], []
        if self.accept("<"):
            while not self.accept(">"):
                tparams.append(self.next())
                self.accept(",")
        if self.accept("("):
            while not self.accept(")"):
                ty = self.type()
                params.append((self.next(), ty))
                self.accept(",")
        sel = self.expr() if k == "choice" and self.accept("on") else None
        self.expect("{")
        fields, funcs, cases = [], {}, []
        while not self.accept("}"):
            if self.accept("function"):
                ty = self.type()
                f = self.next()
                self.expect("(")
                self.expect(")")
                self.expect("{")
                self.expect("return")
                funcs[f] = (ty, self.expr())
                self.expect(";")
                self.expect("}")
            elif k == "choice":
                labels = []
                while self.peek() in ("case", "default"):
                    if self.next() == "case":
                        labels.append(self.expr())
                    else:
                        labels.append(None)
                    self.expect(":")
                f = None if self.peek() == ";" else self.field(k)
                self.expect(";")
                if f is not None:
                    fields.append(f)
                cases.append((labels, f))
            else:
                fields.append(self.field(k))
                self.expect(";")
        self.expect(";")
        return Node(k=k, name=n, tparams=tparams, params=params, sel=sel, fields=fields, funcs=funcs, cases=cases)

    def field(self, k):
        f = Node(align=None, offset=None, extend=False, optional=False, packed=False, implicit=False, init=None, cond=None,
                 constraint=None, array=None)
        if k == "struct":
            if self.peek() == "align" and self.peek(1) == "(":
                self.next()
                self.next()
                f.align = self.expr()
                self.expect(")")
                self.expect(":")
            if self._offset_ahead():
                f.offset = self.expr()
                self.expect(":")
            f.extend = bool(self.accept("extend"))
            f.optional = bool(self.accept("optional"))
        f.packed = bool(self.accept("packed"))
        f.implicit = bool(self.accept("implicit"))
        f.type = self.type(inst=True)
        f.name = self.next()
        if self.accept("["):
            f.array = ("auto",) if self.peek() == "]" else ("len", self.expr())
            self.expect("]")
            if f.implicit:
                f.array = ("implicit",)
        if k == "struct":
            if self.accept("="):
                f.init = self.expr()
            if self.accept("if"):
                f.cond = self.expr()
        if self.accept(":"):
            f.constraint = self.expr()
        return f

    def _offset_ahead(self):
        j, depth = self.i, 0
        if self.toks[j][0] != "id":
            return False
        j += 1
        while True:
            t = self.toks[j][1]
            if t == ".":
                j += 2
            elif t == "[":
                while self.toks[j][1] != "]":
                    j += 1
                j += 1
            else:
                break
        # `bit:3 x` also starts with an identifier and a colon
        return self.toks[j][1] == ":" and self.toks[self.i][1] not in ("bit", "int")

    def type(self, inst=False):
        n = self.next()
        if n in ("bit", "int"):
            if self.accept(":"):
                return T(n, width=int(self.next()))
            if self.accept("<"):
                e = self.expr(nogt=True)
                self.expect(">")
                return T(n, dyn=e)
            return T(n)
        while n not in self.BUILTIN and self.peek() == ".":
            self.next()
            n = self.next()        # packages are flattened: type names of a corpus are unique
        targs = []
        if n not in self.BUILTIN and self.peek() == "<":
            self.next()
            while not self.accept(">"):
                targs.append(self.type())
                self.accept(",")
        args = None
        if inst and self.peek() == "(":
            self.next()
            args = []
            while not self.accept(")"):
                args.append(self.expr())
                self.accept(",")
        return T(n, targs, args)

    # --- expressions: nested tuples

    LEVELS = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", "<=", ">", ">="), ("<<", ">>"), ("+", "-"),
              ("*", "/", "%")]

    def expr(self, nogt=False):
        c = self.binary(0, nogt)
        if self.accept("?"):
            a = self.expr(nogt)
            self.expect(":")
            b = self.expr(nogt)
            return ("?", c, a, b)
        return c

    def binary(self, lv, nogt):
        if lv == len(self.LEVELS):
            return self.unary(nogt)
        a = self.binary(lv + 1, nogt)
        while True:
            op = None
            if self.kind() == "op":
                if "<<" in self.LEVELS[lv] and self.peek() == ">" and self.peek(1) == ">" and not nogt:
                    self.next()
                    self.next()
                    op = ">>"
                elif "<<" in self.LEVELS[lv] and self.peek() == "<<":
                    op = self.next()
                elif "<" in self.LEVELS[lv] and nogt and self.peek() == ">":
                    op = None
                elif self.peek() in self.LEVELS[lv]:
                    op = self.next()
            if op is None:
                return a
            a = ("bin", op, a, self.binary(lv + 1, nogt))

    def unary(self, nogt):
        if self.kind() == "op" and self.peek() in ("+", "-", "!", "~"):
            op = self.next()
            return ("un", op, self.unary(nogt))
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.accept("."):
                e = ("dot", e, self.next())
            elif self.accept("["):
                e = ("at", e, self.expr())
                self.expect("]")
            elif self.peek() == "(" and e[0] in ("id", "dot"):
                self.next()
                self.expect(")")
                e = ("call", e)
            else:
                return e

    def primary(self):
        k = self.kind()
        if k == "idx":
            self.next()
            return ("index",)
        if k == "num":
            t = self.next()
            if re.fullmatch(r"[01]+[bB]", t):
                return ("lit", int(t[:-1], 2))
            if t[:2] in ("0x", "0X"):
                return ("lit", int(t, 16))
            if "." in t or "e" in t or t.endswith("f"):
                return ("lit", float(t.rstrip("f")))
            if len(t) > 1 and t[0] == "0":
                return ("lit", int(t, 8))
            return ("lit", int(t))
        if k == "str":
            return ("lit", self.next()[1:-1].encode().decode("unicode_escape"))
        if self.accept("("):
            e = self.expr()
            self.expect(")")
            return e
        n = self.next()
        if n in ("lengthof", "valueof", "numbits") and self.peek() == "(":
            self.next()
            e = self.expr()
            self.expect(")")
            return (n, e)
        if n == "isset" and self.peek() == "(":
            self.next()
            a = self.expr()
            self.expect(",")
            b = self.expr()
            self.expect(")")
            return ("isset", a, b)
        if n in ("true", "false"):
            return ("lit", n == "true")
        return ("id", n)


class EnumV:
    """A value of an enumeration or bitmask type in the reference semantics."""

    def __init__(self, decl, value):
        self.decl, self.value = decl, value


class Schema:
    def __init__(self, texts):
        self.decls = {}
        self.pkg_of = {}
        for t in texts:
            p = Parser(t).package()
            for d in p.decls:
                if d.name in self.decls:
                    raise SyntaxError("duplicate name in corpus: " + d.name)
                self.decls[d.name] = d
                self.pkg_of[d.name] = p.name
        self._values = {}
        self.consts = {}

    # --- types

    def resolve(self, t, env=()):
        """Follows subtypes and template parameters; returns a T whose name is builtin or a declared type."""
        env = dict(env)
        while True:
            if t.name in env:
                r = env[t.name]
                # template arguments are resolved in the instantiating scope
                t = T(r.name, r.targs, t.args if t.args is not None else r.args, r.dyn, r.width)
                env = {}
                continue
            d = self.decls.get(t.name)
            if d is not None and d.k == "subtype":
                t = T(d.type.name, d.type.targs, t.args, d.type.dyn, d.type.width)
                continue
            if t.targs and env:
                t = T(t.name, [self.resolve_deep(x, env) for x in t.targs], t.args, t.dyn, t.width)
            return t

    def resolve_deep(self, t, env):
        r = self.resolve(t, env) if t.name in dict(env) else t
        if r.targs:
            r = T(r.name, [self.resolve_deep(x, env) for x in r.targs], r.args, r.dyn, r.width)
        return r

    def decl(self, t):
        return self.decls.get(t.name)

    def tenv(self, t):
        d = self.decl(t)
        return {} if d is None or not getattr(d, "tparams", None) else dict(zip(d.tparams, t.targs))

    def items(self, d):
        """[(name, value)] of an enum or bitmask."""
        if d.name not in self._values:
            res, prev = [], None
            for n, e in d.items:
                if e is not None:
                    v = Scope(self, None, None, {}, {}).eval(e)
                elif d.k == "enum":
                    v = 0 if prev is None else prev + 1
                else:
                    v = 1 if prev is None else (1 if prev == 0 else 1 << prev.bit_length())
                res.append((n, v))
                prev = v
            self._values[d.name] = res
        return self._values[d.name]

    def const(self, name):
        if name not in self.consts:
            self.consts[name] = Scope(self, None, None, {}, {}).eval(self.decls[name].value)
        return self.consts[name]

    @staticmethod
    def int_kind(t):
        """('u'|'s', bits) for fixed width integers, ('var', kind) for variable length, else None."""
        m = re.fullmatch(r"(u?)int(8|16|32|64)", t.name)
        if m:
            return ("u" if m.group(1) else "s", int(m.group(2)))
        if t.name in ("bit", "int"):
            return ("u" if t.name == "bit" else "s", t.width)
        if t.name.startswith("var"):
            return ("var", t.name)
        return None


VAR_RANGE = {
    "varint16": (-(1 << 14) + 1, (1 << 14) - 1), "varint32": (-(1 << 28) + 1, (1 << 28) - 1),
    "varint64": (-(1 << 56) + 1, (1 << 56) - 1), "varint": (-(1 << 63), (1 << 63) - 1),
    "varuint16": (0, (1 << 15) - 1), "varuint32": (0, (1 << 29) - 1), "varuint64": (0, (1 << 57) - 1),
    "varuint": (0, (1 << 64) - 1), "varsize": (0, (1 << 31) - 1),
}


class Scope:
    """Evaluation of expressions in the scope of one object (read through its public properties)."""

    def __init__(self, schema, decl, obj, params, env, index=None, api=None):
        self.s, self.decl, self.obj, self.params, self.env, self.index = schema, decl, obj, params, env, index
        self.api = api

    def value_of(self, x):
        return x.value if isinstance(x, EnumV) else x

    def wrap(self, v, t):
        d = self.s.decl(self.s.resolve(t, self.env))
        if d is not None and d.k in ("enum", "bitmask") and not isinstance(v, EnumV):
            return EnumV(d, v.value)
        return v

    def eval(self, e):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "index":
            return self.index
        if k == "id":
            return self.ident(e[1])
        if k == "dot":
            if e[1][0] == "id":
                d = self.s.decls.get(e[1][1])
                if d is not None and d.k == "subtype":
                    d = self.s.decl(self.s.resolve(d.type))
                if d is not None and d.k in ("enum", "bitmask"):
                    return EnumV(d, dict(self.s.items(d))[e[2]])
            o, t = self.typed(e[1])
            return self.member(o, t, e[2])
        if k == "at":
            o, _ = self.typed(e[1])
            return element(o, self.eval(e[2]))
        if k == "call":
            f = e[1]
            if f[0] == "id":
                return self.eval(self.decl.funcs[f[1]][1])
            o, t = self.typed(f[1])
            rt = self.s.resolve(t, self.env)
            d = self.s.decl(rt)
            sub = Scope(self.s, d, o, self.api.params_of(o, d, self.s), self.s.tenv(rt), None, self.api)
            return sub.eval(d.funcs[f[2]][1])
        if k == "lengthof":
            return len(self.typed(e[1])[0])
        if k == "valueof":
            return self.eval(e[1]).value
        if k == "numbits":
            return self.api.numbits(self.eval(e[1]))
        if k == "isset":
            a, b = self.eval(e[1]).value, self.eval(e[2]).value
            return (a & b) == b
        if k == "?":
            return self.eval(e[2]) if self.eval(e[1]) else self.eval(e[3])
        if k == "un":
            v = self.eval(e[2])
            if e[1] == "!":
                return not v
            if e[1] == "~" and isinstance(v, EnumV):
                return EnumV(v.decl, self.mask_all(v.decl) & ~v.value)
            return {"-": lambda: -v, "+": lambda: v, "~": lambda: ~v}[e[1]]()
        op = e[1]
        if op == "&&":
            return bool(self.eval(e[2])) and bool(self.eval(e[3]))
        if op == "||":
            return bool(self.eval(e[2])) or bool(self.eval(e[3]))
        a, b = self.eval(e[2]), self.eval(e[3])
        en = a.decl if isinstance(a, EnumV) else None
        a, b = self.value_of(a), self.value_of(b)
        r = {
            "+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b,
            "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "==": lambda: a == b, "!=": lambda: a != b,
            "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
            "/": lambda: trunc_div(a, b), "%": lambda: a - trunc_div(a, b) * b,
        }[op]()
        return EnumV(en, r) if en is not None and op in "&|^" else r

    def mask_all(self, d):
        """~ of a bitmask stays within the bitmask type."""
        return limits(self.s.int_kind(self.s.resolve(d.type)))[1]

    def ident(self, n):
        return self.typed(("id", n))[0]

    def typed(self, e):
        """(value, declared type) of an identifier or member path."""
        if e[0] == "id":
            n = e[1]
            if self.decl is not None:
                for f in getattr(self.decl, "fields", ()):
                    if f.name == n:
                        return self.wrap(self.api.get(self.obj, n), f.type) if not f.array else self.api.get(self.obj, n), f.type
                for pn, pt in getattr(self.decl, "params", ()):
                    if pn == n:
                        return self.wrap(self.params[n], pt), pt
                for nm, _ in (self.s.items(self.decl) if self.decl.k in ("enum", "bitmask") else ()):
                    if nm == n:
                        return dict(self.s.items(self.decl))[n], None
            d = self.s.decls.get(n)
            if d is not None and d.k == "const":
                return self.wrap_const(d), d.type
            raise NameError(n)
        if e[0] == "dot":
            o, t = self.typed(e[1])
            rt = self.s.resolve(t, self.env)
            d = self.s.decl(rt)
            for f in d.fields:
                if f.name == e[2]:
                    sub = Scope(self.s, d, o, {}, self.s.tenv(rt), None, self.api)
                    v = self.api.get(o, e[2])
                    return (sub.wrap(v, f.type) if not f.array else v), f.type
            for pn, pt in d.params:
                if pn == e[2]:
                    return self.wrap(self.api.params_of(o, d, self.s)[pn], pt), pt
            raise NameError(e[2])
        if e[0] == "at":
            o, t = self.typed(e[1])
            v = element(o, self.eval(e[2]))
            return self.wrap(v, t), t
        return self.eval(e), None

    def wrap_const(self, d):
        v = self.s.const(d.name)
        return v

    def member(self, o, t, name):
        return self._member(o, t, name)

    def _member(self, o, t, name):
        rt = self.s.resolve(t, self.env)
        d = self.s.decl(rt)
        for f in d.fields:
            if f.name == name:
                v = self.api.get(o, name)
                return v if f.array else Scope(self.s, d, o, {}, self.s.tenv(rt), None, self.api).wrap(v, f.type)
        return self.wrap(self.api.params_of(o, d, self.s)[name], dict(d.params)[name])


def limits(ik, width=None):
    """Smallest and largest value of an integer type."""
    if ik[0] == "var":
        return VAR_RANGE[ik[1]]
    n = ik[1] if width is None else width
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if ik[0] == "s" else (0, (1 << n) - 1)


def element(array, i):
    if not 0 <= i < len(array):
        raise Invalid("index")
    return array[i]


def trunc_div(a, b):
    """Java's integer division (rounds towards zero)."""
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


class Invalid(Exception):
    """The object may not be written: the reference layout does not exist."""
