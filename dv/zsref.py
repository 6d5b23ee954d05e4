"""Ghost bit streams and the reference layout of schema objects.

A ghost stream is a list of items; each item stands for the bits one runtime operation stores (its bit-level content
is the subject of P01-P05 and P10, not repeated here).  Item sizes that depend on values are the functions the
runtime predicts them with (an uninterpreted function per kind of item: the size contract proved in P02, P04, P10)."""
import re

import z3

from dv.core import LInt, SBool, SInt, And, Not, Or, cur, eq, is_sym, zint
from dv.zs import VAR_RANGE, EnumV, Invalid, Scope, limits


class GVal:
    """An arbitrary string, byte array, bit buffer or float: only its identity is observable."""
    __slots__ = ("kind", "t", "_cls")

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def __eq__(self, o):
        if type(o) is GVal:
            if o.kind != self.kind:
                return False
            return True if o.t is self.t or o.t.eq(self.t) else SBool(self.t == o.t)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if type(r) is SBool else not r

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return "<%s>" % self.kind


_KEEP = {}


def key(x):
    """Key of a value: equal keys mean syntactically equal terms."""
    ty = type(x)
    if ty is SBool:
        return (1 if x.t is True else 0) if type(x.t) is bool else _tk(x.t)
    if ty is SInt:
        return _tk(z3.simplify(x.t)), x.t.size()
    if ty is LInt:
        return _tk(z3.simplify(x.z()))
    if ty is GVal:
        return x.kind, _tk(x.t)
    if ty is bool:
        return int(x)
    return x


def _tk(t):
    i = t.get_id()
    _KEEP[i] = t
    return ("z", i)


def size_of(kind, *vals):
    """The size function of one kind of item, as a symbolic integer (memoised on the arguments)."""
    e = cur()
    memo = e.__dict__.setdefault("_dv_sizes", {})
    if memo.get("run") is not e.inputs:
        memo.clear()
        memo["run"] = e.inputs
    k = (kind,) + tuple(key(v) for v in vals)
    if k not in memo:
        if kind in VAR_RANGE and type(vals[0]) is int:
            memo[k] = concrete_var_size(kind, vals[0])
        else:
            s = e.int("size", 0, register=False)
            if kind == "delta":
                memo[k] = s
            else:
                s = s + 1
                memo[k] = s * 8
                # keep positions inside the range offsets can hold
            e.assume(s <= 1 << 20)
    return memo[k]


def concrete_var_size(kind, v):
    from dv import spec
    return 8 * spec.var_length(kind, v)


def same(a, b):
    """Condition under which two field values are equal."""
    if a is b:
        return True
    if isinstance(a, EnumV):
        a = a.value
    if isinstance(b, EnumV):
        b = b.value
    if type(a) is GVal or type(b) is GVal:
        return a == b
    if is_sym(a) or is_sym(b):
        r = eq(a, b)
        return SBool(r) if z3.is_expr(r) else r
    return a == b


class Item:
    __slots__ = ("kind", "args", "pos", "size")

    def __init__(self, kind, args, pos, size):
        self.kind, self.args, self.pos, self.size = kind, args, pos, size

    def __repr__(self):
        return "%s%r" % (self.kind, self.args)


class Stream:
    """Appends items; the same methods serve the reference and (through GhostWriter) the code under test."""

    def __init__(self, pos):
        self.items, self.pos, self.start = [], pos, pos

    @staticmethod
    def fresh(pos):
        return Stream(pos)

    def put(self, kind, args, size):
        self.items.append(Item(kind, args, self.pos, size))
        self.pos = self.pos + size

    def u(self, n, v):
        self.put("u", (n, v), n)

    def s(self, n, v):
        self.put("s", (n, v), n)

    def boolean(self, v):
        self.put("bool", (v,), 1)

    def var(self, kind, v):
        self.put(kind, (v,), size_of(kind, v))

    def blob(self, kind, v):
        self.put(kind, (v,), size_of(kind, v))

    def flt(self, n, v):
        self.put("f%d" % n, (v,), n)

    def align(self, n):
        to = align_up(n, self.pos)
        d = to - self.pos
        if type(d) is int and d == 0:
            self.pos = to
            return
        self.items.append(Item("pad", (), self.pos, d))
        self.pos = to

    def delta(self, inits, idx, op):
        self.put("delta", (inits, idx, op), size_of("delta", idx, *[y for o in inits for y in (o.kind,) + o.args]))


def align_up(n, pos):
    """Smallest multiple of n not below pos (contract of alignto, proved in P06)."""
    if type(pos) is int:
        return -(-pos // n) * n
    e = cur()
    memo = e.__dict__.setdefault("_dv_aligns", {})
    if memo.get("run") is not e.inputs:
        memo.clear()
        memo["run"] = e.inputs
    k = (n, key(pos))
    if k not in memo:
        q = e.int("aligned", 0, register=False)
        e.assume(And(q * n >= pos, q * n < pos + n))
        memo[k] = q * n
    return memo[k]


# --- reference layout


class Leaf:
    def __init__(self):
        self.inits, self.idx = [], 0


class Tree:
    def __init__(self):
        self.leaf, self.kids = Leaf(), {}

    def kid(self, n):
        return self.kids.setdefault(n, Tree())


class Api:
    """Access to generated objects through their public properties."""

    @staticmethod
    def snake(n):
        n = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", n)
        return n.lower()

    def get(self, obj, name):
        return getattr(obj, self.snake(name))

    def params_of(self, obj, decl, schema):
        return {n: getattr(obj, self.snake(n)) for n, _ in decl.params}

    def numbits(self, v):
        """Bits needed to distinguish v values (numbits in the language overview); 0 for v = 0 as in the runtimes."""
        from dv.pyharness import ns
        return ns().builtin.numbits(v)


class Layout:
    def __init__(self, schema, stream, api, ext=None):
        """ext: number of extended fields present in the outermost object (all when None)."""
        self.s, self.out, self.api, self.ext = schema, stream, api, ext
        self.invalid = []            # reasons why the object must not be written
        self.offset_fields = offset_fields(schema)
        self.new = Stream if stream is None else stream.fresh
        self.wide = ()               # identities of integers that may lie outside their type

    # ---- which types can be packed

    def packable(self, t, env, seen=()):
        t = self.s.resolve(t, env)
        if self.s.int_kind(t):
            return True
        d = self.s.decl(t)
        if d is None:
            return False
        if d.k in ("enum", "bitmask", "union"):
            return True
        if d.name in seen:
            return False
        tenv = self.s.tenv(t)
        for f in d.fields:
            if (d.name, f.name) in self.offset_fields:
                continue
            if f.array and f.array[0] == "implicit":
                continue
            if self.packable(f.type, tenv, seen + (d.name,)):
                return True
        return False

    # ---- plain

    def value(self, t, v, scope):
        rt = self.s.resolve(t, scope.env)
        ik = self.s.int_kind(rt)
        o = self.out
        if ik:
            if id(v) in self.wide:
                lo, hi = limits(ik, scope.eval(rt.dyn) if ik[0] != "var" and ik[1] is None else None)
                if not (v >= lo and v <= hi):
                    raise Invalid("range")
            if ik[0] == "var":
                o.var(ik[1], v)
            else:
                n = ik[1] if ik[1] is not None else scope.eval(rt.dyn)
                (o.u if ik[0] == "u" else o.s)(n, v)
            return
        if rt.name == "bool":
            o.boolean(v)
        elif rt.name in ("string", "bytes", "extern"):
            o.blob(rt.name, v)
        elif rt.name.startswith("float"):
            o.flt(int(rt.name[5:]), v)
        else:
            d = self.s.decl(rt)
            if d.k in ("enum", "bitmask"):
                self.value(d.type, v.value, scope)
            else:
                self.compound(rt, v, self.args(rt, d, v, scope), None)

    def args(self, rt, d, obj, scope):
        """Parameter values the instantiating scope passes; the object must have been created with the same."""
        res = {}
        for (n, pt), a in zip(d.params, rt.args or ()):
            res[n] = scope.eval(a)
            have = self.api.get(obj, n)
            if isinstance(res[n], EnumV):
                res[n] = res[n].value
                ok = same(have.value, res[n])
                res[n] = have
            elif hasattr(res[n], "bitsizeof"):
                ok = have is res[n] or have == res[n]
            else:
                ok = same(have, res[n])
            if not ok:
                if scope.index is None:
                    raise Invalid("parameter")
                res[n] = have            # elements of arrays keep the parameters they were created with
        return res

    def compound(self, rt, obj, params, ctx):
        d = self.s.decl(rt)
        env = self.s.tenv(rt)
        sc = Scope(self.s, d, obj, params, env, None, self.api)
        if d.k == "struct":
            ext, self.ext = self.ext, None
            for f in d.fields:
                if f.extend and ext is not None:
                    if ext == 0:
                        break
                    ext -= 1
                self.struct_field(d, f, obj, sc, ctx)
        elif d.k == "union":
            tag = obj.choice_tag
            if not 0 <= tag < len(d.fields):
                raise Invalid("union tag")
            if ctx is None:
                self.out.var("varsize", tag)
            else:
                self.leaf_out(ctx.kid("#tag").leaf, "varsize", tag)
            self.plain_field(d, d.fields[tag], obj, sc, ctx)
        else:
            f = self.chosen(d, sc)
            if f is not None:
                self.plain_field(d, f, obj, sc, ctx)

    def chosen(self, d, sc):
        sel = sc.eval(d.sel)
        default = ("none",)
        for labels, f in d.cases:
            for lab in labels:
                if lab is None:
                    default = (f,)
                    continue
                if isinstance(sel, EnumV) and lab[0] == "id":
                    lv = dict(self.s.items(sel.decl))[lab[1]]
                else:
                    lv = sc.eval(lab)
                    lv = lv.value if isinstance(lv, EnumV) else lv
                if same(sel.value if isinstance(sel, EnumV) else sel, lv):
                    return f
        if default == ("none",):
            raise Invalid("no choice case")
        return default[0]

    def present(self, f, obj, sc):
        if f.optional:
            return self.api.get(obj, f.name) is not None
        if f.cond is not None:
            return bool(sc.eval(f.cond))
        return True

    def struct_field(self, d, f, obj, sc, ctx):
        if f.extend:
            self.out.align(8)
        if f.optional:
            self.out.boolean(self.present(f, obj, sc))
        if not self.present(f, obj, sc):
            return
        if f.align is not None:
            self.out.align(sc.eval(f.align))
        indexed = None
        if f.offset is not None:
            if f.offset[0] == "at":
                indexed = f.offset
            else:
                self.out.align(8)
                if not same(sc.eval(f.offset) * 8, self.out.pos):
                    self.invalid.append("offset")
        self.plain_field(d, f, obj, sc, ctx, indexed)

    def plain_field(self, d, f, obj, sc, ctx, indexed=None):
        v = self.api.get(obj, f.name)
        if v is None:
            raise Invalid("%s is not set" % f.name)
        if f.constraint is not None and not sc.eval(f.constraint):
            self.invalid.append("constraint")
        if f.array is not None:
            pk = self.packable(f.type, sc.env) and (d.name, f.name) not in self.offset_fields and f.array[0] != "implicit"
            self.array(f, v, sc, pk and (f.packed or ctx is not None), indexed)
        elif ctx is not None and (d.name, f.name) not in self.offset_fields and self.packable(f.type, sc.env):
            self.packed_value(f.type, v, sc, ctx.kid(f.name))
        else:
            self.value(f.type, v, sc)

    def array(self, f, v, sc, packed, indexed):
        n = len(v)
        if f.array[0] == "auto":
            self.out.var("varsize", n)
        elif f.array[0] == "len":
            if not same(sc.eval(f.array[1]), n):
                self.invalid.append("array length")
        ctx = None
        scopes = [Scope(self.s, sc.decl, sc.obj, sc.params, sc.env, i, self.api) for i in range(n)]
        if packed:
            ctx = Tree()
            for i in range(n):
                self.init_value(f.type, v[i], scopes[i], ctx)
        for i in range(n):
            if indexed is not None:
                self.out.align(8)
                offs, _ = sc.typed(indexed[1])
                if i >= len(offs):
                    raise Invalid("no offset for element %d of %s" % (i, f.name))
                if not same(offs[i] * 8, self.out.pos):
                    self.invalid.append("offset")
            if packed:
                self.packed_value(f.type, v[i], scopes[i], ctx)
            else:
                self.value(f.type, v[i], scopes[i])

    # ---- packed

    def plain_item(self, t, v, scope):
        keep = self.out
        self.out = self.new(0)
        try:
            self.value(t, v, scope)
            return self.out.items[0]
        finally:
            self.out = keep

    def leaf_out(self, leaf, kind, v):
        s = self.new(0)
        s.var(kind, v)
        self.delta(leaf, s.items[0])

    def delta(self, leaf, item):
        self.out.delta(leaf.inits, leaf.idx, item)
        leaf.idx += 1

    def init_value(self, t, v, scope, ctx):
        rt = self.s.resolve(t, scope.env)
        d = self.s.decl(rt)
        if self.s.int_kind(rt) or d.k in ("enum", "bitmask"):
            ctx.leaf.inits.append(self.plain_item(t, v, scope))
            return
        params = self.args(rt, d, v, scope)
        sc = Scope(self.s, d, v, params, self.s.tenv(rt), None, self.api)
        if d.k == "struct":
            fs = [f for f in d.fields if self.present(f, v, sc)]
        elif d.k == "union":
            s = self.new(0)
            s.var("varsize", v.choice_tag)
            ctx.kid("#tag").leaf.inits.append(s.items[0])
            fs = [d.fields[v.choice_tag]]
        else:
            f = self.chosen(d, sc)
            fs = [] if f is None else [f]
        for f in fs:
            if f.array is None and (d.name, f.name) not in self.offset_fields and self.packable(f.type, sc.env):
                self.init_value(f.type, self.api.get(v, f.name), sc, ctx.kid(f.name))

    def packed_value(self, t, v, scope, ctx):
        rt = self.s.resolve(t, scope.env)
        d = self.s.decl(rt)
        if self.s.int_kind(rt) or d.k in ("enum", "bitmask"):
            self.delta(ctx.leaf, self.plain_item(t, v, scope))
        else:
            self.compound(rt, v, self.args(rt, d, v, scope), ctx)


def offset_fields(schema):
    """(type, field) of every field that some offset expression names."""
    res = getattr(schema, "_offset_fields", None)
    if res is not None:
        return res
    res = set()

    def walk(d, e, env):
        """type of the path e in d; returns (decl, field)"""
        if e[0] == "at":
            return walk(d, e[1], env)
        if e[0] == "id":
            for f in d.fields:
                if f.name == e[1]:
                    return d, f, env
            for n, pt in d.params:
                if n == e[1]:
                    return d, type("P", (), {"type": pt, "name": n}), env
        if e[0] == "dot":
            d2, f, env2 = walk(d, e[1], env)
            rt = schema.resolve(f.type, env2)
            return walk(schema.decl(rt), ("id", e[2]), schema.tenv(rt))
        raise NameError(str(e))
    for d in schema.decls.values():
        if d.k == "struct":
            for f in d.fields:
                if f.offset is not None:
                    d2, f2, _ = walk(d, f.offset, {})
                    res.add((d2.name, f2.name))
    schema._offset_fields = res
    return res
