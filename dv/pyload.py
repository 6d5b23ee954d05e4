"""Loads the real Python modules of /repo and makes a few builtins visible to them aware of symbolic values.

Nothing of the source is dropped.  The *names* int, len, range, bytes, bytearray, isinstance and so on are placed in each module's globals
(shadowing builtins); on ordinary values they behave exactly like the builtins.  `while` loops and comprehensions are
rewritten mechanically when a module is loaded (see _Transform)."""
import ast
import builtins
import importlib
import importlib.machinery
import os
import sys
import types

from dv.core import SInt, LInt, SBool, cur, Unsupported, zint, is_sym, lift, from_ubits, sint, ubits
from dv.rope import SSeq, SBytes, SByteArray, SList, as_segs, Con, norm, Abs
from dv.loops import SRange, SIter
from dv import comps
import z3

REPO = os.environ.get("DV_REPO", "/repo")
PYRT = os.path.join(REPO, "compiler/extensions/python/runtime/src")


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.int)


class dv_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a, **k):
        if type(x) in (SInt, LInt):
            return x
        if type(x) is SBool:
            return x.as_int()
        if hasattr(x, "_dv_int"):
            return x._dv_int(*a, **k)
        return builtins.int(x, *a, **k)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if not isinstance(b, SSeq):
            b2 = builtins.list(b)
            if not any(is_sym(x) for x in b2):
                return builtins.int.from_bytes(b, byteorder=byteorder, signed=signed)
            items = b2
        else:
            n = b.dv_len()
            if type(n) is not builtins.int:
                n = cur().concretize(zint(n))
            items = [b.at(i) for i in builtins.range(n)]
        if byteorder == "little":
            items = items[::-1]
        if not items:
            return 0
        parts = [ubits(x, 8) for x in items]
        t = parts[0] if builtins.len(parts) == 1 else z3.Concat(*parts)
        t = z3.simplify(t)
        n = t.size()
        if signed:
            return sint(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return from_ubits(t)

    to_bytes = builtins.int.to_bytes
    bit_length = builtins.int.bit_length


def dv_len(x):
    if isinstance(x, SSeq):
        return x.dv_len()
    if hasattr(type(x), "dv_len"):
        return x.dv_len()
    f = type(x).__dict__.get("__len__") if not isinstance(x, (list, tuple, dict, bytes, bytearray, str)) else None
    if f is not None:
        return f(x)
    return builtins.len(x)


def dv_range(*a):
    if any(is_sym(x) for x in a):
        if builtins.len(a) == 1:
            r = SRange(0, a[0])
        elif builtins.len(a) == 2:
            r = SRange(a[0], a[1])
        else:
            r = SRange(*a)
        return r
    return builtins.range(*a)


class _Meta2(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)


class dv_bytes(metaclass=_Meta2):
    _real = builtins.bytes

    def __new__(cls, x=b"", *a, **k):
        if (a or k) and hasattr(x, "_dv_encode"):
            return x._dv_encode(*a, **k)
        if isinstance(x, SSeq):
            return SBytes(x.segs)
        if type(x) in (SInt, LInt):
            return SBytes([Abs(lambda i: 0, x)])
        if builtins.isinstance(x, (list, tuple)) and any(is_sym(v) for v in x):
            return SBytes.concrete(list(x))
        if hasattr(x, "_dv_encode"):
            return x._dv_encode(*a, **k)
        return builtins.bytes(x, *a, **k)

    fromhex = builtins.bytes.fromhex
    join = builtins.bytes.join


class dv_bytearray(metaclass=_Meta2):
    _real = builtins.bytearray

    def __new__(cls, x=b"", *a, **k):
        if (a or k) and hasattr(x, "_dv_encode"):
            return SByteArray(as_segs(x._dv_encode(*a, **k)))
        if isinstance(x, SSeq):
            return SByteArray(x.segs)
        if type(x) in (SInt, LInt):
            if x < 0:
                raise ValueError("negative count")
            return SByteArray([Abs(lambda i: 0, x)])
        if hasattr(x, "_dv_encode"):
            return SByteArray(as_segs(x._dv_encode(*a, **k)))
        if builtins.isinstance(x, (list, tuple)) and any(is_sym(v) for v in x):
            return SByteArray.concrete(list(x))
        return SByteArray.concrete(list(builtins.bytearray(x, *a, **k)))


class dv_list(metaclass=_Meta2):
    _real = builtins.list

    def __new__(cls, x=()):
        if isinstance(x, SSeq):
            return SList(x.segs)
        return builtins.list(x)


def dv_enumerate(it, start=0):
    if isinstance(it, SSeq) and not it.is_concrete():
        return _SEnum(it, start)
    if isinstance(it, SRange):
        return _SEnum(it, start)
    return builtins.enumerate(it, start)


class _SEnum:
    def __init__(self, it, start):
        self.it, self.start = it, start

    def __iter__(self):
        s, it = self.start, self.it
        return SIter(it.dv_len(), lambda k: (s + k, it.at(k) if isinstance(it, SSeq) else it.start + k))


def dv_ord(x):
    if hasattr(x, "_dv_ord"):
        return x._dv_ord()
    return builtins.ord(x)


def dv_isinstance(x, t):
    if builtins.isinstance(t, tuple):
        return any(dv_isinstance(x, y) for y in t)
    r = getattr(t, "_real", None)
    if r is not None:
        t = r
    if t is dv_int:
        t = builtins.int
    return builtins.isinstance(x, t)


def dv_reversed(x):
    if isinstance(x, SSeq) and not x.is_concrete():
        raise Unsupported("reversed")
    return builtins.reversed(x if not isinstance(x, SSeq) else x.items())


class SFloat:
    """Abstract host float: only its IEEE images are observable."""
    __slots__ = ("b32", "b64")

    def __init__(self, b32=None, b64=None):
        self.b32, self.b64 = b32, b64

    @property
    def __class__(self):
        return float


class dv_struct:
    """struct.pack/unpack for the float formats, on abstract floats."""
    error = __import__("struct").error

    @staticmethod
    def pack(fmt, *vals):
        import struct
        if builtins.len(vals) == 1 and type(vals[0]) is SFloat:
            order, code = (fmt[0], fmt[1:]) if fmt[0] in "<>!=@" else ("@", fmt)
            v = vals[0].b32 if code == "f" else vals[0].b64 if code == "d" else None
            if v is None:
                raise Unsupported("struct.pack(%r) of abstract float" % fmt)
            n = 4 if code == "f" else 8
            bs = [from_ubits(z3.Extract(8 * i + 7, 8 * i, ubits(v, 8 * n))) for i in builtins.range(n)]
            if order in ">!":
                bs.reverse()
            return SBytes.concrete(bs)
        return struct.pack(fmt, *vals)

    @staticmethod
    def unpack(fmt, data):
        import struct
        if isinstance(data, SSeq):
            order, code = (fmt[0], fmt[1:]) if fmt[0] in "<>!=@" else ("@", fmt)
            n = {"f": 4, "d": 8}.get(code)
            if n is None:
                raise Unsupported("struct.unpack(%r)" % fmt)
            items = data.items()
            if builtins.len(items) != n:
                raise struct.error("unpack requires a buffer of %d bytes" % n)
            v = dv_int.from_bytes(items, byteorder="big" if order in ">!" else "little")
            return (SFloat(b32=v) if n == 4 else SFloat(b64=v),)
        return struct.unpack(fmt, data)

    calcsize = staticmethod(__import__("struct").calcsize)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class dv_float(metaclass=_FloatMeta):
    _real = builtins.float

    def __new__(cls, x=0.0):
        if hasattr(x, "_dv_float"):
            return x._dv_float()
        return builtins.float(x)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.str)

    def __eq__(cls, o):
        return o is cls or o is builtins.str

    def __hash__(cls):
        return hash(builtins.str)


class dv_str(metaclass=_StrMeta):
    _real = builtins.str

    def __new__(cls, x="", *a):
        from dv.text import SText, SChar
        if type(x) in (SText, SChar):
            return x
        if type(x) in (SInt, LInt) and not a:
            f = getattr(cur(), "int_printer", None)
            if f is not None:
                return f(x)
        return builtins.str(x, *a)


def dv_in(x, c):
    """x in c, with a character of abstract text and a literal string."""
    from dv.text import SText, SChar
    if type(x) is SChar and type(c) is str:
        return any(bool(x == ch) for ch in c)
    return x in c


class _Transform(ast.NodeTransformer):
    """Mechanical rewriting on load: `while C: B` becomes `for dv_loop in dv_while(): if not dv_loop.cond(C): break; B`;
    `[E for t in I if C]` becomes dv_listcomp(lambda t: E, I, lambda t: C) and generators given to sum, any, all, next, list,
    tuple, bytes, bytearray, extend and join likewise; in json.py `x in c` becomes dv_in(x, c).  On concrete values all of them do
    what the original does.  Nothing else changes."""

    EAGER = ("list", "tuple", "bytes", "bytearray", "sorted", "max", "min")

    def __init__(self, member):
        self.member, self.scopes = member, ["module"]

    def visit_ClassDef(self, n):
        self.scopes.append("class")
        self.generic_visit(n)
        self.scopes.pop()
        return n

    def visit_FunctionDef(self, n):
        self.scopes.append("function")
        self.generic_visit(n)
        self.scopes.pop()
        return n

    visit_Lambda = visit_FunctionDef

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        test = ast.Call(func=ast.Attribute(value=ast.Name(id="dv_loop", ctx=ast.Load()), attr="cond", ctx=ast.Load()), args=[n.test], keywords=[])
        brk = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[])
        endless = isinstance(n.test, ast.Constant) and n.test.value is True
        body = n.body if endless else [brk] + n.body
        return ast.fix_missing_locations(ast.copy_location(ast.For(
            target=ast.Name(id="dv_loop", ctx=ast.Store()), iter=ast.Call(func=ast.Name(id="dv_while", ctx=ast.Load()), args=[ast.Constant(value=endless)],
                                                                            keywords=[]),
            body=body, orelse=[]), n))

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.member and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=ast.Name(id="dv_in", ctx=ast.Load()), args=[n.left, n.comparators[0]], keywords=[])
            r = c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.fix_missing_locations(ast.copy_location(r, n))
        return n

    def _parts(self, n):
        """(lambda of the element, iterable, lambda of the conditions or None) of a comprehension, or None."""
        if len(n.generators) != 1 or n.generators[0].is_async or self.scopes[-1] != "function":
            return None
        g = n.generators[0]
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return None
        if isinstance(g.target, ast.Name):
            names, flat = [g.target.id], True
        elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            names, flat = [x.id for x in g.target.elts], False
        else:
            return None

        def lam(names, body):
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)

        def fn(body):
            if flat:
                return lam(names, body)
            return lam(["dv_item"], ast.Call(func=lam(names, body), args=[ast.Starred(value=ast.Name(id="dv_item", ctx=ast.Load()), ctx=ast.Load())],
                                             keywords=[]))
        cond = None
        if g.ifs:
            cond = fn(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs))
        return fn(n.elt), g.iter, cond or ast.Constant(value=None)

    def _call(self, name, args, n):
        return ast.fix_missing_locations(ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=args, keywords=[]), n))

    def visit_ListComp(self, n):
        self.generic_visit(n)
        p = self._parts(n)
        return self._call("dv_listcomp", list(p), n) if p else n

    def visit_Call(self, n):
        self.generic_visit(n)
        if not n.args or not isinstance(n.args[0], ast.GeneratorExp) or n.keywords:
            return n
        p = self._parts(n.args[0])
        f = n.func
        if not p:
            return n
        if isinstance(f, ast.Name):
            if f.id in ("any", "all") and len(n.args) == 1:
                return self._call("dv_%scomp" % f.id, list(p), n)
            if f.id in ("next", "sum") and len(n.args) <= 2:
                return self._call("dv_%scomp" % f.id, list(p) + n.args[1:], n)
            if f.id in self.EAGER and len(n.args) == 1:
                n.args[0] = self._call("dv_listcomp", list(p), n.args[0])
        elif isinstance(f, ast.Attribute) and f.attr in ("extend", "join") and len(n.args) == 1:
            n.args[0] = self._call("dv_listcomp", list(p), n.args[0])
        return n


MEMBER_TESTS = ("json",)


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles the module's source after the mechanical rewriting; no byte code is cached."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = _Transform(fullname.split(".")[-1] in MEMBER_TESTS).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(dv_while=comps.dv_while, dv_in=dv_in, dv_listcomp=comps.dv_listcomp, dv_sumcomp=comps.dv_sumcomp,
                               dv_anycomp=comps.dv_anycomp, dv_allcomp=comps.dv_allcomp, dv_nextcomp=comps.dv_nextcomp)
        importlib.machinery.SourceFileLoader.exec_module(self, module)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if not name.startswith("zserio."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and spec.origin and spec.origin.endswith(".py") and os.path.basename(os.path.dirname(spec.origin)) == "zserio":
            spec.loader = _Loader(name, spec.origin)
        return spec


SHIMS = {
    "int": dv_int, "len": dv_len, "range": dv_range, "bytes": dv_bytes, "bytearray": dv_bytearray,
    "enumerate": dv_enumerate, "ord": dv_ord, "isinstance": dv_isinstance, "sum": comps.dv_sum, "any": comps.dv_any, "all": comps.dv_all, "reversed": dv_reversed,
    "list": dv_list, "float": dv_float, "str": dv_str,
}

MODULES = ["exception", "limits", "cppbind", "float", "hashcode", "bitposition", "bitbuffer", "bitsizeof", "bitfield",
           "builtin", "bitreader", "bitwriter", "array", "enum", "typeinfo", "walker", "creator", "json",
           "serialization", "service", "debugstring"]


def load(shims=True, repo=None):
    """Fresh import of the runtime from /repo's working tree; returns namespace of modules."""
    os.environ["ZSERIO_PYTHON_IMPLEMENTATION"] = "python"
    path = PYRT if repo is None else os.path.join(repo, "compiler/extensions/python/runtime/src")
    for k in [k for k in sys.modules if k == "zserio" or k.startswith("zserio.")]:
        del sys.modules[k]
    sys.dont_write_bytecode = True
    sys.path.insert(0, path)
    if shims:
        sys.meta_path.insert(0, _Finder)
    try:
        pkg = importlib.import_module("zserio")
        ns = types.SimpleNamespace()
        for m in MODULES:
            mod = importlib.import_module("zserio." + m)
            assert mod.__file__.startswith(path), mod.__file__
            setattr(ns, m, mod)
            if shims:
                apply_shims(mod)
    finally:
        sys.path.remove(path)
        if shims:
            sys.meta_path.remove(_Finder)
    ns.pkg = pkg
    return ns


def apply_shims(mod):
    for name, v in SHIMS.items():
        if name in mod.__dict__ and not getattr(mod.__dict__[name], "__module__", "").startswith("dv."):
            # the module itself defines this name at top level: leave it
            continue
        mod.__dict__[name] = v
    if "struct" in mod.__dict__:
        mod.__dict__["struct"] = dv_struct
    if isinstance(mod.__dict__.get("functools"), types.ModuleType):
        mod.__dict__["functools"] = comps.dv_functools(mod.__dict__["functools"])


class patched:
    """Temporarily replaces a function wherever the loaded zserio modules refer to it, or an attribute of a class."""

    def __init__(self, ns, repl):
        self.ns, self.repl, self.undo = ns, repl, []

    def __enter__(self):
        for target, stub in self.repl.items():
            modname, attr = target.split(":")
            mod = getattr(self.ns, modname)
            if "." in attr:
                cls, a = attr.split(".")
                c = getattr(mod, cls)
                old = c.__dict__.get(a)
                if old is None:
                    raise Unsupported("contract target %s not found" % target)
                self.undo.append((c, a, old))
                setattr(c, a, stub)
            else:
                old = mod.__dict__.get(attr)
                if old is None:
                    raise Unsupported("contract target %s not found" % target)
                for m in vars(self.ns).values():
                    if isinstance(m, types.ModuleType):
                        for k, v in list(vars(m).items()):
                            if v is old:
                                self.undo.append((m, k, old))
                                setattr(m, k, stub)
        return self

    def __exit__(self, *a):
        for o, k, v in reversed(self.undo):
            setattr(o, k, v)
        return False
