"""P14  Walking an object tree: Walker, DepthWalkFilter, ArrayLengthWalkFilter, AndWalkFilter, DefaultWalkFilter."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.core import cur
from dv.pyload import patched, dv_range
from dv.rope import SList, Abs
from dv.loops import same_value

FUNCTIONS = ["Walker.walk", "Walker._walk_fields", "Walker._walk_field", "Walker._walk_field_value", "DefaultWalkFilter", "DepthWalkFilter",
             "ArrayLengthWalkFilter", "AndWalkFilter", "DefaultWalkObserver"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers and loop cutting", "z3",
           "objects under the walk are as the generated classes are (type_info(), one property per field, choice_tag and UNDEFINED_CHOICE)"]
ASSUMPTIONS = ["induction over the nesting depth: a nested compound is walked by the contract of Walker._walk_fields, which is what is proved of it here for a "
               "compound with any number of fields (when the function is not there under that name, nested compounds are empty)"]
BOUNDED = ["AndWalkFilter: lists of at most 5 filters (all answers)"]
BOUNDED.append("quick: the first field and the later fields are not both of all seven kinds in the same run (thorough: all pairs)")
NOTE = ("structures, choices and unions with any number of fields, arrays of any length, all filter answers; nesting by induction; bounded: at most 5 filters "
        "in a combined filter")
SIMPLE, COMPOUND, NONE_SIMPLE, NONE_COMPOUND, NONE_ARRAY, ARRAY_SIMPLE, ARRAY_COMPOUND = range(7)


class Obj:
    """A compound object."""
    _dv_opaque = True

    def __init__(self, tag, ti):
        self.__dict__.update(tag=tag, ti=ti)

    def type_info(self):
        return self.ti


class Prop(str):
    """A property name that knows the member it belongs to."""


class Tree:
    """Members and values of a compound with abstractly many fields; everything is found again by index."""

    def __init__(self, e, selector=False, first=range(7), later=range(7)):
        self.first, self.later = list(first), list(later)
        T = ns().typeinfo
        self.e, self.T, self.cache = e, T, {}
        self.n = e.int("fields", 0)
        A = T.TypeAttribute
        self.simple = self.opaque(T.TypeInfo("simple", int))
        self.comp = self.opaque(T.TypeInfo("nested", Obj, attributes={A.FIELDS: []}))
        attrs = {A.FIELDS: SList([Abs(self.member, self.n)])}
        if selector:
            attrs[A.SELECTOR] = None
        self.ti = self.opaque(T.TypeInfo("root", Obj, attributes=attrs))
        tree = self

        class Root(Obj):
            UNDEFINED_CHOICE = -1

            def __getattr__(self, name):
                m = getattr(name, "member", None)
                if m is None:
                    raise AttributeError(name)
                return m.value
        self.root = Root("root", self.ti)
        if selector:
            self.tag = e.int("choice_tag", -1)
            e.assume(self.tag < self.n)
            self.root.__dict__["choice_tag"] = self.tag

    @staticmethod
    def opaque(o):
        o._dv_opaque = True
        return o

    def member(self, k):
        key = str(z3.simplify(zint(k)))
        if key in self.cache:
            return self.cache[key]
        T, M = self.T, self.T.MemberAttribute
        kinds = self.first if type(k) is int and k == 0 else self.later
        kind = kinds[self.e.choose(len(kinds))]
        p = Prop("field")
        attrs = {M.PROPERTY_NAME: p}
        if kind in (ARRAY_SIMPLE, ARRAY_COMPOUND, NONE_ARRAY):
            attrs[M.ARRAY_LENGTH] = None
        m = T.MemberInfo("field", self.comp if kind in (COMPOUND, NONE_COMPOUND, ARRAY_COMPOUND) else self.simple, attributes=attrs)
        m._dv_opaque = True
        m.kind, m.k, p.member = kind, k, m
        m.value = None
        if kind == SIMPLE:
            m.value = Obj("value", None)
        elif kind == COMPOUND:
            m.value = Obj("compound", self.comp)
        elif kind in (ARRAY_SIMPLE, ARRAY_COMPOUND):
            m.len = self.e.int("elements", 0, register=False)
            cache = {}

            def elem(j, kind=kind):
                kj = str(z3.simplify(zint(j)))
                if kj not in cache:
                    v = None if self.e.choose(2) else Obj("element", self.comp if kind == ARRAY_COMPOUND else None)
                    cache[kj] = v
                return cache[kj]
            m.elem = elem
            m.value = SList([Abs(elem, m.len)])
        self.cache[key] = m
        return m


class Monitor:
    """Observer and filter in one: checks every call against the documented order, answers freely."""

    def __init__(self, e, tree, start, stop_at):
        self.tree = Tree.opaque(tree)
        self.i, self.end = start, stop_at         # next field, end of the fields to visit
        self.ph, self.stopped = "root", False
        self.j, self.astopped = 0, False
        self.arr = None

    # -- checks -------------------------------------------------------------
    def want(self, ph, name):
        e = cur()
        e.prove(self.ph == ph, "order.%s" % name)
        if self.ph != ph:
            raise PathEnd()

    def node(self, what, value, mi, idx, name):
        """The call is about the node that is next: field i, or element j of the array field i."""
        e = cur()
        if self.ph.startswith("elem"):
            ok = mi is self.arr and idx is not None
            e.prove(ok, name + ".member")
            if not ok:
                raise PathEnd()
            e.prove(eq(idx, self.j), name + ".element-index")
            want = mi.elem(self.j)
            e.prove(value is want, name + ".element")
            comp = mi.kind == ARRAY_COMPOUND and want is not None
            e.prove(what == ("compound" if comp else "value"), name + ".kind")
            return
        ok = hasattr(mi, "k") and idx is None
        e.prove(ok, name + ".member")
        if not ok:
            raise PathEnd()
        e.prove(eq(mi.k, self.i), name + ".field-order")
        e.prove(value is mi.value, name + ".value")
        kind = {COMPOUND: "compound", ARRAY_SIMPLE: "array", ARRAY_COMPOUND: "array"}.get(mi.kind, "value")
        e.prove(what == kind, name + ".kind")

    def before(self, what, value, mi, idx):
        e = cur()
        elem = self.ph == "elem"
        if not elem:
            self.want("field", "before")
            e.prove(Not(self.stopped), "before.not-after-stop")
            e.prove(self.i < self.end, "before.inside")
        else:
            e.prove(Not(self.astopped), "before.not-after-stop")
            e.prove(self.j < self.arr.len, "before.inside")
        self.node(what, value, mi, idx, "before")
        go = bool(e.choose(2))
        pre = "elem-" if elem else ""
        self.ph = pre + (("begin " if what != "value" else "visit ") if go else "after ") + what
        return go

    def after(self, what, value, mi, idx):
        e = cur()
        elem = self.ph.startswith("elem")
        self.want(("elem-" if elem else "") + "after " + what, "after")
        self.node(what, value, mi, idx, "after")
        go = bool(e.choose(2))
        if elem:
            self.ph, self.j = "elem", self.j + 1
            if not go:
                self.astopped = True
        else:
            self.ph, self.i = "field", self.i + 1
            if not go:
                self.stopped = True
        return go

    def begin(self, what, value, mi, idx):
        elem = self.ph.startswith("elem")
        pre = "elem-" if elem else ""
        self.want(pre + "begin " + what, "begin")
        self.node(what, value, mi, idx, "begin")
        if what == "array":
            self.ph, self.arr, self.j, self.astopped = "elem", mi, 0, False
        else:
            self.ph = pre + "walk compound"

    def end_(self, what, value, mi, idx):
        e = cur()
        if what == "array":
            self.want("elem", "end")
            e.prove(Or(self.astopped, eq(self.j, self.arr.len)), "end.all-elements")
            self.ph = "after array"
            self.node(what, value, mi, idx, "end")
            return
        pre = "elem-" if self.ph.startswith("elem") else ""
        if not CONTRACT[0] and self.ph == pre + "walk compound":
            self.ph = pre + "end compound"
        self.want(pre + "end compound", "end")
        self.node(what, value, mi, idx, "end")
        self.ph = pre + "after compound"

    # -- observer -----------------------------------------------------------
    def begin_root(self, o):
        self.want("root", "begin-root")
        cur().prove(o is self.tree.root, "begin-root.object")
        self.ph = "field"

    def end_root(self, o):
        e = cur()
        self.want("field", "end-root")
        e.prove(o is self.tree.root, "end-root.object")
        e.prove(Or(self.stopped, eq(self.i, self.end)), "end-root.all-fields")
        self.ph = "done"

    def begin_array(self, a, mi):
        self.begin("array", a, mi, None)

    def end_array(self, a, mi):
        self.end_("array", a, mi, None)

    def begin_compound(self, c, mi, element_index=None):
        self.begin("compound", c, mi, element_index)

    def end_compound(self, c, mi, element_index=None):
        self.end_("compound", c, mi, element_index)

    def visit_value(self, v, mi, element_index=None):
        pre = "elem-" if self.ph.startswith("elem") else ""
        self.want(pre + "visit value", "visit")
        self.node("value", v, mi, element_index, "visit")
        self.ph = pre + "after value"


class Observer:
    def __init__(self, m):
        self.m = m
        for n in ("begin_root", "end_root", "begin_array", "end_array", "begin_compound", "end_compound", "visit_value"):
            self.__dict__[n] = getattr(m, n)
    _dv_opaque = True


class Filter:
    _dv_opaque = True

    def __init__(self, m):
        self.m = m

    def before_array(self, a, mi):
        return self.m.before("array", a, mi, None)

    def after_array(self, a, mi):
        return self.m.after("array", a, mi, None)

    def before_compound(self, c, mi, element_index=None):
        return self.m.before("compound", c, mi, element_index)

    def after_compound(self, c, mi, element_index=None):
        return self.m.after("compound", c, mi, element_index)

    def before_value(self, c, mi, element_index=None):
        return self.m.before("value", c, mi, element_index)

    def after_value(self, c, mi, element_index=None):
        return self.m.after("value", c, mi, element_index)


CONTRACT = [False]


def walk_case(selector, *kinds):
    def fn(e):
        W = ns().walker
        t = Tree(e, selector, *kinds)
        if selector:
            undef = eq(t.tag, -1)
            m = Monitor(e, t, t.tag, ite(tobool(undef), -1, t.tag + 1))
        else:
            m = Monitor(e, t, 0, t.n)
        e.roots.append(m)
        e.shapes += [lambda k: k]
        orig = W.Walker.__dict__.get("_walk_fields")
        CONTRACT[0] = orig is not None

        def nested(self, obj, type_info):
            if type_info is t.ti:
                return orig(self, obj, type_info)
            pre = "elem-" if m.ph.startswith("elem") else ""
            m.want(pre + "walk compound", "nested")
            want = m.arr.elem(m.j) if pre else t.member(m.i).value
            e.prove(obj is want and type_info is t.comp, "nested.object")
            m.ph = pre + "end compound"
        run = lambda: W.Walker(Observer(m), Filter(m)).walk(t.root)
        if orig is not None:
            with patched(ns(), {"walker:Walker._walk_fields": nested}):
                guard(e, run, "walk")
        else:
            guard(e, run, "walk")
        e.prove(m.ph == "done", "walk.finished")
        e.reach("end")
    return fn


def not_walkable(e):
    """Objects without type info or without fields are rejected and nothing is announced."""
    T, W = ns().typeinfo, ns().walker

    class NoCalls:
        def __getattr__(self, n):
            e.fail("rejected.no-call", n)
            raise PathEnd()
    o = Obj("x", T.TypeInfo("simple", int)) if e.choose(2) else object()
    bad, _ = guard(e, lambda: W.Walker(NoCalls(), NoCalls()).walk(o), "walk", PRE())
    e.prove(bad, "not-a-compound.rejected")
    e.reach("end")


def node_args(e, what):
    idx = e.int("element_index", 0, register=False) if what != "array" and e.choose(2) else None
    a = [object(), object()] if what == "array" else [object(), object(), idx]
    return a, idx


def state(f):
    return dict(f.__dict__)


def same_state(e, f, s, name):
    ok = f.__dict__.keys() == s.keys() and all(same_value(v, f.__dict__[k]) for k, v in s.items())
    e.prove(ok, name)


def default_case(e):
    f = ns().walker.DefaultWalkFilter()
    for what in ("array", "compound", "value"):
        for w in ("before_", "after_"):
            a, _ = node_args(e, what)
            e.prove(guard(e, lambda: getattr(f, w + what)(*a), w)[1] is True, "default." + w + what)
    e.reach("end")


def open_levels(f, d, mx):
    """Opens d levels; the loop is cut like any other."""
    for level in dv_range(d):
        what = "array" if cur().choose(2) else "compound"
        a = [None, None] if what == "array" else [None, None, None]
        r = getattr(f, "before_" + what)(*a)
        cur().prove(eq(r, level + 1 <= mx), "depth.opening")


def depth_case(e):
    mx, d = e.int("max_depth"), e.int("open_levels", 0)
    f = ns().walker.DepthWalkFilter(mx)
    e.roots.append(f)
    guard(e, lambda: open_levels(f, d, mx), "open")
    s = state(f)
    what = ("array", "compound", "value")[e.choose(3)]
    a, _ = node_args(e, what)
    r = guard(e, lambda: getattr(f, "before_" + what)(*a), "before")[1]
    e.prove(eq(r, d + 1 <= mx), "depth.lets-through-up-to-limit")
    if what != "value":
        # one level deeper
        b = [object(), object(), None]
        e.prove(eq(guard(e, lambda: f.before_value(*b), "before")[1], d + 2 <= mx), "depth.inner-level")
        e.prove(guard(e, lambda: f.after_value(*b), "after")[1] is True, "depth.after-inner-continues")
    e.prove(guard(e, lambda: getattr(f, "after_" + what)(*a), "after")[1] is True, "depth.after-continues")
    same_state(e, f, s, "depth.level-restored")
    e.reach("end")


def length_case(e):
    mx = e.int("max_length")
    f = ns().walker.ArrayLengthWalkFilter(mx)
    s = state(f)
    what = ("array", "compound", "value")[e.choose(3)]
    a, idx = node_args(e, what)
    want = True if idx is None else idx < mx
    e.prove(eq(guard(e, lambda: getattr(f, "before_" + what)(*a), "before")[1], want), "length.lets-through-below-limit")
    r = guard(e, lambda: getattr(f, "after_" + what)(*a), "after")[1]
    # the siblings may be cut short only when no later sibling would be let through
    e.prove(Or(r, And(idx is not None, (idx + 1 if idx is not None else 0) >= mx)), "length.after-stops-only-beyond-limit")
    same_state(e, f, s, "length.stateless")
    e.reach("end")


def and_case(n):
    def fn(e):
        calls = []

        class Part:
            def __init__(self, k):
                self.k = k
                self.ans = bool(e.choose(2))

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)

                def method(*a):
                    calls.append((self.k, name, a))
                    return self.ans
                return method
        parts = [Part(k) for k in range(n)]
        f = ns().walker.AndWalkFilter(parts)
        what = ("array", "compound", "value")[e.choose(3)]
        w = ("before_", "after_")[e.choose(2)] + what
        a = [object(), object()] + ([] if what == "array" else [7 if e.choose(2) else None])
        r = guard(e, lambda: getattr(f, w)(*a), w)[1]
        e.prove(bool(r) == all(p.ans for p in parts), "and.result")
        e.prove(sorted(c[0] for c in calls) == list(range(n)), "and.every-filter-once")
        for _, name, b in calls:
            e.prove(name == w and len(b) in (2, 3) and all(x is y for x, y in zip(a, b)) and (len(b) == len(a) or a[2:] == [None]), "and.arguments")
        e.reach("end")
    return fn


def prepare():
    ns()


def cases(tier):
    few = (SIMPLE, COMPOUND)
    full = [Case("structure", walk_case(False), limit_s=700)] if tier != "quick" else []
    return (full + [Case("structure-first-field", walk_case(False, range(7), few)), Case("structure-later-field", walk_case(False, few, range(7))), Case("choice-or-union", walk_case(True)), Case("not-walkable", not_walkable), Case("default-filter", default_case),
             Case("depth-filter", depth_case), Case("array-length-filter", length_case)] + [Case("and-filter-%d" % n, and_case(n)) for n in range(6)])


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.walking(seed, budget, hints)
