"""P15  The tree creator: every public call from every reachable construction state."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns
from dv.core import cur
from dv.rope import SList, Abs, Con, SSeq

FUNCTIONS = ["ZserioTreeCreator.begin_root", "ZserioTreeCreator.end_root", "ZserioTreeCreator.begin_array", "ZserioTreeCreator.end_array",
             "ZserioTreeCreator.begin_compound", "ZserioTreeCreator.end_compound", "ZserioTreeCreator.set_value", "ZserioTreeCreator.get_field_type",
             "ZserioTreeCreator.begin_compound_element", "ZserioTreeCreator.end_compound_element", "ZserioTreeCreator.add_value_element",
             "ZserioTreeCreator.get_element_type", "ZserioTreeCreator._find_member_info", "ZserioTreeCreator._create_object",
             "ZserioTreeCreator._get_type_info"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers and loop cutting", "z3",
           "types described by type infos are as the generated classes are (constructor takes the type arguments, fields are set by setattr)"]
ASSUMPTIONS = ["constructors of the types, setters of their properties and the type-argument functions do not raise"]
BOUNDED = ["at most 3 type arguments per field"]
NOTE = ("any nesting depth (induction: the representation of every reachable state is learned from the real object and shown to be kept by every call), "
        "any number of fields, any array length, any value; bounded: at most 3 type arguments per field")
# what the member named in a call may be
KINDS = ("simple", "compound", "array of simple", "array of compound")


class Comp:
    _dv_opaque = True
    log = None

    def __init__(self, *args):
        object.__setattr__(self, "args", args)

    def __setattr__(self, name, value):
        Comp.log.append((self, name, value))


class Name(str):
    """A field name: equal to the name of the field at the same index only."""
    def __new__(cls, k):
        s = str.__new__(cls, "field")
        s.k = k
        return s

    def __eq__(self, o):
        if not isinstance(o, Name):
            return False
        return MON.compare(self.k, o.k) if MON else eq(self.k, o.k)

    def __ne__(self, o):
        return Not(self.__eq__(o)) if isinstance(o, Name) else True
    __hash__ = None


class Monitor:
    """Ghost state: the fields with indices below `upto` have each been compared with the target and found to be others."""

    _dv_given = {"upto": 0}

    def __init__(self, target):
        self.target, self.upto, self.hit = target, 0, False

    def compare(self, a, b):
        j = b if a is self.target else a if b is self.target else None
        if j is None:
            return eq(a, b)
        if cur().branch(zint(j) == zint(self.target)):
            self.hit = True
            return True
        if cur().must(eq(j, self.upto)):
            self.upto = self.upto + 1
        return False

    def learned(self):
        """What follows from the comparisons made."""
        if not self.hit:
            cur().assume(tobool(Or(self.target < 0, self.target >= self.upto)))


MON = None


def opaque(o):
    o._dv_opaque = True
    return o


class Frame:
    """One level of the construction: kind compound / array / element."""
    def __init__(self, kind, obj, ti, mi=None):
        self.kind, self.obj, self.ti, self.mi = kind, obj, ti, mi


class World:
    def __init__(self, e):
        self.e = e
        self.T = ns().typeinfo
        self.creator = ns().creator.ZserioTreeCreator
        Comp.log = []
        self.seen = []

    # -- types --------------------------------------------------------------
    def compound(self, cls=None):
        return opaque(self.T.TypeInfo("C", cls or type("C", (Comp,), {}), attributes={self.T.TypeAttribute.FIELDS: []}))

    def simple(self, cls=None):
        return opaque(self.T.TypeInfo("S", cls or type("S", (Comp,), {})))

    def member(self, kind, k, nargs=0, ti=None, cls=None):
        M = self.T.MemberAttribute
        p = str.__new__(Prop, "prop")
        p.k = k
        at = {M.PROPERTY_NAME: p}
        if kind.startswith("array"):
            at[M.ARRAY_LENGTH] = None
        if nargs:
            at[M.TYPE_ARGUMENTS] = [(lambda parent, index, a=a: ("arg", a, parent, index)) for a in range(nargs)]
        if ti is None:
            ti = self.compound(cls) if kind.endswith("compound") else self.simple(cls)
        mi = opaque(self.T.MemberInfo(Name(k), ti, attributes=at))
        mi.k, mi.kind, mi.nargs, p.mi = k, kind, nargs, mi
        return mi

    def any_fields(self, ti, kind, nargs, name, cls):
        """Gives the type abstractly many fields; each of them is of the given kind."""
        e = self.e
        n = e.int("fields", 0, register=False)
        cache = {}

        def fn(j):
            key = str(z3.simplify(zint(j)))
            if key not in cache:
                cache[key] = self.member(kind, j, nargs, cls=cls)
                self.seen.append(cache[key])
            return cache[key]
        ti.attributes[self.T.TypeAttribute.FIELDS] = SList([Abs(fn, n)])
        name.k = e.int("target", -1, register=False)
        e.assume(name.k < n)
        return n

    # -- states -------------------------------------------------------------
    def build(self, shape):
        """A creator in a state with the given frames, made by public calls."""
        T = self.T
        inner = {}

        def down(i, ti):
            if i >= len(shape):
                return
            kind = shape[i]
            if kind == "compound":
                t2 = self.compound()
                mi = self.member("compound", 0, ti=t2)
                ti.attributes[T.TypeAttribute.FIELDS] = [mi]
                inner[i] = (mi, t2)
                down(i + 1, t2)
            elif kind in ("array of simple", "array of compound"):
                t2 = self.compound() if kind.endswith("compound") else self.simple()
                mi = self.member(kind, 0, ti=t2)
                ti.attributes[T.TypeAttribute.FIELDS] = [mi]
                inner[i] = (mi, t2)
                down(i + 1, t2)
            elif kind == "element":
                inner[i] = inner[i - 1]
                down(i + 1, ti)
        self.root_ti = self.compound()
        self.root_args = (object(), object())
        if len(shape) > 1:
            down(1, self.root_ti)
        made = []
        orig = Comp.__init__

        def init(o, *args):
            orig(o, *args)
            made.append(o)
        c = self.creator(self.root_ti, *self.root_args)
        frames = []
        Comp.__init__ = init
        try:
            for i, kind in enumerate(shape):
                mi = inner.get(i, (None, None))[0]
                if kind == "root":
                    c.begin_root()
                    frames.append(Frame(kind, made[-1], self.root_ti))
                elif kind == "compound":
                    c.begin_compound(Name(0))
                    frames.append(Frame(kind, made[-1], inner[i][1], mi))
                elif kind == "element":
                    c.begin_compound_element()
                    frames.append(Frame(kind, made[-1], inner[i][1], mi))
                else:
                    c.begin_array(Name(0))
                    known = [f.obj for f in frames]
                    new = [x for v in c.__dict__.values() if is_list(v) for x in items_of(v) if is_list(x) and not any(x is k for k in known)]
                    frames.append(Frame(kind, new[0] if len(new) == 1 else object(), inner[i][1], mi))
        finally:
            Comp.__init__ = orig
        return c, frames


class Prop(str):
    pass


def is_list(v):
    return isinstance(v, (list, SList))


def items_of(v):
    """Segments of a list flattened: Abs segments as they are, items of the rest."""
    if isinstance(v, SList):
        out = []
        for s in v.segs:
            out += list(s.items) if isinstance(s, Con) else [s]
        return out
    return list(v)


def owners(frames, x):
    """What an entry of the creator's lists stands for: (frame index, what)."""
    for i, f in reversed(list(enumerate(frames))):
        if x is f.obj:
            return i, "object"
        if x is f.mi and x is not None and f.kind != "element":
            return i, "member"
    return None


def learn(w, shapes):
    """For each list attribute of the creator and each kind of frame: what the frame puts into the list. None when the lists are something else."""
    rep = {}
    scalars = {}
    for shape in shapes:
        c, frames = w.build(shape)
        for a, v in c.__dict__.items():
            if a in CONST:
                continue
            if is_list(v):
                got = [owners(frames, x) for x in items_of(v)]
                if None in got or [g[0] for g in got] != sorted(g[0] for g in got):
                    return None
                for i, f in enumerate(frames):
                    mine = [g[1] for g in got if g[0] == i]
                    if rep.setdefault((a, f.kind), mine) != mine:
                        return None
            else:
                top = top_kind(frames)
                if scalars.setdefault((a, top), v) is not v:
                    return None
    return rep, scalars


def top_kind(frames):
    if not frames:
        return "none"
    k = frames[-1].kind
    return "array" if k.startswith("array") else "compound"


CONST = set()


def find_const(w):
    """Attributes holding what the constructor was given: they are the same in every state."""
    CONST.clear()
    c, _ = w.build(("root",))
    for a, v in c.__dict__.items():
        if v is w.root_ti or (isinstance(v, (tuple, list)) and len(v) == 2 and all(x is y for x, y in zip(v, w.root_args))):
            CONST.add(a)


SHAPES = [(), ("root",), ("root", "compound"), ("root", "array of simple"), ("root", "array of compound"), ("root", "array of compound", "element"),
          ("root", "compound", "compound"), ("root", "compound", "array of compound", "element", "compound", "array of simple"),
          ("root", "array of compound", "element", "compound", "array of compound", "element", "array of compound")]
TOPS = [(), ("compound",), ("array of simple",), ("array of compound",), ("array of compound", "element")]
PARENTS = [("root",), ("root", "compound"), ("root", "array of compound", "element")]


class State:
    """Creator in an arbitrary reachable state whose innermost frames have the given shape; everything further out is unknown."""

    def __init__(self, w, shape, deep):
        e = w.e
        self.w, self.e = w, e
        self.c, self.frames = w.build(shape)
        self.below = 0
        if deep:
            # the root frame stands for any number of outer frames, none of them known
            for a, v in list(self.c.__dict__.items()):
                if is_list(v) and a not in CONST:
                    items = items_of(v)
                    keep = [x for x in items if (owners(self.frames, x) or (0,))[0] != 0]
                    n = e.int("outer-" + a, 1 if len(items) != len(keep) else 0, register=False)
                    self.c.__dict__[a] = SList([Abs(self.unknown, n)] + ([Con(keep)] if keep else []))
            self.below = 1
        # arrays hold any number of elements already
        for f in self.frames:
            if f.kind.startswith("array"):
                f.n = e.int("elements", 0, register=False)
                old, f.obj = f.obj, SList([Abs(self.unknown, f.n)])
                for a, v in list(self.c.__dict__.items()):
                    if is_list(v):
                        if isinstance(v, SList):
                            segs = [s if isinstance(s, Abs) else Con([f.obj if x is old else x for x in s.items]) for s in v.segs]
                            self.c.__dict__[a] = SList(segs)
                        else:
                            self.c.__dict__[a] = [f.obj if x is old else x for x in v]
        Comp.log = []
        self.snap = self.take()

    @staticmethod
    def unknown(i):
        return opaque(Unknown())

    def take(self):
        d = {}
        for a, v in self.c.__dict__.items():
            d[a] = items_of(v) if is_list(v) else v
        return d, {id(f): list(f.obj.segs) for f in self.frames if f.kind.startswith("array")}

    def unchanged(self, name):
        e = self.e
        d, arrs = self.take()
        d0, arrs0 = self.snap
        ok = d.keys() == d0.keys()
        for a in d0:
            if not ok:
                break
            ok = same_items(d[a], d0[a])
        e.prove(ok, name + ".state-unchanged")
        e.prove(all(same_items(arrs[k], arrs0[k]) for k in arrs0), name + ".arrays-unchanged")
        e.prove(not Comp.log, name + ".objects-unchanged")

    def is_form(self, frames, rep, name):
        """The creator's lists are what the frames put into them, its other attributes as in every state with this innermost frame."""
        e = self.e
        lists, scalars = rep
        for a, v in self.c.__dict__.items():
            if a in CONST:
                e.prove(v is self.snap[0][a], name + ".constant." + a)
            elif is_list(v):
                want = [s for s in self.snap[0][a] if isinstance(s, Abs)]
                for f in frames[self.below:] if self.below else frames:
                    if (a, f.kind) not in lists:
                        e.fail(name + ".state", "unexpected list " + a)
                        return
                    want += [f.obj if x == "object" else f.mi for x in lists[(a, f.kind)]]
                e.prove(same_items(items_of(v), want), name + ".state." + a)
            else:
                e.prove((a, top_kind(frames)) in scalars and v is scalars[(a, top_kind(frames))], name + ".state." + a)


def same_items(a, b):
    if type(a) is not list or type(b) is not list:
        return a is b
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, Abs) and isinstance(y, Abs):
            if x.get is not y.get or not cur().must(eq(x.length(), y.length())):
                return False
        elif isinstance(x, Con) and isinstance(y, Con):
            if not same_items(list(x.items), list(y.items)):
                return False
        elif x is not y:
            return False
    return True


class Unknown:
    """Something further out than the innermost frames: no call may look at it."""
    def __getattr__(self, n):
        if n.startswith("__") or n == "_dv_opaque":
            raise AttributeError(n)
        cur().fail("outer-frame-used", n)
        raise PathEnd()


def state_case(shape, deep):
    def fn(e):
        global MON
        MON = None
        w = World(e)
        find_const(w)
        rep = learn(w, SHAPES)
        if rep is None:
            # the state is kept in some other way: only the concrete states are checked (and the random search)
            if deep:
                e.prove(True, "other-representation")
                e.reach("end")
                return
        st = State(w, shape, deep)
        c, frames = st.c, st.frames
        top = frames[-1] if frames else None
        comp = top is not None and not top.kind.startswith("array")
        arr = top is not None and top.kind.startswith("array")
        is_root = comp and top.kind == "root" and not deep
        calls = ["begin_root", "end_root", "begin_array", "end_array", "begin_compound", "end_compound", "set_value", "get_field_type",
                 "begin_compound_element", "end_compound_element", "add_value_element", "get_element_type"]
        call = calls[e.choose(len(calls))]
        kind, nargs, args = "simple", 0, []
        named = call in ("begin_array", "begin_compound", "set_value", "get_field_type")
        found = True
        if named:
            name = Name(0)
            if comp:
                kind = KINDS[e.choose(4)]
                nargs = e.choose(4) if kind == "compound" and call == "begin_compound" else 0
            args.append(name)
        if call == "begin_compound_element" and arr and top.kind.endswith("compound"):
            nargs = e.choose(4)
            if nargs:
                top.mi.attributes[w.T.MemberAttribute.TYPE_ARGUMENTS] = [(lambda p, i, a=a: ("arg", a, p, i)) for a in range(nargs)]
        # values: none, of the type, of a derived type, of another type, a list
        vkind = None
        cls = type("Target", (Comp,), {})
        if call in ("set_value", "add_value_element"):
            if call == "add_value_element":
                kind = top.kind if arr else "simple"
                cls = top.ti.py_type if arr else cls
            vkind = ("none", "match", "derived", "other", "list")[e.choose(5)]
            vcls = {"match": cls, "derived": type("Derived", (cls,), {}), "other": type("Other", (Comp,), {})}.get(vkind)
            value = {"none": None, "list": []}[vkind] if vcls is None else vcls.__new__(vcls)
            args.append(value)
        if named and comp:
            w.any_fields(top.ti, kind, nargs, args[0], cls)
            found = args[0].k >= 0
        good_type = vkind in ("none", "match", "derived")
        if call == "set_value" and kind.startswith("array"):
            good_type = vkind == "none"
        allowed = {
            "begin_root": top is None,
            "end_root": is_root,
            "begin_array": comp and kind.startswith("array"),
            "end_array": arr,
            "begin_compound": comp and kind == "compound",
            "end_compound": comp and top.kind == "compound",
            "set_value": comp and good_type,
            "get_field_type": comp,
            "begin_compound_element": arr and top.kind.endswith("compound"),
            "end_compound_element": comp and top.kind == "element",
            "add_value_element": arr and good_type,
            "get_element_type": arr,
        }[call]
        mon = None
        if named and comp:
            MON = mon = Monitor(args[0].k)
            e.roots.append(mon)
            e.shapes.append(lambda k: k)
        made = []
        orig = Comp.__init__

        def init(o, *a):
            orig(o, *a)
            made.append(o)
        Comp.__init__ = init
        try:
            bad, r = guard(e, lambda: getattr(c, call)(*args), call, PRE())
        finally:
            Comp.__init__ = orig
            MON = None
        if mon is not None:
            mon.learned()
        must = And(allowed, found)
        if bad:
            e.prove(Not(must), call + ".accepted-when-allowed")
            st.unchanged(call + ".rejected")
            e.reach("end")
            return
        e.prove(must, call + ".rejected-when-not-allowed")
        if not allowed:
            return
        log = list(Comp.log)

        def stored(owner, mi_ok, v):
            e.prove(len(log) == 1, call + ".one-store")
            if len(log) != 1:
                raise PathEnd()
            o, n, x = log[0]
            e.prove(o is owner, call + ".stored-in-parent")
            e.prove(isinstance(n, Prop) and mi_ok(n.mi), call + ".stored-under-property-name")
            e.prove(x is v, call + ".stored-value")

        def created(mi_nargs, cls, parent, index):
            e.prove(len(made) == 1 and type(made[0]) is cls, call + ".object-of-the-type")
            if len(made) != 1:
                raise PathEnd()
            a = made[0].args
            e.prove(len(a) == mi_nargs, call + ".argument-count")
            for i, x in enumerate(a):
                e.prove(x[0] == "arg" and x[1] == i and x[2] is parent, call + ".argument")
                if index is None:
                    e.prove(x[3] is None, call + ".argument-index")
                else:
                    e.prove(x[3] is not None and eq(x[3], index), call + ".argument-index")
            return made[0]

        def the_member(mi):
            return eq(mi.k, args[0].k)
        if not call.startswith("set_value") and not call.startswith("end_"):
            e.prove(not log, call + ".nothing-stored")
        if call not in ("begin_root", "begin_compound", "begin_compound_element"):
            e.prove(not made, call + ".nothing-created")
        after = list(frames)
        if call == "begin_root":
            e.prove(len(made) == 1 and type(made[0]) is w.root_ti.py_type and made[0].args == w.root_args, "begin_root.root-created")
            after = [Frame("root", made[0], w.root_ti)]
        elif call == "end_root":
            e.prove(r is top.obj, "end_root.returns-root")
            e.prove(not log, "end_root.nothing-stored")
            after = []
        elif call == "begin_array":
            lists = [x for x in new_entries(st) if is_list(x) and not isinstance(x, SList)]
            mis = [x for x in new_entries(st) if isinstance(x, w.T.MemberInfo)]
            if rep is not None:
                e.prove(len(lists) == 1 and len(lists[0]) == 0, "begin_array.empty-array")
                e.prove(len(mis) == 1 and the_member(mis[0]), "begin_array.member")
                if len(lists) != 1 or len(mis) != 1:
                    raise PathEnd()
                after.append(Frame(kind, lists[0], None, mis[0]))
        elif call == "end_array":
            stored(frames[-2].obj, lambda m: m is top.mi, top.obj)
            after.pop()
        elif call == "begin_compound":
            mis = [x for x in new_entries(st) if isinstance(x, w.T.MemberInfo)]
            if rep is not None:
                e.prove(len(mis) == 1 and the_member(mis[0]), "begin_compound.member")
                if len(mis) != 1:
                    raise PathEnd()
                o = created(nargs, mis[0].type_info.py_type, top.obj, None)
                after.append(Frame("compound", o, None, mis[0]))
        elif call == "end_compound":
            stored(None if len(frames) < 2 else frames[-2].obj, lambda m: m is top.mi, top.obj)
            after.pop()
        elif call == "set_value":
            stored(top.obj, the_member, value)
        elif call == "get_field_type":
            e.prove(any(m.type_info is r for m in w.seen), "get_field_type.type")
            for m in w.seen:
                if m.type_info is r:
                    e.prove(the_member(m), "get_field_type.member")
        elif call == "begin_compound_element":
            o = created(nargs, top.ti.py_type, frames[-2].obj, top.n)
            after.append(Frame("element", o, top.ti, top.mi))
        elif call == "end_compound_element":
            e.prove(not log, call + ".nothing-stored")
            a = frames[-2]
            check_appended(e, a, top.obj, call)
            after.pop()
        elif call == "add_value_element":
            check_appended(e, top, value, call)
        elif call == "get_element_type":
            e.prove(r is top.mi.type_info, "get_element_type.type")
        if rep is not None:
            st.is_form(after, rep, call)
        # arrays not concerned are as they were
        for f in frames:
            if f.kind.startswith("array") and not (call == "add_value_element" and f is top) and not (call == "end_compound_element" and f is frames[-2]):
                e.prove(same_items(list(f.obj.segs), st.snap[1][id(f)]), call + ".other-arrays-unchanged")
        e.reach("end")
    return fn


def new_entries(st):
    out = []
    for a, v in st.c.__dict__.items():
        if is_list(v):
            old = st.snap[0][a]
            out += [x for x in items_of(v)[len(old):]]
    return out


def check_appended(e, f, v, name):
    segs = items_of(f.obj)
    e.prove(len(segs) == 2 and isinstance(segs[0], Abs) and e.must(eq(segs[0].length(), f.n)) and segs[1] is v, name + ".appended")


def prepare():
    ns()


def cases(tier):
    out = [Case("before-root", state_case((), False))]
    for p in PARENTS:
        for t in TOPS:
            for deep in (False, True):
                shape = p + t
                if deep and (p == ("root",) or not t):
                    continue        # the innermost frame is closed into a known one only when there is one below it
                name = ("outer+" if deep else "") + "/".join(shape).replace(" ", "-")
                out.append(Case(name, state_case(shape, deep)))
    return out


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.creating(seed, budget, hints)
