"""G01  Generated Python code: size, offsets, writing and reading agree with each other and with the schema."""
import os
from dv import jbuild, pyload, zs, zspy, zsref
from dv.core import *
from dv.runner import Case
from dv.pyharness import guard, PRE, ns
from dv.zs import Invalid, Schema, Scope
from dv.zsref import Api, Layout, Stream, same
from dv.zspy import GhostReader, GhostWriter, Generated, Maker, clone_params, hash_same, _hash_of

LEVEL = "translation_validation"
TECHNIQUE = ("deductive translation validation: the compiler built from the tree generates Python for a corpus of schemas; the generated functions "
             "are executed symbolically over contracts of the runtime and compared with an independent reading of the schema; obligations discharged by z3")
FUNCTIONS = ["of every generated compound class: __init__, from_reader, from_reader_packed, properties, field indicators, create_packing_context, "
             "init_packing_context, bitsizeof, bitsizeof_packed, initialize_offsets, initialize_offsets_packed, write, write_packed, __eq__, __hash__, "
             "element factories and offset accessors of arrays, parameter, constraint, offset, array length and range checks; "
             "of every generated enum and bitmask class: the same, from_name, from_value and the operators",
             "runtime, executed as it is: zserio.array.Array and the array traits, zserio.builtin, zserio.limits"]
TRUSTED = ["CPython semantics of the executed subset (the generated code runs under CPython)", "dv symbolic integers", "z3", "javac and the JVM that run the compiler",
           "dv/zs.py and dv/zsref.py: the independent reading of the schema language"]
ASSUMPTIONS = ["stream operations, size functions and alignment of the runtime keep the contracts proved in P01-P06",
               "the packing context keeps the contract proved in P10", "hash functions are functions of their arguments (P08)",
               "strings, byte arrays, bit buffers and floats are opaque values (floats equal as Python compares them)"]
BOUNDED = ["schemas: the corpus in /verif/schemas (every construct of the language without SQL and services)", "arrays of at most 2 elements (1 in equality cases)",
           "alternatives beyond the first 24 combinations of an object are sampled in a fixed pattern", "elements of arrays that were created with other parameters than "
           "the array passes are not checked by the generated code and not required to be"]
NOTE = ("all field values, positions and offsets of every type of the schema corpus, runtime operations by contract; bounded: the corpus, arrays of at most 2 elements, "
        "combinations of alternatives beyond 24 per object sampled; objects with more elements are covered by the concrete search only")
SEARCH_S = 12

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHEMAS = os.path.join(HERE, "schemas")
MAIN, ARGS = "arrays.zs", ("-allowImplicitArrays",)

_WS = {}


def variant_args(variant):
    return ARGS + (("-withRangeCheckCode",) if variant == "range" else ())



def world(variant=""):
    """Compiler built from the current tree, run on the corpus; generated modules; independent reading of the corpus."""
    _W = _WS.setdefault(variant, {})
    if not _W:
        d = jbuild.generate_python(SCHEMAS, MAIN, variant_args(variant))
        texts = [open(os.path.join(SCHEMAS, f)).read() for f in sorted(os.listdir(SCHEMAS)) if f.endswith(".zs")]
        gen = Generated(d)
        for m in gen.modules + [ns().array]:
            m.__dict__["range"] = conc_range
        _W.update(dir=d, texts=texts, schema=Schema(texts), gen=gen, api=Api())
    return _W


def top_types():
    """Every concrete compound type of the corpus: plain declarations and the template instances used in fields."""
    s = world()["schema"]
    res, seen = [], set()

    def add(t):
        d = s.decl(t)
        if d is None or d.k not in ("struct", "union", "choice"):
            return
        n = zspy.inst_name(t)
        if n in seen:
            return
        seen.add(n)
        res.append((n, zs.T(t.name, t.targs)))
        for f in d.fields:
            add(s.resolve_deep(s.resolve(f.type, s.tenv(t)), s.tenv(t)))
    for d in s.decls.values():
        if d.k in ("struct", "union", "choice") and not d.tparams:
            add(zs.T(d.name))
    return res


def fields_same(lay, rt, a, b, params):
    """Reference equality: the fields in use are the same and have equal values."""
    s, api = lay.s, lay.api
    d, env = s.decl(rt), s.tenv(rt)
    sa, sb = (Scope(s, d, o, params, env, None, api) for o in (a, b))
    if d.k == "struct":
        for f in d.fields:
            pa, pb = lay.present(f, a, sa), lay.present(f, b, sb)
            if pa != pb:
                return False
            if pa and not field_same(lay, f, a, b, sa, sb):
                return False
        return True
    if d.k == "union":
        if a.choice_tag != b.choice_tag:
            return False
        return field_same(lay, d.fields[a.choice_tag], a, b, sa, sb)
    f = lay.chosen(d, sa)
    return True if f is None else field_same(lay, f, a, b, sa, sb)


def field_same(lay, f, a, b, sa, sb):
    va, vb = lay.api.get(a, f.name), lay.api.get(b, f.name)
    if f.array is not None:
        return len(va) == len(vb) and all(value_same(lay, f.type, x, y, sa) for x, y in zip(va, vb))
    return value_same(lay, f.type, va, vb, sa)


def value_same(lay, t, x, y, sc):
    rt = lay.s.resolve(t, sc.env)
    d = lay.s.decl(rt)
    if d is not None and d.k in ("struct", "union", "choice"):
        ps = []
        for n, _ in d.params:
            p, q = lay.api.get(x, n), lay.api.get(y, n)
            if not (p == q):
                return False
            ps.append((n, p))
        return fields_same(lay, rt, x, y, dict(ps))
    if d is not None:
        x, y = x.value, y.value
    return bool(same(x, y))


def items_equal(e, got, want, name):
    e.prove(len(got) == len(want), name + ".count", "%d items, %d expected: %s / %s" % (
        len(got), len(want), [i.kind for i in got][:40], [i.kind for i in want][:40]))
    for i, (g, w) in enumerate(zip(got, want)):
        e.prove(g.kind == w.kind, name + ".kind", "item %d is %s, expected %s" % (i, g.kind, w.kind))
        e.prove(eq(g.pos, w.pos), name + ".position", "item %d (%s)" % (i, w.kind))
        e.prove(eq(g.size, w.size), name + ".size", "item %d (%s)" % (i, w.kind))
        item_args(e, g, w, name, i)


def item_args(e, g, w, name, i):
    if w.kind == "delta":
        e.prove(g.args[1] == w.args[1], name + ".packing-index", "item %d" % i)
        e.prove(len(g.args[0]) == len(w.args[0]), name + ".packing-context", "item %d" % i)
        if g.args[1] == 0:
            for a, b in zip(g.args[0], w.args[0]):
                e.prove(a.kind == b.kind, name + ".packing-kind", "item %d" % i)
                item_args(e, a, b, name, i)
        e.prove(g.args[2].kind == w.args[2].kind, name + ".packing-kind", "item %d" % i)
        item_args(e, g.args[2], w.args[2], name, i)
        return
    e.prove(And(True, *[same(a, b) for a, b in zip(g.args, w.args)]), name + ".value", "item %d (%s)" % (i, w.kind))


def conc_range(*a):
    """range over a symbolic count whose value the path condition fixes (array lengths are enumerated)."""
    a = [cur().concretize(x.t if type(x) is SInt else x.z()) if is_sym(x) else x for x in a]
    return range(*a)


def run(e, f, name, exc=None):
    r = guard(e, f, name, exc)
    if r is None:
        raise PathEnd()
    return r


def contract_patch():
    return pyload.patched(ns(), zspy.contracts())


def refusals(valid):
    """A list of offsets that is too short is refused by Python itself."""
    return PRE() if valid else (PRE(), IndexError)


INTS = 16
# recursive types, arithmetic on integers beyond 64 bits that the solver does not decide, nothing but an offset
RANGE_SKIP = ("Nested", "UseNested", "Expressions2", "Constraints", "Negative", "Holder")


def io_case(rt, valid, has_offsets, wide=False):
    def fn(e):
        w = world("range" if wide else "")
        e.opaque_hash = True             # error messages put the position into a set literal
        s, api = w["schema"], w["api"]
        d = s.decl(rt)
        with contract_patch():
            m = Maker(s, w["gen"], e, valid)
            try:
                params = clone_params(m, d, rt, "top")
                if wide:
                    m.wide = e.choose(INTS) + 1
                    m.LIMIT = 2
                obj = m.compound(rt, params, rt.name)
            except Invalid:
                raise PathEnd()
            if wide and not m.wide_ids:
                raise PathEnd()
            pos = e.int("position", 0, 1 << 28)
            init = True if valid or not has_offsets else bool(m.pick(2))
            end = None
            if init:
                early, end = run(e, lambda: obj.initialize_offsets(pos), "initialize_offsets", refusals(valid))
                if early:
                    end = None
            lay = Layout(s, Stream(pos), api)
            lay.wide = m.wide_ids
            sp = {n: (zs.EnumV(s.decl(s.resolve(pt)), params[n].value) if s.decl(s.resolve(pt)) is not None and
                      s.decl(s.resolve(pt)).k in ("enum", "bitmask") else params[n]) for n, pt in d.params}
            try:
                lay.compound(rt, obj, sp, None)
                reasons = lay.invalid
                complete = True
            except Invalid as x:
                reasons, complete = [str(x)], False
            if valid:
                e.prove(not reasons, "offsets.initialised", "the reference layout refuses the object: %s" % reasons)
            want = lay.out
            if init and early:
                e.prove(reasons, "initialize_offsets.accepts", "refused")
            if not reasons:
                if end is not None:
                    e.prove(eq(end, want.pos), "initialize_offsets.end")
                _, size = run(e, lambda: obj.bitsizeof(pos), "bitsizeof")
                e.prove(eq(size, want.pos - pos), "bitsizeof.value")
            wr = GhostWriter(pos)
            raised, _ = run(e, lambda: obj.write(wr), "write", refusals(valid))
            if reasons:
                e.prove(raised, "write.rejects", "written although: %s" % reasons)
            else:
                e.prove(not raised, "write.accepts", "refused: %s" % _)
                e.prove(eq(wr.pos, want.pos), "write.end")
                items_equal(e, wr.items, want.items, "write")
            if not reasons or (complete and set(reasons) <= {"constraint"}):
                rd = GhostReader(want.items, pos, want.pos)
                raised, back = run(e, lambda: type(obj).from_reader(rd, *params.values()), "read", PRE())
                if reasons:
                    e.prove(raised, "read.rejects")
                else:
                    # an extended field that is absent by its condition leaves nothing but padding behind
                    tail = ".absent-extended-tail" if want.items and want.items[-1].kind == "pad" else ""
                    e.prove(not raised, "read.accepts" + tail)
                    e.prove(eq(rd.pos, want.pos), "read.end" + tail)
                    lay2 = Layout(s, Stream(pos), api)
                    try:
                        lay2.compound(rt, back, sp, None)
                    except Invalid as x:
                        e.fail("read.equal" + tail, str(x))
                    items_equal(e, lay2.out.items, want.items, "read")
                    e.prove(bool(back == obj) and bool(obj == back), "read.equal" + tail)
                    e.prove(hash_same(_hash_of(back), _hash_of(obj)), "read.hash" + tail)
            e.reach("end")
    return fn


def eq_case(rt):
    def fn(e):
        w = world()
        s, api = w["schema"], w["api"]
        d = s.decl(rt)
        with contract_patch():
            ma = Maker(s, w["gen"], e, True, "a:")
            mb = Maker(s, w["gen"], e, True, "b:")
            ma.LIMIT = mb.LIMIT = 4
            ma.max_len = mb.max_len = 1
            try:
                params = clone_params(ma, d, rt, "top")
                a = ma.compound(rt, params, rt.name)
                mb.ctor = ma.ctor
                b = mb.compound(rt, params, rt.name)
            except Invalid:
                raise PathEnd()
            lay = Layout(s, None, api)
            r = bool(a == b)
            sp = {n: (zs.EnumV(s.decl(s.resolve(pt)), params[n].value) if s.decl(s.resolve(pt)) is not None and
                      s.decl(s.resolve(pt)).k in ("enum", "bitmask") else params[n]) for n, pt in d.params}
            e.prove(r == fields_same(lay, rt, a, b, sp), "equality", "objects compare %s" % ("equal" if r else "different"))
            if r:
                e.prove(hash_same(_hash_of(a), _hash_of(b)), "hash.equal")
            e.reach("end")
    return fn


def older_case(rt):
    """A stream written before the last fields were added: they are absent, everything else is kept."""
    def fn(e):
        w = world()
        s, api = w["schema"], w["api"]
        d = s.decl(rt)
        ext = [f for f in d.fields if f.extend]
        with contract_patch():
            m = Maker(s, w["gen"], e, True)
            obj = m.compound(rt, {}, rt.name)
            pos = e.int("position", 0, 1 << 28)
            obj.initialize_offsets(pos)
            k = e.choose(len(ext))
            lay = Layout(s, Stream(pos), api, ext=k)
            lay.compound(rt, obj, {}, None)
            want = lay.out
            tail = ".absent-extended-tail" if want.items and want.items[-1].kind == "pad" else ""
            rd = GhostReader(want.items, pos, want.pos)
            _, back = run(e, lambda: type(obj).from_reader(rd), "older.read" + tail)
            e.prove(eq(rd.pos, want.pos), "older.end" + tail)
            if not tail:
                for i, f in enumerate(ext):
                    e.prove(getattr(back, "is_%s_present" % api.snake(f.name))() == (i < k), "older.present", f.name)
                _, size = run(e, lambda: back.bitsizeof(pos), "older.bitsizeof")
                e.prove(eq(size, want.pos - pos), "older.bitsizeof")
                _, end = run(e, lambda: back.initialize_offsets(pos), "older.initialize_offsets")
                e.prove(eq(end, want.pos), "older.initialize_offsets")
                wr = GhostWriter(pos)
                run(e, lambda: back.write(wr), "older.write")
                e.prove(eq(wr.pos, want.pos), "older.write.end")
                items_equal(e, wr.items, want.items, "older.write")
                _, back2 = run(e, lambda: type(obj).from_reader(GhostReader(want.items, pos, want.pos)), "older.read")
                e.prove(bool(back == back2) and bool(back2 == back), "older.equal")
                e.prove(not bool(back == obj) and not bool(obj == back), "older.differs")
            e.reach("end")
    return fn


def mask_case(d):
    """Bitmask values: exactly those of the type; operators work on the bits; equality and named values."""
    def fn(e):
        w = world()
        s = w["schema"]
        c = w["gen"].classes[d.name]
        lo, hi = zs.limits(s.int_kind(s.resolve(d.type)))
        with contract_patch():
            any_value = e.bv("any", -(1 << 66), 1 << 66)
            raised, m = run(e, lambda: c.from_value(any_value), "from_value", PRE())
            e.prove(eq(raised, Not(And(any_value >= 0, any_value <= hi))), "from_value.range")
            a, b = e.bv("a", 0, hi), e.bv("b", 0, hi)
            x, y = c.from_value(a), c.from_value(b)
            e.prove(eq(x.value, a), "value")
            for nm, f, want in (("or", lambda: x | y, a | b), ("and", lambda: x & y, a & b), ("xor", lambda: x ^ y, a ^ b),
                                ("invert", lambda: ~x, hi - a)):
                _, r = run(e, f, nm)
                e.prove(eq(r.value, want), "operator." + nm)
                e.prove(type(r) is c, "operator.type")
            same_ = bool(x == y)
            e.prove(eq(same_, eq(a, b)), "equality")
            if same_:
                e.prove(hash_same(_hash_of(x), _hash_of(y)), "hash.equal")
            for n, v in s.items(d):
                e.prove(getattr(c.Values, n).value == v, "named-value", n)
            e.reach("end")
    return fn


def enum_case(d):
    """Enumeration items have the values of the schema and are found by name and by value, nothing else is."""
    def fn(e):
        w = world()
        s = w["schema"]
        c = w["gen"].classes[d.name]
        items = s.items(d)
        with contract_patch():
            e.prove([(i.name, i.value) for i in c] == items, "items", "%s" % [(i.name, i.value) for i in c])
            for n, v in items:
                e.prove(c.from_name(n) is c(v) and c(v).value == v, "by-name", n)
                for n2, v2 in items:
                    e.prove((c(v) == c(v2)) == (n == n2), "equality")
                e.prove(hash_same(_hash_of(c(v)), _hash_of(c.from_name(n))), "hash.equal")
            for bad in ("", "NO_SUCH", items[0][0].lower() + "x"):
                raised, _ = run(e, lambda: c.from_name(bad), "from_name", PRE())
                e.prove(raised, "from_name.rejects")
            e.reach("end")
    return fn


def prepare():
    ns()
    world()
    world("range")


def uses(rt, what, seen=()):
    """Does some field reachable from rt satisfy what(field, resolved type)?"""
    s = world()["schema"]
    d = s.decl(rt)
    for f in d.fields:
        t = s.resolve_deep(s.resolve(f.type, s.tenv(rt)), s.tenv(rt))
        if what(f, t):
            return True
        dd = s.decl(t)
        if dd is not None and dd.k in ("struct", "union", "choice") and dd.name not in seen and \
                uses(t, what, seen + (dd.name,)):
            return True
    return False


def has_offset(f, t):
    return f.__dict__.get("offset") is not None


def has_dynamic(f, t):
    return t.dyn is not None


def plain_int(f, t):
    return f.array is None and bool(world()["schema"].int_kind(t))


def cases(tier):
    prepare()
    s = world()["schema"]
    out = []
    for n, rt in top_types():
        off = uses(rt, has_offset)
        out.append(Case("io:%s" % n, io_case(rt, True, off), limit_s=400))
        out.append(Case("reject:%s" % n, io_case(rt, False, off), limit_s=400, expect_reach=True))
        out.append(Case("equal:%s" % n, eq_case(rt), limit_s=400))
        if not off and n not in RANGE_SKIP and not uses(rt, has_dynamic) and uses(rt, plain_int):
            out.append(Case("range:%s" % n, io_case(rt, False, False, True), limit_s=400, expect_reach=False))
        if any(f.extend for f in s.decl(rt).fields if s.decl(rt).k == "struct"):
            out.append(Case("older:%s" % n, older_case(rt), limit_s=400))
    for d in s.decls.values():
        if d.k == "bitmask":
            out.append(Case("mask:%s" % d.name, mask_case(d), limit_s=400))
        elif d.k == "enum":
            out.append(Case("enum:%s" % d.name, enum_case(d), limit_s=400))
    return out


def real_world(variant, runtime):
    d = jbuild.generate_python(SCHEMAS, MAIN, variant_args(variant))
    texts = [open(os.path.join(SCHEMAS, f)).read() for f in sorted(os.listdir(SCHEMAS)) if f.endswith(".zs")]
    return dict(schema=Schema(texts), texts=texts, gen=Generated(d, shims=False, runtime=runtime))


def search(seed, budget, hints):
    from dv import zsbits
    return zsbits.find(real_world, top_types(), fields_same, seed, budget, hints)


def coverage(total, cases, search):
    return dict(programs=len({c.name.split(":", 1)[1] for c in cases}), disagreements_checked=total.obligations,
                evaluations=(search or {}).get("evaluations", 0), samples=[c.name for c in cases[:12]])
