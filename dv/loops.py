"""Loop cutting: a `for` over a symbolic sequence executes its body once for an arbitrary iteration, with an
inductive invariant; the invariant candidates (per state slot) are found by elimination and every one that
remains has been proved to hold initially and to be preserved by the body."""
import ctypes
import dis
import os
import sys
import types
import z3
import z3.z3util
from dv.core import (SInt, LInt, SBool, cur, Unsupported, PathEnd, Restart, zint, is_sym, eq, And, lift, need_width, tobool)
from dv.rope import SSeq, SByteArray, SList, SBytes, Abs, Con, norm, seg_total, split, seq_eq_provable, as_segs

_fast = ctypes.pythonapi.PyFrame_LocalsToFast
_fast.argtypes = [ctypes.py_object, ctypes.c_int]
_fast.restype = None


_DV = os.path.dirname(os.path.abspath(__file__)) + "/"
_FOR = {}


def _is_for(frame):
    """The frame stands at a `for`: its locals are all the state there is (a built-in that iterates keeps state elsewhere)."""
    key = (frame.f_code, frame.f_lasti)
    if key not in _FOR:
        _FOR[key] = any(x.offset == frame.f_lasti and x.opname == "FOR_ITER" for x in dis.get_instructions(frame.f_code))
    return _FOR[key]


class Poison:
    """Value of a temporary after havoc: any use is unsupported."""

    def _no(self, *a, **k):
        raise Unsupported("use of a loop temporary after havoc")
    __getattr__ = __add__ = __radd__ = __sub__ = __bool__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __iter__ = \
        __call__ = __getitem__ = __len__ = __mul__ = __index__ = __str__ = __hash__ = _no

    def __repr__(self):
        return "<poison>"


def set_local(frame, name, value, delete=False):
    loc = frame.f_locals
    if delete:
        loc.pop(name, None)
    else:
        loc[name] = value
    _fast(frame, 1 if delete else 0)


_SKIP_TYPES = (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, str, bytes, float, type(None))


def walk_state(frame, roots):
    """All mutable state slots reachable from the frame's locals and the registered roots.
    Returns dict path -> (getter-container, key, value)."""
    slots = {}
    seen = {}

    def visit(obj, path):
        t = type(obj)
        if t in (int, bool, str, bytes, float, type(None), SInt, LInt, SBool, SBytes, Poison) or isinstance(obj, type) or t.__name__ in ("SText", "SChar"):
            return
        if id(obj) in seen:
            return
        if t is types.MethodType:
            visit(obj.__self__, path + ".__self__")
            return
        if t is types.BuiltinMethodType:
            s = obj.__self__
            if not isinstance(s, types.ModuleType) and s is not None:
                visit(s, path + ".__self__")
            return
        if t is types.FunctionType:
            if obj.__closure__:
                seen[id(obj)] = obj
                for i, c in enumerate(obj.__closure__):
                    try:
                        visit(c.cell_contents, path + ".<cell%d>" % i)
                    except ValueError:
                        pass
            return
        seen[id(obj)] = obj
        if t in (SByteArray, SList):
            slots[path + "!seq"] = ("seq", obj, None, list(obj.segs))
            if t is SList:
                for s in obj.segs:
                    if isinstance(s, Con):
                        for i, it in enumerate(s.items):
                            visit(it, path + "[%d]" % i)
            return
        if t in (list,):
            slots[path + "!list"] = ("list", obj, None, list(obj))
            for i, it in enumerate(obj):
                visit(it, path + "[%d]" % i)
            return
        if t is dict:
            slots[path + "!dict"] = ("dict", obj, None, dict(obj))
            for k, it in obj.items():
                visit(it, path + "[%r]" % (k,))
            return
        if t in (bytearray,):
            slots[path + "!ba"] = ("ba", obj, None, bytes(obj))
            return
        if t in (tuple,):
            for i, it in enumerate(obj):
                visit(it, path + "[%d]" % i)
            return
        if hasattr(obj, "__dict__") and not isinstance(obj, types.ModuleType):
            d = obj.__dict__
            if getattr(obj, "_dv_opaque", False):
                return
            for k in sorted(d):
                v = d[k]
                slots[path + "." + k] = ("attr", obj, k, v)
                visit(v, path + "." + k)

    loc = dict(frame.f_locals)
    for name in sorted(loc):
        if name.startswith("."):
            continue
        v = loc[name]
        slots["L:" + name] = ("local", frame, name, v)
        visit(v, "L:" + name)
    for i, r in enumerate(roots):
        visit(r, "R%d" % i)
    return slots


NUM = (int, SInt, LInt)


def is_num(v):
    return type(v) in (int, SInt, LInt)


def same_value(a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if is_num(a) and is_num(b):
        return cur().must(eq(a, b))
    if ta in (SBool, bool) and tb in (SBool, bool):
        return cur().must(eq(a, b))
    if ta.__name__ in ("SText", "SChar") or tb.__name__ in ("SText", "SChar"):
        return is_text(a) and is_text(b) and text_eq(__import__("dv.text").text.SText.of(a).segs, b)
    if ta in (SBytes,) and tb in (SBytes, bytes):
        return seq_eq_provable(a, b)
    if ta is tb and ta in (str, float, bytes):
        return a == b
    if ta is types.MethodType and tb is types.MethodType:
        return a.__func__ is b.__func__ and a.__self__ is b.__self__
    return False


def is_text(v):
    from dv.text import SText, SChar
    return type(v) in (str, SText, SChar)


def text_eq(segs, v):
    from dv.text import SText
    return seq_eq_provable(SList(list(segs)), SList(list(SText.of(v).segs)))


def same_obj_list(a, b):
    return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))


def subst_elem(v, k, new):
    """v with the z3 Int constant k replaced by new (LInt/int)."""
    nz = zint(new)
    if type(v) is int or type(v) is bool or v is None:
        return v
    if type(v) is SInt:
        from dv.core import sint
        return sint(z3.substitute(v.t, (k, nz)), v.lo, v.hi)
    if type(v) is LInt:
        return LInt.atom(z3.substitute(v.z(), (k, nz)))
    if type(v) is SBool:
        return SBool(z3.substitute(v.t, (k, nz)))
    if hasattr(v, "_dv_subst"):
        return v._dv_subst(k, nz)
    raise Unsupported("cannot generalise loop element %r" % type(v))


def mentions(v, k):
    t = v.t if type(v) in (SInt, SBool) else (v.z() if type(v) is LInt else None)
    if t is None:
        return False
    return not z3.substitute(t, (k, z3.Int("dv!probe"))).eq(t)


class SIter:
    """Iterator over a symbolic number of elements; see module docstring."""

    def __init__(self, n, elem, label="range"):
        self.n, self.elem, self.label = n, elem, label
        self.state = "start"

    def __iter__(self):
        return self

    def __next__(self):
        return self._advance(cur(), sys._getframe(1))

    def _advance(self, e, frame):
        if frame.f_code.co_name in ("<genexpr>",):
            raise Unsupported("symbolic generator expression")
        if frame.f_code.co_filename.startswith(_DV) and not frame.f_code.co_filename.endswith("/comps.py"):
            raise Unsupported("symbolic iteration from inside the verifier")
        if not _is_for(frame):
            raise Unsupported("symbolic iteration by a built-in function")
        if self.state == "start":
            return self._enter(e, frame)
        if self.state == "peeled":
            return self._cut(e, frame)
        if self.state == "body":
            return self._step(e, frame)
        raise StopIteration

    def _enter(self, e, frame):
        _check_not_comprehension(frame)
        # peel the first iteration: locals of the body exist, None-initialised state is gone
        if e.branch(zint(self.n) <= 0):
            self.state = "done"
            raise StopIteration
        self.state = "peeled"
        for h in e.index_hooks:
            h(0)
        return self.elem(0)

    def _key(self, frame):
        e = cur()
        base = (frame.f_code.co_name, frame.f_lasti)
        back = frame.f_back
        while back is not None and back.f_code.co_filename.endswith("/dv/comps.py"):
            back = back.f_back
        if back is not None and not back.f_code.co_filename.startswith(os.path.dirname(_DV[:-1]) + "/"):
            base += (back.f_code.co_name, back.f_lasti)
        occ = e.loop_occ.get(base, 0)
        e.loop_occ[base] = occ + 1
        return base

    def _cut(self, e, frame):
        self.key = self._key(frame)
        self.slots0 = walk_state(frame, e.roots)
        self.cands = e.loop_cands.setdefault(self.key, {})
        self._given()
        self._base(e)
        # exit with exactly one iteration needs no havoc
        if e.branch(zint(self.n) <= 1):
            self.state = "done"
            raise StopIteration
        which = e.choose(2)
        if which == 0:      # arbitrary iteration k, 1 <= k < n
            kk = z3.Int(e.fresh("k"))
            self.kz = kk
            k = LInt.atom(kk)
            e.assume(z3.And(kk >= 1, kk < zint(self.n)))
            for h in e.index_hooks:
                h(k)
            self.k = k
            self._havoc(e, frame, k)
            self.state = "body"
            e.in_body = max(e.in_body, 1)
            self.slotsk = walk_state(frame, e.roots)
            return self.elem(k)
        k = self.n
        for h in e.index_hooks:
            h(k)
        self._havoc(e, frame, k)
        self.state = "done"
        raise StopIteration

    def _given(self):
        """Ghost objects may name the shape their attributes are tried with first."""
        for path, slot in self.slots0.items():
            given = getattr(slot[1], "_dv_given", None) if slot[0] == "attr" else None
            if given and slot[2] in given and path not in self.cands:
                self.cands[path] = ("shape", given[slot[2]])

    def _base(self, e):
        """Base cases (checked under the path condition of the loop entry only)."""
        cands = self.cands
        for path in [p for p in cands if isinstance(p, str)]:
            c, s0 = cands[path], self.slots0.get(path)
            if s0 is None:
                continue
            ok = True
            if c[0] == "shape":
                ok = is_num(s0[3]) and e.must(eq(e.shapes[c[1]](1), s0[3]))
            elif c[0] == "range":
                ok = is_num(s0[3]) and e.must(And(s0[3] >= c[1], s0[3] <= c[2]))
            elif c[0] == "bound":
                lo, hi = e.bounds[c[1]]()
                ok = is_num(s0[3]) and e.must(And(s0[3] >= lo, s0[3] <= hi))
            elif c[0] == "strtop":
                ok = is_text(s0[3])
            elif c[0] == "strshape":
                ok = is_text(s0[3]) and text_eq(e.str_shapes[c[1]](1), s0[3])
            elif c[0] in ("affine", "shiftshape", "ltop"):
                ok = is_num(s0[3])
            elif c[0] == "btop":
                ok = type(s0[3]) in (bool, SBool)
            elif c[0] == "brel":
                o = self.slots0.get(c[1])
                ok = type(s0[3]) in (bool, SBool) and o is not None and e.must(eq(s0[3], negated(o[3], c[2])))
            elif c[0] == "bshape":
                ok = type(s0[3]) in (bool, SBool) and e.must(eq(e.bshapes[c[1]](1), s0[3]))
            elif c[0] == "seqshape":
                if not (s0[0] == "seq" and seq_eq_provable(SList(list(e.seq_shapes[c[1]](1))), SList(list(s0[3])))):
                    self._next_seq(e, path, s0, s0, s0, c)
                    raise Restart()
            if not ok:
                self._next(e, path, s0, s0[3], s0[3] if c[0] != "range" else s0[3], c)
                raise Restart()
    # -- candidates ---------------------------------------------------------
    def _initial(self, path, slot):
        return ("same",)

    def _value_at(self, e, path, slot, cand, k):
        """Value of a slot at the head of iteration k under a candidate (1 <= k)."""
        kind = cand[0]
        v0 = slot[3]
        if kind == "affine":
            return v0 + cand[1] * (k - 1)
        if kind == "shape":
            return e.shapes[cand[1]](k)
        if kind == "bshape":
            return e.bshapes[cand[1]](k)
        if kind == "shiftshape":
            return v0 + e.shapes[cand[1]](k) - e.shapes[cand[1]](1)
        if kind == "top":
            if is_num(v0):
                if type(v0) is SInt or type(v0) is int:
                    raise Unsupported("havoc of integer without bounds")
                return e.int("hv", register=False)
            return Poison()
        if kind == "ltop":
            return e.int("hv", register=False)
        if kind == "btop":
            return e.bool("hvb", register=False)
        if kind == "brel":
            if cand[1] not in self.havocked:
                raise Unsupported("related truth value is not in the loop state")
            return negated(self.havocked[cand[1]], cand[2])
        if kind == "range":
            return e.bv("hv", cand[1], cand[2], register=False)
        if kind == "bound":
            lo, hi = e.bounds[cand[1]]()
            v = e.int("hv", register=False)
            e.assume(tobool(And(v >= lo, v <= hi)))
            return v
        if kind == "strshape":
            from dv.text import SText
            return SText(list(e.str_shapes[cand[1]](k)))
        if kind == "strtop":
            from dv.text import SText
            f = z3.Function(e.fresh("hvtext"), z3.IntSort(), z3.BitVecSort(21))
            from dv.core import from_ubits
            return SText([Abs(lambda j: from_ubits(f(zint(j))), e.int("hvlen", 0, register=False))])
        if kind == "poison":
            return Poison()
        raise AssertionError(kind)

    def _havoc(self, e, frame, k):
        self.havocked = {}
        order = sorted(self.slots0.items(), key=lambda ps: self.cands.get(ps[0], ("same",))[0] == "brel")
        for path, slot in order:
            cand = self.cands.get(path, ("same",))
            if cand[0] == "same":
                continue
            skind, obj, key, v0 = slot
            if skind == "seq":
                obj.segs = norm(self._seq_at(e, slot, cand, k))
                continue
            if skind in ("list", "dict", "ba"):
                raise Unsupported("loop modifies a concrete container")
            v = self._value_at(e, path, slot, cand, k)
            self.havocked[path] = v
            if skind == "local":
                set_local(frame, key, v)
            elif skind == "attr":
                obj.__dict__[key] = v

    def _seq_at(self, e, slot, cand, k):
        """Segments of a sequence slot at head of iteration k; v0 is its content at iteration 1 (after the peel)."""
        v0 = slot[3]
        if cand[0] == "append":
            f = cand[1]
            return list(v0) + [Abs(lambda j, f=f: f(j + 1), k - 1)]
        if cand[0] == "seqshape":
            return list(cur().seq_shapes[cand[1]](k))
        if cand[0] == "overwrite":
            off, f = cand[1], cand[2]
            left, right = split(v0, off + 0)
            _, right = split(right, k - 1)
            return list(left) + [Abs(lambda j, f=f: f(j + 1), k - 1)] + list(right)
        raise Unsupported("sequence havoc")

    def _step(self, e, frame):
        """End of the body: every candidate must be re-established for k + 1."""
        k1 = self.k + 1
        for h in e.index_hooks:
            h(k1)
        now = walk_state(frame, e.roots)
        changed = False
        def stage(it):
            return 2 if it[1][0] == "seq" or is_text(it[1][3]) else 1 if type(it[1][3]) in (bool, SBool) else 0
        last = 0
        for path, slot in sorted(self.slotsk.items(), key=stage):
            if stage((path, slot)) > last:
                if changed:
                    break       # truth values, then sequences, only once the integer candidates are stable
                last = stage((path, slot))
            if path not in self.slots0:
                continue
            cand = self.cands.get(path, ("same",))
            s0 = self.slots0[path]
            cur_slot = now.get(path)
            if slot[0] in ("seq",):
                if cur_slot is None or cur_slot[1] is not slot[1]:
                    # the container object itself was replaced; handled by the attr/local slot
                    continue
                if cand[0] == "same":
                    good = seq_same(slot[3], cur_slot[3])
                else:
                    good = seq_eq_provable(SList(list(self._seq_at(e, s0, cand, k1))), SList(list(cur_slot[3])))
                if not good:
                    self._next_seq(e, path, s0, slot, cur_slot, cand)
                    changed = True
                continue
            if slot[0] == "list":
                if cur_slot is None or not same_obj_list(slot[3], cur_slot[3]):
                    raise Unsupported("loop body changes a list of concrete length (%s)" % path)
                continue
            if slot[0] == "dict":
                if cur_slot is None or slot[3].keys() != cur_slot[3].keys():
                    raise Unsupported("loop body changes a dict (%s)" % path)
                continue
            if slot[0] == "ba":
                if cur_slot is None or slot[3] != cur_slot[3]:
                    raise Unsupported("loop body changes a concrete bytearray")
                continue
            vk = slot[3]
            v1 = cur_slot[3] if cur_slot is not None else Poison()
            if cand[0] in ("poison", "top", "ltop", "btop"):
                continue
            if cand[0] == "bound":
                lo, hi = e.bounds[cand[1]]()
                if is_num(v1) and e.must(And(v1 >= lo, v1 <= hi)):
                    continue
                self._next(e, path, s0, vk, v1, cand)
                changed = True
                continue
            if cand[0] == "brel":
                o = now.get(cand[1])
                if type(v1) in (bool, SBool) and o is not None and type(o[3]) in (bool, SBool) and e.must(eq(v1, negated(o[3], cand[2]))):
                    continue
                self._next(e, path, s0, vk, v1, cand)
                changed = True
                continue
            if cand[0] == "strtop" and is_text(v1):
                continue
            if cand[0] == "strshape":
                if is_text(v1) and text_eq(e.str_shapes[cand[1]](k1), v1):
                    continue
                self._next(e, path, s0, vk, v1, cand)
                changed = True
                continue
            if cand[0] == "range":
                if is_num(v1) and e.must(And(v1 >= cand[1], v1 <= cand[2])):
                    continue
            elif cand[0] == "same":
                if same_value(vk, v1):
                    continue
            else:
                want = self._value_at(e, path, s0, cand, k1)
                if (is_num(v1) or cand[0] == "bshape" and type(v1) in (bool, SBool)) and e.must(eq(want, v1)):
                    continue
            self._next(e, path, s0, vk, v1, cand)
            changed = True
        if changed:
            raise Restart()
        e.stats.obligations += 1
        e.stats.discharged += 1
        nm = "loop-invariant %s@%d" % self.key[:2]
        e.stats.names[nm] = e.stats.names.get(nm, 0) + 1
        raise PathEnd()

    def _next(self, e, path, s0, vk, v1, cand):
        """Moves a slot to its next candidate."""
        v0 = s0[3]
        order = []
        if is_num(v0) and is_num(v1):
            tried = self.cands.get((path, "tried"), [])
            opts = []
            if cand[0] == "same":
                d = None
                try:
                    d = v1 - vk
                except Unsupported:
                    pass
                if d is not None and type(d) is int:
                    opts.append(("affine", d))
            for i in range(len(e.shapes)):
                opts.append(("shape", i))
            for i in range(len(e.shapes)):
                opts.append(("shiftshape", i))
            for i in range(len(e.bounds)):
                opts.append(("bound", i))
            for o in opts:
                if o in tried:
                    continue
                tried.append(o)
                self.cands[(path, "tried")] = tried
                self.cands[path] = o
                self._retry_texts()
                return
            # bounded integers: keep a range if the value is a bit-vector
            if type(v1) is SInt or type(v0) is SInt or type(vk) is SInt:
                los = [x.lo if type(x) is SInt else x for x in (v0, v1) if type(x) in (SInt, int)]
                his = [x.hi if type(x) is SInt else x for x in (v0, v1) if type(x) in (SInt, int)]
                rng = ("range", min(los), max(his))
                n = sum(1 for t in tried if t[0] == "range")
                if n < 4 and rng not in tried:
                    tried.append(rng)
                    self.cands[(path, "tried")] = tried
                    self.cands[path] = rng
                    return
                raise Unsupported("no invariant for integer %s" % path)
            self.cands[path] = ("ltop",)
            return
        if type(v0) in (bool, SBool) and type(v1) in (bool, SBool):
            tried = self.cands.setdefault((path, "tried"), [])
            for i in range(len(e.bshapes)):
                if ("bshape", i) not in tried:
                    tried.append(("bshape", i))
                    self.cands[path] = ("bshape", i)
                    return
            for other, c in list(self.cands.items()):
                if isinstance(other, str) and other != path and c == ("btop",):
                    for neg in (True, False):
                        if ("brel", other, neg) not in tried:
                            tried.append(("brel", other, neg))
                            self.cands[path] = ("brel", other, neg)
                            return
            self.cands[path] = ("btop",)
            return
        if is_text(v0) and is_text(v1):
            tried = self.cands.setdefault((path, "tried"), [])
            for i in range(len(e.str_shapes)):
                if ("strshape", i) not in tried:
                    tried.append(("strshape", i))
                    self.cands[path] = ("strshape", i)
                    return
            self.cands[path] = ("strtop",)
            return
        self.cands[path] = ("poison",)

    def _retry_texts(self):
        """Text candidates were judged under a wrong position candidate: start them again."""
        for p in [p for p, c in self.cands.items() if isinstance(p, str) and c[0] in ("strshape", "strtop")]:
            del self.cands[p]
            self.cands.pop((p, "tried"), None)

    def _next_seq(self, e, path, s0, slot, cur_slot, cand):
        tried = self.cands.setdefault((path, "tried"), [])
        for i in range(len(e.seq_shapes)):
            if ("seqshape", i) not in tried:
                tried.append(("seqshape", i))
                self.cands[path] = ("seqshape", i)
                return
        if cand[0] == "seqshape":
            # none of the given shapes fits: start again with the recognised patterns
            if ("seqsame",) in tried:
                raise Unsupported("no invariant for sequence %s" % path)
            tried.append(("seqsame",))
            self.cands[path] = ("same",)
            return
        if cand[0] != "same":
            raise Unsupported("no invariant for sequence %s" % path)
        old, new = slot[3], cur_slot[3]
        # append of one element?
        no, nn = seg_total(old), seg_total(new)
        d = nn - no
        kz = self.kz
        if type(d) is not int:
            d = 0 if e.must(eq(d, 0)) else 1 if e.must(eq(d, 1)) else d
        if type(d) is int and d == 1:
            el = SList(list(new)).at(nn - 1)
            # the element expression must depend on k and loop-invariant values only
            f = lambda j, el=el, kz=kz: subst_elem(el, kz, j)
            f(LInt.atom(z3.Int("dv!j")))
            self.cands[path] = ("append", f)
            return
        if type(d) is int and d == 0:
            # overwrite of element off + k ?  find it by looking for the concrete singleton
            pos = 0
            for s in norm(new):
                if isinstance(s, Con) and len(s.items) >= 1:
                    off = pos - self.k
                    if type(off) is int:
                        el = s.items[0]
                        f = lambda j, el=el, kz=kz: subst_elem(el, kz, j)
                        f(LInt.atom(z3.Int("dv!j")))
                        self.cands[path] = ("overwrite", off + 1, f)
                        return
                pos = pos + s.length()
        raise Unsupported("sequence %s changes in an unrecognised way" % path)


def negated(v, neg):
    if not neg:
        return v
    return SBool(z3.Not(v.t)) if type(v) is SBool else not v


class WhileIter(SIter):
    """Iterator of a transformed `while` loop: `for _ in dv_while(): if not COND: break; BODY`.  Without a ghost bound
    nothing is assumed about the number of iterations; with one, k <= bound is a proved invariant."""

    def __init__(self):
        SIter.__init__(self, None, lambda k: None, "while")

    _dv_opaque = True
    count = 0
    at_exit = False
    endless = False
    seen = 0

    def __next__(self):
        e = engine()
        if e is None:
            return self
        frame = sys._getframe(1)
        if e.cut_while:
            self._advance(e, frame)
        elif self.where(frame) in e.cut_loops:
            self.auto, self.where_key = True, self.where(frame)
            if self.state == "last":
                for h in e.index_hooks:
                    h(self.last + 1)
                self.state, self.at_exit = "first", True
            else:
                self._advance(e, frame)
        else:
            self.frame_key = self.where(frame)
            if self.endless:
                self.count += e.nbranch > self.seen
                self.seen = e.nbranch
                if self.count > 72:
                    e.cut_loops.add(self.frame_key)
                    raise Restart()
        return self

    auto = False
    frame_key = None

    @staticmethod
    def where(frame):
        return (frame.f_code.co_filename, frame.f_code.co_name, frame.f_lasti)

    def cond(self, c):
        """The value of the loop condition.  A loop that goes on and on because of symbolic conditions is cut from then on."""
        e = engine()
        if e is None or e.cut_while:
            return c
        if not self.auto:
            before = e.nbranch
            r = bool(c)
            if r and (e.nbranch > before or type(c) is SBool):
                self.count += 1
                if self.count > (14 if is_position(c) else 72):
                    e.cut_loops.add(self.frame_key)
                    raise Restart()
            return r
        if self.state == "body" and not self.at_exit:
            self._sign(e, c)
            self.last = self._last(e, c)
            if self.variant == 1:
                if self.last is None:
                    raise PathEnd()
                e.assume(zint(self.last) >= 1)
                for h in e.index_hooks:
                    h(self.last)
                self._havoc(e, sys._getframe(1), self.last)
                self.state = "last"
                return True
            if not bool(c):
                raise PathEnd()         # leaving after k iterations is covered by the iteration before
            return True
        self._sign(e, c)
        r = bool(c)
        if not r and self.state == "body" and self.last is not None and e.must(self.kz == zint(self.last)):
            raise PathEnd()             # covered by the case of the last iteration
        if r and self.at_exit:
            raise PathEnd()         # going on is covered by the arbitrary iteration
        return r

    goal = last = None
    variant = 2

    def _last(self, e, c):
        """The number of the last iteration when the condition alone tells it: the only k with C(k) and not C(k + 1)."""
        t = getattr(c, "t", None)
        u = t
        while u is not None and z3.is_not(u):
            u = u.arg(0)
        if u is None or u.num_args() != 2 or not z3.is_int(u.arg(0)):
            return None
        if any(str(v).startswith("hv") for v in z3.z3util.get_vars(u)):
            return None
        d = u.arg(0) - u.arg(1)
        at = lambda x, n: z3.simplify(z3.substitute(x, (self.kz, n)))
        r = at(d, z3.IntVal(0))
        coef = z3.simplify(at(d, z3.IntVal(1)) - r)
        if not z3.is_int_value(coef) or abs(coef.as_long()) != 1 or not z3.is_true(z3.simplify(d - coef * self.kz == r)):
            return None
        for j in (-1, 0, 1):
            n = z3.simplify((j - r) * coef)
            if e.must(z3.And(at(t, n), z3.Not(at(t, z3.simplify(n + 1))))):
                return lint_of(n)
        return None

    def _sign(self, e, c):
        """A loop that runs while `a != b`: a <= b (or a >= b) as an invariant; its base case (k = 1) and its step are proved."""
        tried = e.loop_cands.setdefault(("sign",) + tuple(self.where_key), [0])
        if self.state != "body" or tried[0] > 1:
            return
        if self.at_exit:
            if self.goal is not None and not e.must(z3.substitute(self.goal, (self.kz, self.kz + 1))):
                tried[0] += 1
                raise Restart()
            return
        t, neg = getattr(c, "t", None), False
        while t is not None and z3.is_not(t):
            t, neg = t.arg(0), not neg
        if t is None or not (z3.is_eq(t) and neg or z3.is_distinct(t) and not neg) or t.num_args() != 2 or not z3.is_int(t.arg(0)) \
                or any(str(v).startswith("hv") for v in z3.z3util.get_vars(t)):
            return
        goal = t.arg(0) <= t.arg(1) if tried[0] == 0 else t.arg(0) >= t.arg(1)
        if not e.must(z3.substitute(goal, (self.kz, z3.IntVal(1)))):
            tried[0] += 1
            raise Restart()
        self.goal = goal
        e.assume(goal)

    def _enter(self, e, frame):
        self.state = "peeled"
        for h in e.index_hooks:
            h(0)
        return None

    def _cut(self, e, frame):
        self.key = self._key(frame)
        self.slots0 = walk_state(frame, e.roots)
        self.cands = e.loop_cands.setdefault(self.key, {})
        self._given()
        self._base(e)
        if self.auto:
            for h in e.index_hooks:
                h(1)
            self.variant = 2 if self.endless else e.choose(3)     # after one iteration, the last iteration, any iteration
            if self.variant == 0:        # leave after exactly one iteration (or not at all: then the path ends in cond)
                self.state, self.at_exit = "first", True
                return None
        kk = z3.Int(e.fresh("k"))
        self.kz = kk
        k = LInt.atom(kk)
        e.assume(kk >= 1)
        if e.while_bound is not None and not self.auto:
            self._check_bound(e, 1)
            e.assume(kk <= zint(self._bound(e)))
        for h in e.index_hooks:
            h(k)
        self.k = k
        self._havoc(e, frame, k)
        self.state = "body"
        e.in_body = max(e.in_body, 1)
        self.slotsk = walk_state(frame, e.roots)
        return None

    def _step(self, e, frame):
        try:
            SIter._step(self, e, frame)
        except PathEnd:
            if self.auto and not self.endless:
                # iteration k + 1 of an arbitrary k: leave here if the condition does not hold any more
                self.at_exit = True
                e.in_body = 0
                return None
            if e.while_bound is not None and not self.auto:
                self._check_bound(e, self.k + 1)
            raise
        except Restart:
            e.while_choice.pop(self.key, None)      # the state invariant changed: try the strongest bound again
            raise

    def _bound(self, e):
        """The ghost bound on the iteration number; of several given ones the first that is inductive."""
        b = e.while_bound
        return b[e.while_choice.get(self.key, 0)] if isinstance(b, (list, tuple)) else b

    def _check_bound(self, e, k):
        b, i = e.while_bound, e.while_choice.get(self.key, 0)
        goal = LInt.of(self._bound(e)) >= k
        if isinstance(b, (list, tuple)) and i + 1 < len(b) and not e.must(goal):
            e.while_choice[self.key] = i + 1
            raise Restart()
        e.prove(goal, "loop.ghost-bound")


def engine():
    from dv import core
    return core._CUR


def lint_of(t):
    """LInt of a z3 integer term (a sum of atoms)."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_add(t):
        r = 0
        for a in t.children():
            r = r + lint_of(a)
        return r
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        return lint_of(t.arg(1)) * t.arg(0).as_long()
    return LInt.atom(t)


def is_position(c):
    """The condition compares positions or lengths (mathematical integers)."""
    t = getattr(c, "t", None)
    while t is not None and z3.is_not(t):
        t = t.arg(0)
    return t is not None and t.num_args() > 0 and z3.is_int(t.arg(0))


class dv_while:
    def __init__(self, endless=False):
        self.endless = endless

    def __iter__(self):
        r = WhileIter()
        r.endless = self.endless
        return r


def seq_same(a, b):
    if len(a) == len(b) and all(x is y for x, y in zip(a, b)):
        return True
    try:
        return seq_eq_provable(SList(list(a)), SList(list(b)))
    except Unsupported:
        return False


_COMP_CACHE = {}


def _check_not_comprehension(frame):
    """PEP 709 inlined comprehensions keep their result on the value stack: refuse to cut those."""
    import dis
    code = frame.f_code
    key = (code, frame.f_lasti)
    r = _COMP_CACHE.get(key)
    if r is None:
        r = False
        ins = list(dis.get_instructions(code))
        for i, x in enumerate(ins):
            if x.offset == frame.f_lasti and x.opname == "FOR_ITER":
                target = x.argval
                for y in ins[i + 1:]:
                    if y.offset >= target:
                        break
                    if y.opname in ("LIST_APPEND", "SET_ADD", "MAP_ADD"):
                        r = True
        _COMP_CACHE[key] = r
    if r:
        raise Unsupported("comprehension over a symbolic sequence")


class SRange:
    def __init__(self, start, stop, step=1):
        if not (type(step) is int and step == 1):
            raise Unsupported("symbolic range with step")
        self.start, self.stop = start, stop

    def dv_len(self):
        n = self.stop - self.start
        if n < 0:
            return 0
        return n

    def __iter__(self):
        n = self.dv_len()
        if type(n) is int:
            return (self.start + i for i in range(n))
        s = self.start
        return SIter(n, lambda k: s + k)

    def __len__(self):
        return int(self.dv_len())
