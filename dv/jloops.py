"""Loop cutting for dv.jvm: the first iteration runs as it is, then the body runs once for an arbitrary iteration k >= 1 from
a state described by inductive candidates (one per state slot, found by elimination; each that remains is proved to hold at
k = 1 and to be preserved).  Slots: locals of the frame and every field of every object reachable from them."""
import json
import os
import re
import z3
from dv import core
from dv.core import PathEnd, Restart, Unsupported
from dv.jclass import decode
from dv.jvm import JArr, JBig, JObj, JFp, bv, is_z, norm, TOP


TRACE = False


class Poison:
    cls = "poison"

    def __getattr__(self, n):
        raise Unsupported("use of a loop temporary after havoc")


def snap(a):
    return (a.length, tuple(a.conc) if a.conc is not None else None, len(getattr(a, "log", ()) or ()))


def local_kinds(m):
    """slot number -> kind letters with which the method accesses it"""
    out = {}
    for _p, (op, a, _n) in decode(m).items():
        if op[1:5] == "load" and op[0] in "ilafd" or op[1:6] == "store" and op[0] in "ilafd":
            i = a[0] if isinstance(a, tuple) else a
            if "_" in op:
                i = int(op.split("_")[1])
            if isinstance(i, int):
                out.setdefault(i, set()).add(op[0])
        elif op == "iinc":
            i = a[0] if isinstance(a, tuple) else a
            out.setdefault(i, set()).add("i")
    return out


class Cutter:
    """vm.loops entry. n: ghost bound on the number of iterations (BV32 or None)."""

    def __init__(self, e, roots=(), n=None, methods=None):
        self.e, self.roots, self.n = e, list(roots), n
        self.frames = {}
        self.kinds = {}

    def __call__(self, vm, loc, hi, m):
        e = self.e
        key = (id(loc), hi)
        st = self.frames.setdefault(key, dict(arrivals=0, loc=loc))
        st["arrivals"] += 1
        if st["arrivals"] == 1:
            for h in e.index_hooks:
                h(0)
            return None
        if st["arrivals"] == 2:
            self.cut(vm, loc, m, hi, st)
            return None
        self.step(vm, loc, m, hi, st)
        return None

    # -- state -------------------------------------------------------------
    def walk(self, vm, loc, m):
        kinds = self.kinds.setdefault(m, None) or self.kinds.__setitem__(m, local_kinds(m)) or self.kinds[m]
        slots, seen = {}, set()

        def visit(v, path):
            if isinstance(v, JObj):
                if id(v) in seen:
                    return
                seen.add(id(v))
                for f in sorted(v.f, key=str):
                    x = v.f[f]
                    slots[path + "." + str(f)] = ("fld", v, f, x, self.width(vm, v, f, x))
                    visit(x, path + "." + str(f))
            elif isinstance(v, JArr):
                if id(v) in seen:
                    return
                seen.add(id(v))
                slots[path + "[]"] = ("arr", v, None, snap(v), None)
        for i, v in enumerate(loc):
            if v is TOP:
                continue
            w = "l" if kinds.get(i) == {"l"} else "i" if kinds.get(i) == {"i"} else None
            if is_z(v):
                w = {64: "l", 32: "i"}.get(v.size())
            slots["L%d" % i] = ("loc", loc, i, v, w)
            visit(v, "L%d" % i)
        for j, r in enumerate(self.roots):
            visit(r, "R%d" % j)
        for k in sorted(vm.statics, key=str):
            v = vm.statics[k]
            slots["S%s" % (k,)] = ("static", vm.statics, k, v, None)
        return slots

    def width(self, vm, o, f, x):
        if is_z(x):
            return {64: "l", 32: "i"}.get(x.size())
        for n in vm.supers(o.cls):
            c = vm.cls(n)
            if c is not None and f in c.fields:
                d = c.fields[f][1]
                return "l" if d == "J" else "i" if d in "IBSZC" else None
        return "i"

    @staticmethod
    def kind(v, w):
        if v is None:
            return "ref"
        if is_z(v) or type(v) is int:
            return "ref" if is_z(v) and v.size() not in (32, 64) else w or "i"
        if isinstance(v, JBig):
            return "big"
        return "ref"

    # -- candidates --------------------------------------------------------
    def options(self, kind, path):
        e = self.e
        if kind in "il":
            out = [("same",), ("affine",)] + [("shape", i) for i in range(len(e.jshapes[kind]))] + [("top",)]
        elif kind == "big":
            out = [("same",)] + [("bigshape", i) for i in range(len(e.jshapes["big"]))] + [("poison",)]
        else:
            out = [("same",), ("poison",)]
        h = self.hint(path)
        if h is not None and tuple(h) in out:
            # what an earlier run settled on (dv/jhints.json): a guess only, proved like any other candidate
            return [tuple(h)] + out[:-1] + [out[-1]]
        return out

    def at(self, cand, slot, k):
        v0, w = slot[3], slot[4]
        n = 64 if w == "l" else 32
        if cand[0] == "affine":
            return norm(bv(v0, n) + (bv(k, 32) - 1 if n == 32 else z3.ZeroExt(32, bv(k, 32) - 1)))
        if cand[0] == "shape":
            return norm(bv(self.e.jshapes[w][cand[1]](k), n))
        if cand[0] == "bigshape":
            return JBig(self.e.jshapes["big"][cand[1]](k))
        raise AssertionError(cand)

    def holds(self, cand, slot, v, k):
        e = self.e
        kd = self.kind(v, slot[4])
        if cand[0] in ("top", "poison"):
            return True
        if cand[0] == "same":
            return same(e, slot[3], v, slot[4])
        if cand[0] == "bigshape":
            if not isinstance(v, JBig):
                return False
            c = core.eq(v.v, self.at(cand, slot, k).v)
            return c if isinstance(c, bool) else e.must(c)
        if kd not in "il":
            return False
        n = 64 if slot[4] == "l" else 32
        c = z3.simplify(bv(v, n) == bv(self.at(cand, slot, k), n))
        return True if z3.is_true(c) else e.must(c)

    def cand(self, path, slot):
        kd = self.kind(slot[3], slot[4])
        c = self.cands.setdefault(path, [kd, 0])
        if c[0] != kd:
            c[:] = [kd, 0]
        o = self.options(kd, path)
        return o[min(c[1], len(o) - 1)]

    def hint(self, path):
        h = self.hints.get(path)
        if h is None and "." in path:
            # the same field reached through another local
            for p in self.hints:
                if p.split(".")[1:] == path.split(".")[1:]:
                    return self.hints[p]
        return h

    def level(self, path, slot):
        c = self.cand(path, slot)
        if self.hint(path) is not None and self.cands[path][1] == 0:
            return -1
        return {"same": 0, "affine": 1, "shape": 2, "bigshape": 2, "top": 9, "poison": 9}[c[0]]

    def advance(self, failing, slots):
        level = min(self.level(p, slots[p]) for p in failing)
        for p in failing:
            s = slots[p]
            if self.level(p, s) != level:
                continue
            if s[0] in ("arr", "static"):
                raise Unsupported("loop changes %s" % p)
            c = self.cands[p]
            o = self.options(c[0], p)
            c[1] += 1
            while c[1] < len(o) - 1 and not self.holds(o[c[1]], s, s[3], 1):
                c[1] += 1
            if c[1] >= len(o) - 1 and c[0] != "ref" and self.cands.setdefault(("retries", p), 0) < 2:
                # it was judged while other candidates were still wrong: once more from the start
                self.cands[("retries", p)] += 1
                c[1] = 1
        if TRACE:
            print("advance", [(p, self.cand(p, slots[p])) for p in failing])
        self.restart()

    def restart(self):
        """what later loops were found to keep was judged under the old candidates of this one"""
        lc = self.e.loop_cands
        for k in [k for k in lc if isinstance(k, tuple) and len(k) == 4 and lc[k].get("rank", 0) > self.cands["rank"]]:
            lc[k] = {"rank": lc[k]["rank"]}
        raise Restart()

    def facts(self):
        """ghost facts about the first k iterations (formulas of k): kept as long as they are inductive"""
        return self.cands.setdefault("facts", list(range(len(getattr(self.e, "jfacts", ())))))

    def preds(self, path):
        return self.cands.setdefault(("preds", path), list(range(len(self.e.jpreds))))

    def content(self, arr, i, k):
        """After k iterations every element is what e.jarrays[i] says."""
        e = self.e
        j = z3.BitVec(e.fresh("element"), 32)
        n = bv(arr.length, 32)
        if e.must(n == 0):
            return True
        e_ok = z3.And(j >= 0, j < n)
        return e.must(z3.Implies(e_ok, bv(arr.raw(j), arr.w) == e.jarrays[i](k, j)))

    # -- the cut -----------------------------------------------------------
    def cut(self, vm, loc, m, hi, st):
        e = self.e
        self.cands = e.loop_cands.setdefault((m.cls.name, m.name, m.desc, hi), {})
        self.hints = hints_for(e.name).get("%s.%s%s@%d" % (m.cls.name, m.name, m.desc, hi), {})
        if "rank" not in self.cands:
            self.cands["rank"] = 1 + max([c.get("rank", 0) for c in e.loop_cands.values() if isinstance(c, dict)] or [0])
        slots = self.walk(vm, loc, m)
        bad = [p for p, s in slots.items() if not self.holds(self.cand(p, s), s, s[3], 1)]
        keep = [i for i in self.facts() if e.must(e.jfacts[i](z3.BitVecVal(1, 32)))]
        self.cands["facts"] = keep
        if bad:
            self.advance(bad, slots)
        for p, s in slots.items():
            i = self.cands.get(("array", p), -1) if s[0] == "arr" else -1
            if i >= len(getattr(e, "jarrays", ())):
                raise Unsupported("loop writes an array (%s)" % p)
            if i >= 0 and not self.content(s[1], i, z3.BitVecVal(1, 32)):
                self.cands[("array", p)] = i + 1
                self.restart()
        k = z3.BitVec(e.fresh("k"), 32)
        bound = self.n if self.cands.get("bound", True) else None
        if bound is not None and not e.must(z3.UGE(bv(bound, 32), 1)):
            self.cands["bound"] = False
            self.restart()
        e.assume(z3.And(k >= 1, k <= (bv(bound, 32) if bound is not None else 2 ** 31 - 2)))
        # the assumed state must not exclude any iteration (inconsistent ghost assumptions would make everything vacuous)
        guard = k
        if bound is not None and not e.branch(k != bv(bound, 32)):
            k = bv(bound, 32)       # the usual way out, in terms of the bound
            guard = None
        for h in e.index_hooks:
            h(k)
        for p, s in slots.items():
            if s[0] == "arr" and self.cands.get(("array", p), -1) >= 0:
                f = e.jarrays[self.cands[("array", p)]]
                s[1].conc, s[1].log, s[1].base = None, [], lambda i, f=f, k=k: f(k, bv(i, 32))
                continue
            c = self.cand(p, s)
            if c[0] == "same":
                continue
            if c[0] == "poison":
                v = Poison()
            elif c[0] == "top":
                v = z3.BitVec(e.fresh("hv"), 64 if s[4] == "l" else 32)
                keep = []
                for i in self.preds(p):
                    g = e.jpreds[i](bv(s[3], v.size()), z3.BitVecVal(1, 32))
                    if g is not None and e.must(g):
                        keep.append(i)
                self.cands[("preds", p)] = keep
                for i in keep:
                    e.assume(e.jpreds[i](v, k))
            else:
                v = self.at(c, s, k)
            if s[0] == "loc":
                loc[s[2]] = v
            elif s[0] == "fld":
                s[1].f[s[2]] = v
            else:
                raise Unsupported("loop changes %s" % p)
        for p, s in slots.items():
            self.cands[("now", p)] = self.cand(p, s)
        for i in self.facts():
            e.assume(e.jfacts[i](k))
        for i in (1, 2, 3):
            if not e.feasible(k == i) and (guard is not None or i > 1):
                if not e.feasible():
                    raise PathEnd()     # the whole path is impossible
                raise Unsupported("iteration %d is excluded by the assumptions" % i)
        st.update(slots=slots, k=k, bound=bound, cands=self.cands, hints=self.hints)
        e.in_body = max(e.in_body, 1)

    def step(self, vm, loc, m, hi, st):
        e = self.e
        self.cands, self.hints, slots, k = st["cands"], st["hints"], st["slots"], st["k"]
        k1 = z3.simplify(k + 1)
        for h in e.index_hooks:
            h(k1)
        now = self.walk(vm, loc, m)
        bad, arrays = [], []
        for p, s in slots.items():
            c = self.cand(p, s)
            if c[0] in ("poison",):
                continue
            t = now.get(p)
            if t is None:
                # unreachable now: only harmless for what hangs below a replaced reference
                if s[0] == "arr" and snap(s[1]) != s[3] or s[0] == "fld":
                    bad.append(p) if s[0] == "fld" and not self.holds(c, s, s[1].f[s[2]], k1) else None
                continue
            if s[0] == "arr":
                if t[1] is not s[1]:
                    raise Unsupported("loop replaces an array (%s)" % p)
                arrays.append((p, s, t))
                continue
            v = t[3]
            if c[0] == "top":
                keep = [i for i in self.preds(p) if e.must(e.jpreds[i](bv(v, 64 if s[4] == "l" else 32), k1))] if self.kind(v, s[4]) in "il" else []
                if keep != self.preds(p):
                    self.cands[("preds", p)] = keep
                    self.restart()
                continue
            if not self.holds(c, s, v, k1):
                bad.append(p)
        if bad:
            self.advance(bad, slots)
        for p, s, t in arrays:
            i = self.cands.get(("array", p), -1)
            if i < 0 and t[3] != s[3] or i >= 0 and not self.content(s[1], i, k1):
                self.cands[("array", p)] = i + 1
                self.restart()
        keep = [i for i in self.facts() if e.must(e.jfacts[i](k1))]
        if keep != self.facts():
            self.cands["facts"] = keep
            self.restart()
        if st["bound"] is not None and not e.must(k1 <= bv(st["bound"], 32)):
            self.cands["bound"] = False
            self.restart()
        e.stats.obligations += 1
        e.stats.discharged += 1
        nm = "loop-invariant %s.%s@%d" % (m.cls.name.split("/")[-1], m.name, hi)
        e.stats.names[nm] = e.stats.names.get(nm, 0) + 1
        raise PathEnd()


_HINTS = None
HINT_FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "jhints.json")


def hint_key(name):
    m = re.search(r"width-(\d+)", name)
    return name if not m or int(m.group(1)) == 0 else name.replace(m.group(0), "width-N")


def hints_for(name):
    global _HINTS
    if _HINTS is None:
        _HINTS = json.load(open(HINT_FILE)) if os.path.exists(HINT_FILE) else {}
    return _HINTS.get(hint_key(name), {})


def settled(e):
    """the candidates a finished exploration ended with"""
    out = {}
    for k, c in e.loop_cands.items():
        if isinstance(k, tuple) and len(k) == 4:
            d = {p[1]: list(v) for p, v in c.items() if isinstance(p, tuple) and p[0] == "now"}
            out["%s.%s%s@%d" % k] = {p: v for p, v in d.items() if v[0] not in ("same",)}
    return {k: v for k, v in out.items() if v}


def same(e, a, b, w):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a == b
    if isinstance(a, JBig) and isinstance(b, JBig):
        c = core.eq(a.v, b.v)
        return c if isinstance(c, bool) else e.must(c)
    num = lambda x: is_z(x) or type(x) is int
    if num(a) and num(b) and w:
        n = 64 if w == "l" else 32
        if is_z(a) and a.size() != n or is_z(b) and b.size() != n:
            return False
        c = z3.simplify(bv(a, n) == bv(b, n))
        return True if z3.is_true(c) else (False if z3.is_false(c) else e.must(c))
    if num(a) and num(b) and not is_z(a) and not is_z(b):
        return a == b
    return isinstance(a, str) and a == b
