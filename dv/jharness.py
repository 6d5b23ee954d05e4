"""Shared parts of the checks of the Java runtime: class path built from /repo's current source, symbolic writer
and reader states, and the contracts that callers are verified against."""
import json
import os
import subprocess
import time
import z3
from dv import core, jbuild, jclass, jvm
from dv.core import PathEnd
from dv.jvm import JArr, JThrow, bv, is_z

IO = "zserio/runtime/io/"
WR, RD = IO + "ByteArrayBitStreamWriter", IO + "ByteArrayBitStreamReader"
RT = "zserio/runtime/"
IAE = "java/lang/IllegalArgumentException"
ZE = RT + "ZserioError"
_CP = None


def cp():
    global _CP
    if _CP is None:
        _CP = jclass.ClassPath(os.path.join(jbuild.java_runtime(), "classes"))
    return _CP


def prepare():
    cp()
    driver()


def vm(e):
    return jvm.VM(cp(), e)


def has(cls, name, desc):
    c = cp().find(cls)
    return c is not None and (name, desc) in c.methods


def is_a(v, cls, target):
    return cls is not None and v.isa(cls, target)


def inp(e, name, expr):
    e.inputs[("s:" if z3.is_bv(expr) else "") + name] = expr
    return expr


def jint(e, name, lo=None, hi=None):
    x = inp(e, name, z3.BitVec(name, 32))
    if lo is not None:
        e.assume(x >= lo)
    if hi is not None:
        e.assume(x <= hi)
    return x


def jlong(e, name, lo=None, hi=None):
    x = inp(e, name, z3.BitVec(name, 64))
    if lo is not None:
        e.assume(x >= lo)
    if hi is not None:
        e.assume(x <= hi)
    return x


def run(e, v, fn, name, allowed=()):
    """Executes fn; an exception outside `allowed` is a failed obligation. Returns (exception class or None, result)."""
    try:
        return None, fn()
    except JThrow as t:
        c = t.obj.cls
        if any(v.isa(c, a) for a in allowed):
            return c, None
        e.prove(False, name + ".no-unexpected-exception", c)
        raise PathEnd()


class Writer:
    """A writer in an arbitrary state: any buffer length and content, any byte position, bit offset `off`.
    Logical content: bytes beyond the buffer count as zero (Java zero-initialises what growing adds)."""

    def __init__(self, e, v, off):
        self.e, self.vm, self.off = e, v, off
        self.A = z3.Array("buffer", z3.BitVecSort(32), z3.BitVecSort(8))
        self.L = jint(e, "buffer_length", 0, 2 ** 31 - 9)
        self.P = jint(e, "byte_position", 0, 2 ** 31 - 64)
        e.inputs["bit_offset"] = z3.BitVecVal(off, 32)
        v.init(WR)
        self.w = v.alloc(WR)
        A = self.A
        self.w.f.update(buffer=JArr("B", self.L, base=lambda i: z3.Select(A, i)), bytePosition=self.P, bitOffset=off)

    def old(self, i):
        return z3.If(z3.And(i >= 0, i < self.L), z3.Select(self.A, i), z3.BitVecVal(0, 8))

    def now(self, i):
        b = self.w.f["buffer"]
        n = bv(b.length, 32)
        return z3.If(z3.And(bv(i, 32) >= 0, bv(i, 32) < n), bv(b.raw(i), 8), z3.BitVecVal(0, 8))

    def expect(self, bits, name, frame=True):
        """the bits (a BV, most significant first, or None) were put at the old position, everything else is as before"""
        e, off = self.e, self.off
        n = bits.size() if bits is not None else 0
        end = off + n
        e.prove(bv(self.w.f["bytePosition"], 32) == self.P + end // 8, name + ".byte-position")
        e.prove(bv(self.w.f["bitOffset"], 32) == end % 8, name + ".bit-offset")
        k = (end + 7) // 8
        b = self.w.f["buffer"]
        if n:
            olds = [self.old(self.P + i) for i in range(k)]
            o = z3.Concat(*olds) if k > 1 else olds[0]
            t = 8 * k
            parts = ([z3.Extract(t - 1, t - off, o)] if off else []) + [bits] + \
                ([z3.Extract(t - end - 1, 0, o)] if end < t else [])
            want = z3.Concat(*parts) if len(parts) > 1 else parts[0]
            e.prove(bv(b.length, 32) > self.P + (k - 1), name + ".capacity")
            news = [bv(b.raw(jvm.norm(self.P + i)), 8) for i in range(k)]
            e.prove((z3.Concat(*news) if k > 1 else news[0]) == want, name + ".bits")
        if frame:
            j = z3.BitVec("other_index", 32)
            e.prove(z3.Implies(z3.And(j >= 0, z3.Or(j < self.P, j >= self.P + k)), self.now(j) == self.old(j)), name + ".other-bytes-unchanged")

    def unchanged(self, name):
        self.expect(None, name)


class Reader:
    """A reader over any bytes with any valid size of the last byte, at any byte position, bit offset `off`."""

    def __init__(self, e, v, off, anywhere=True):
        self.e, self.vm, self.off = e, v, off
        self.A = z3.Array("buffer", z3.BitVecSort(32), z3.BitVecSort(8))
        self.L = jint(e, "buffer_length", 0)
        self.P = jint(e, "byte_position", 0)
        self.lb = z3.BitVec("last_byte_bits", 32)
        inp(e, "last_byte_bits", self.lb)
        e.assume(z3.And(self.lb >= 1, self.lb <= 8, z3.Implies(self.L == 0, self.lb == 8)))
        e.inputs["bit_offset"] = z3.BitVecVal(off, 32)
        v.init(RD)
        self.r = v.alloc(RD)
        A = self.A
        self.r.f.update(buffer=JArr("B", self.L, base=lambda i: z3.Select(A, i)), bytePosition=self.P, bitOffset=off,
                        lastByteBits=self.lb, maxPreallocatedArraySize=1024)

    def size(self):
        return z3.SignExt(32, self.L) * 8 - 8 + z3.SignExt(32, self.lb)

    def pos(self):
        return z3.SignExt(32, self.P) * 8 + self.off

    def fits(self, n):
        return self.pos() + n <= self.size()

    def bits(self, n):
        k = (self.off + n + 7) // 8
        bs = [z3.Select(self.A, self.P + i) for i in range(k)]
        o = z3.Concat(*bs) if k > 1 else bs[0]
        t = 8 * k
        return z3.Extract(t - self.off - 1, t - self.off - n, o)

    def at(self, n, name):
        end = self.off + n
        self.e.prove(bv(self.r.f["bytePosition"], 32) == self.P + end // 8, name + ".byte-position")
        self.e.prove(bv(self.r.f["bitOffset"], 32) == end % 8, name + ".bit-offset")


# ---------------------------------------------------------------- contracts used by callers
def ensure_capacity_contract(e, v):
    """Callers of ensureCapacity(n) get: the buffer is longer than position + ceil(n/8), its content is the same
    (new bytes are zero), nothing else changes. Verified by the cases ensureCapacity:* of J01."""
    if not has(WR, "ensureCapacity", "(I)V"):
        return

    def hook(_vm, a):
        w, n = a[0], jvm.norm(a[1])
        p = bv(w.f["bytePosition"], 32)
        nb = bv(n, 32)
        need = p + (z3.LShR(nb, 3) + z3.If(nb & 7 == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)))
        need = z3.simplify(need)
        e.prove(z3.And(nb >= 0, need >= p, need <= 2 ** 31 - 10), "ensureCapacity.precondition")
        old = w.f["buffer"]
        e.fresh_counter += 1
        ln = z3.BitVec("grown_length!%d" % e.fresh_counter, 32)
        e.assume(z3.And(ln > need, ln >= bv(old.length, 32), ln <= 2 ** 31 - 9))
        ol = bv(old.length, 32)
        snap = old.snapshot()
        w.f["buffer"] = JArr("B", ln, base=lambda i: z3.If(z3.And(i >= 0, i < ol), bv(snap.raw(i), 8), z3.BitVecVal(0, 8)))
    v.hooks[(WR, "ensureCapacity", "(I)V")] = hook


class GhostWriter:
    """Contract of the fixed-width writing methods (each verified by J01): the call appends exactly its bits.
    self.bits is the list of appended bit-vectors."""

    def __init__(self, e, v, inner=True):
        self.e, self.vm = e, v
        self.bits = []
        v.init(WR)
        self.w = v.alloc(WR)
        self.w.f["bitOffset"] = jint(e, "bit_offset", 0, 7)
        self.w.f["buffer"] = JArr("B", z3.BitVec("buffer_length", 32))
        self.w.f["bytePosition"] = z3.BitVec("byte_position", 32)
        v.hooks[(WR, "writeBits", "(JI)V")] = self._unsigned
        v.hooks[(WR, "writeSignedBits", "(JI)V")] = self._signed
        for nm, d, n in (("writeByte", "B", 8), ("writeShort", "S", 16), ("writeInt", "I", 32)):
            v.hooks[(WR, nm, "(%s)V" % d)] = lambda _vm, a, n=n: self._put(z3.Extract(n - 1, 0, bv(a[1], 32)))
        v.hooks[(WR, "writeLong", "(J)V")] = lambda _vm, a: self._put(bv(a[1], 64))
        v.hooks[(WR, "writeBool", "(Z)V")] = lambda _vm, a: self._put(z3.If(bv(a[1], 32) != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        if inner and has(WR, "writeBitsImpl", "(JI)V"):
            v.hooks[(WR, "writeBitsImpl", "(JI)V")] = self._raw

    def _put(self, b):
        n = b.size()
        self.bits.append(b)
        f = self.w.f
        end = bv(f["bitOffset"], 32) + n
        f["bytePosition"] = bv(f["bytePosition"], 32) + z3.LShR(end, 3)
        f["bitOffset"] = end & 7

    def _width(self, n):
        n = jvm.norm(n)
        return self.e.concretize(n) if is_z(n) else n

    def _raw(self, _vm, a):
        n = self._width(a[2])
        self.e.prove(1 <= n <= 64, "writeBitsImpl.precondition")
        self._put(z3.Extract(n - 1, 0, bv(a[1], 64)))

    def _unsigned(self, _vm, a):
        n = self._width(a[2])
        v = bv(a[1], 64)
        if not 1 <= n <= 63 or not self.e.branch(z3.simplify(z3.And(v >= 0, v <= (1 << n) - 1))):
            _vm.throw(IAE)
        self._put(z3.Extract(n - 1, 0, v))

    def _signed(self, _vm, a):
        n = self._width(a[2])
        v = bv(a[1], 64)
        ok = z3.BoolVal(True) if n == 64 else z3.And(v >= -(1 << (n - 1)), v <= (1 << (n - 1)) - 1)
        if not 1 <= n <= 64 or not self.e.branch(z3.simplify(ok)):
            _vm.throw(IAE)
        self._put(z3.Extract(n - 1, 0, v))

    def expect(self, want, name):
        n = sum(b.size() for b in self.bits)
        self.e.prove(n == want.size(), name + ".number-of-bits", "%d instead of %d" % (n, want.size()))
        got = z3.Concat(*self.bits) if len(self.bits) > 1 else self.bits[0]
        self.e.prove(got == want, name + ".bits")


class GhostReader:
    """Contract of the fixed-width reading methods (verified by J01): the call returns the next bits or throws
    IOException at the end of the data. self.bits: what was handed out; the stream ends after `limit` bits (None: never)."""

    def __init__(self, e, v, stream, limit=None):
        self.e, self.vm, self.stream, self.pos = e, v, stream, 0
        self.limit = stream.size() if limit is None else limit
        v.init(RD)
        self.r = v.alloc(RD)
        off = jint(e, "bit_offset", 0, 7)
        self.r.f.update(bytePosition=z3.BitVec("byte_position", 32), bitOffset=off, lastByteBits=8, maxPreallocatedArraySize=1024,
                        buffer=JArr("B", z3.BitVec("buffer_length", 32)))
        v.hooks[(RD, "readBits", "(I)J")] = lambda _vm, a: self._get(a[1], 64, False, 63)
        v.hooks[(RD, "readSignedBits", "(I)J")] = lambda _vm, a: self._get(a[1], 64, True, 64)
        for nm, d, n, s in (("readByte", "B", 8, True), ("readUnsignedByte", "S", 8, False), ("readShort", "S", 16, True),
                            ("readUnsignedShort", "I", 16, False), ("readInt", "I", 32, True)):
            v.hooks[(RD, nm, "()" + d)] = lambda _vm, a, n=n, s=s: self._get(n, 32, s, 64)
        v.hooks[(RD, "readUnsignedInt", "()J")] = lambda _vm, a: self._get(32, 64, False, 64)
        v.hooks[(RD, "readLong", "()J")] = lambda _vm, a: self._get(64, 64, True, 64)
        v.hooks[(RD, "readBool", "()Z")] = lambda _vm, a: self._get(1, 32, False, 64)
        if has(RD, "readBitsImpl", "(I)J"):
            v.hooks[(RD, "readBitsImpl", "(I)J")] = lambda _vm, a: self._get(a[1], 64, False, 64)

    def _get(self, n, w, signed, maxn):
        n = jvm.norm(n)
        if is_z(n):
            n = self.e.concretize(n)
        if not 1 <= n <= maxn:
            self.vm.throw(IAE)
        if self.pos + n > self.limit:
            self.vm.throw("java/io/IOException")
        s = self.stream.size()
        b = z3.Extract(s - self.pos - 1, s - self.pos - n, self.stream)
        self.pos += n
        f = self.r.f
        end = bv(f["bitOffset"], 32) + n
        f["bytePosition"] = bv(f["bytePosition"], 32) + z3.LShR(end, 3)
        f["bitOffset"] = end & 7
        if n == w:
            return jvm.norm(b)
        return jvm.norm((z3.SignExt if signed else z3.ZeroExt)(w - n, b))


# ---------------------------------------------------------------- concrete search on the unmodified classes
def driver():
    """Compiles /verif/java against the current runtime; returns the class path."""
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "java")
    rt = jbuild.java_runtime()
    files = jbuild._files(src, suffix=".java")

    def make(dest):
        os.makedirs(os.path.join(dest, "classes"))
        jbuild._run(["javac", "-nowarn", "-encoding", "utf8", "-Xlint:-options", "--release", "8", "-cp", os.path.join(rt, "classes"),
                     "-d", os.path.join(dest, "classes")] + files)
    d = jbuild._cached("jdrv_" + os.path.basename(rt)[4:], files, make)
    return os.path.join(d, "classes") + ":" + os.path.join(rt, "classes")


def search(main, pid, seed, budget, hints, classpath=None):
    t = time.time()
    pool = []
    for h in hints:
        for v in (h.get("model") or {}).values():
            if isinstance(v, int) and not isinstance(v, bool):
                pool.append(v)
    p = subprocess.run(["java", "-Xmx2g", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-cp", classpath or driver(), main, pid, str(seed), str(int(budget * 1000)),
                        ",".join(str(x) for x in pool[:300])], capture_output=True, text=True, timeout=budget * 3 + 120)
    res = dict(evaluations=0)
    for line in p.stdout.splitlines():
        if line.startswith("FAIL "):
            res["failing"] = dict(what=line[5:])
        elif line.startswith("COUNT "):
            res["evaluations"] = int(line[6:])
    if p.returncode not in (0, 1) or not res["evaluations"]:
        res["error"] = (p.stdout + p.stderr)[-1500:]
        if "Exception" in p.stderr and p.returncode == 1 and "failing" not in res:
            res["error"] = p.stderr[-1500:]
    res["seconds"] = round(time.time() - t, 1)
    return res
