"""Shared parts of the checks of the C++ runtime: modules built from /repo's current source, canonical reader and writer
states built through the public interface only, and the contract of the bit reader its callers are verified against."""
import json
import os
import re
import subprocess
import time
import z3
from dv import core, cxx, llvm
from dv.llvm import Lin, CThrow, Ptr, Obj, bv, is_z, norm

TRUSTED = ["clang++ 18 -O0 (the verified text is its LLVM IR for the current source, x86-64)", "dv.llvm: LLVM IR semantics (wrap-around, memory objects, exceptions as outcomes); "
           "texts of exceptions are not modelled", "z3"]
TECHNIQUE = "deductive: contracts on the real C++ functions, obligations generated by symbolic execution of their LLVM IR (clang -O0 of the current source), discharged by z3"
ATOM = 1 << 56


def prepare():
    cxx.modules()
    cxx.driver()


def vm(e):
    return llvm.VM(cxx.modules(), e)


def inp(e, name, w, signed=False):
    x = z3.BitVec(name, w)
    e.inputs[("s:" if signed else "") + name] = x
    return x


def atom(e, name, hi=ATOM):
    a = Lin.atom(name, hi)
    t = Lin.atoms[name][2]
    e.inputs[name] = t
    e.assume(z3.ULE(t, hi))
    return a


def same(a, b):
    """True, False, or a z3 condition."""
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.o is b.o and same(a.off, b.off)
    if isinstance(a, (Ptr, llvm.Fn)) or isinstance(b, (Ptr, llvm.Fn)) or a is llvm.UNDEF or b is llvm.UNDEF:
        return False
    if isinstance(a, Lin) and isinstance(b, Lin) and a.key() == b.key():
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    w = a.size() if is_z(a) else b.size() if is_z(b) else 64
    x, y = bv(a, w), bv(b, w)
    if x.eq(y):
        return True
    return x == y


def run(e, f, name, exc=("CppRuntimeException",)):
    """(exception or None, result); an exception of another kind violates the contract."""
    try:
        return None, f()
    except CThrow as x:
        e.prove(any(k in x.typ for k in exc), name + ".exception-kind", x.typ)
        return x, None


def same_cells(e, a, b, name, skip=()):
    e.prove(set(a) == set(b), name + ".layout")
    for off in a:
        if off not in skip:
            e.prove(a[off][0] == b[off][0] and True, name + ".layout")
            e.prove(same(a[off][1], b[off][1]), name, "bytes at %d: %r, expected %r" % (off, a[off][1], b[off][1]))


def window(buf, base, nbits):
    """The first nbits of the buffer from byte base on, as one bit-vector before any write."""
    n = (nbits + 7) // 8
    bs = [buf.o.first(base + i) for i in range(n)]
    w = bs[0] if n == 1 else z3.Concat(*bs)
    return w


def take(w, start, n):
    hi = w.size() - 1 - start
    return z3.Extract(hi, hi - n + 1, w)


# ---------------------------------------------------------------- reader
class Reader:
    """A reader in the canonical state [q, k]: positioned at byte q, then k bits read. rem: number of bits of the buffer
    from byte q on, or None together with z: 128 + 8y + z for any y."""

    def __init__(self, e, v, q, rem, z=0, name="buf"):
        self.e, self.v, self.q = e, v, q
        if rem is None:
            y = atom(e, "y")
            self.bits = q * 8 + y * 8 + (128 + z)
            self.nb = q + y + (16 + (z + 7) // 8) + atom(e, "s")
        else:
            self.bits = q * 8 + rem
            self.nb = q + (rem + 7) // 8 + atom(e, "s")
        self.buf = v.buffer(name, self.nb, True)
        self.p = v.alloc("reader", v.call("h_reader_size"))
        v.call("h_reader_init", self.p, self.buf, self.nb, self.bits)

    def cells(self):
        return dict(self.p.o.cells)

    def restore(self, cells):
        self.p.o.cells = dict(cells)

    def call(self, f, *a):
        return self.v.call(f, self.p, *a)


def stale(e, v):
    """Offsets and sizes of the parts of a reader that setBitPosition does not determine (a stale cache)."""
    p, d = atom(e, "p"), atom(e, "d")
    r = Reader(e, v, p + d, None, name="scratch")
    init = r.cells()
    r.call("h_reader_set", (p + d) * 8)
    a = r.cells()
    r.restore(init)
    r.call("h_reader_set", p * 8)
    r.call("h_readBits64", 64)
    r.call("h_reader_set", (p + d) * 8)
    b = r.cells()
    return {off: a[off][0] for off in a if b.get(off, (0,))[0] != a[off][0] or same(a[off][1], b[off][1]) is not True}


def havoc(r, parts, tag=""):
    for off, n in parts.items():
        r.p.o.cells[off] = (n, z3.BitVec("stale%s%d" % (tag, off), 8 * n))


def canonical(r, q, k, parts):
    """Cells of the state [q, k] of reader r."""
    keep = r.cells()
    r.call("h_reader_set", q * 8)
    havoc(r, parts)
    if k:
        r.call("h_readBits64", k)
    c = r.cells()
    r.restore(keep)
    return c


READ_IMPL = re.compile(r"^_ZN6zserio12_GLOBAL__N_112readBitsImplE")


def read_impl():
    for m in cxx.modules():
        for n in m.ftext:
            if READ_IMPL.match(n):
                f = m.func(n)
                if len(f.params) == 2:
                    return n
    return None


class GhostReader:
    """Contract of readBitsImpl (discharged by C01): the next n bits (1..64), or an exception when fewer are left. The reader
    is opaque to the caller: what it does to it besides is checked by untouched()."""

    def __init__(self, e, bits, limit=None):
        self.e, self.bits, self.pos = e, bits, 0
        self.limit = bits.size() if limit is None else limit
        self.v = vm(e)
        self.v.hooks[read_impl()] = self.hook
        self.r = Reader(e, self.v, atom(e, "q"), None)
        self.before = self.r.cells()
        self.eof = False

    def hook(self, _vm, args, _name):
        e = self.e
        n = args[1]
        if not isinstance(n, int):
            n = e.concretize(n) & 255
        e.prove(isinstance(args[0], Ptr) and args[0].o is self.r.p.o, "readBitsImpl.on-this-reader")
        e.prove(1 <= n <= 64, "readBitsImpl.width-precondition", n)
        e.prove(not self.eof, "readBitsImpl.not-after-eof")
        if self.pos + n > self.limit:
            self.eof = True
            raise CThrow("_ZTIN6zserio19CppRuntimeExceptionE")
        x = take(self.bits, self.pos, n)
        self.pos += n
        return norm(z3.ZeroExt(64 - n, x) if n < 64 else x)

    def call(self, f, *a):
        return self.r.call(f, *a)

    def untouched(self, name):
        same_cells(self.e, self.r.cells(), self.before, name + ".reader-only-through-contract")


# ---------------------------------------------------------------- writer
class Writer:
    """A writer at bit position 8q+r with room for exactly `room` more bits (int), or room + 8y + z for any y."""

    def __init__(self, e, v, r, room, z=None):
        self.e, self.v, self.r = e, v, r
        self.q = atom(e, "q")
        self.P = self.q * 8 + r
        c = r + room + (z or 0)
        self.bits = self.q * 8 + c
        self.nb = self.q + (c + 7) // 8 + atom(e, "s")
        if z is not None:
            y = atom(e, "y")
            self.bits = self.bits + y * 8
            self.nb = self.nb + y
        self.buf = v.buffer("buf", self.nb)
        self.p = v.alloc("writer", v.call("h_writer_size"))
        v.call("h_writer_init", self.p, self.buf, self.nb, self.bits)
        v.call("h_writer_set", self.p, self.P)

    def call(self, f, *a):
        return self.v.call(f, self.p, *a)

    def expect(self, bits, name):
        """Exactly these bits were stored from the position on, everything else kept, position advanced."""
        e, n = self.e, bits.size()
        e.prove(same(self.call("h_writer_get"), self.P + n), name + ".position")
        got = dict(self.p.o.cells)
        self.call("h_writer_set", self.P + n)
        same_cells(e, got, self.p.o.cells, name + ".state")
        w = window(self.buf, self.q, self.r + n)
        parts = ([take(w, 0, self.r)] if self.r else []) + [bits]
        tail = w.size() - self.r - n
        if tail:
            parts.append(z3.Extract(tail - 1, 0, w))
        want = z3.simplify(z3.Concat(*parts) if len(parts) > 1 else parts[0])
        m = w.size() // 8
        for i in range(m):
            e.prove(same(self.buf.o.get(self.q + i), norm(take(want, 8 * i, 8))), name + ".bits")
        self.others(name, range(m))

    def others(self, name, inside=()):
        ok = {(self.q + i).key() for i in inside}
        for k, x in self.buf.o.log.items():
            if k not in ok:
                self.e.prove(same(x, self.buf.o.first(Lin(*k) if k[0] else k[1])), name + ".other-bytes-kept", str(k))


# ---------------------------------------------------------------- concrete runs on the compiled runtime
class Driver:
    """The sanitized driver as a child process: one request per line, one answer per line."""

    def __init__(self):
        self.exe = cxx.driver()
        self.p = None

    def ask(self, *words):
        if self.p is None or self.p.poll() is not None:
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
            self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1, env=env)
        line = " ".join(str(w) for w in words)
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
            r = self.p.stdout.readline()
        except BrokenPipeError:
            r = ""
        if not r:
            err = self.p.stderr.read()
            m = re.search(r"(runtime error: [^\n]*|AddressSanitizer: [^\n]*)", err)
            self.p.wait()
            self.p = None
            return "CRASH " + (m.group(1) if m else err[-300:].replace("\n", " "))
        return r.strip()

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
