"""C01  fixed-width integers of the C++ runtime."""
import random
import time
import z3
from dv import core, cxharness as h
from dv.cxharness import Reader, Writer, GhostReader, run, same, atom, take, window, norm, bv
from dv.runner import Case

TECHNIQUE = "deductive: contracts on the real C++ functions, obligations generated by symbolic execution of their LLVM IR (clang -O0 of the current source), discharged by z3"
FUNCTIONS = ["BitStreamReader::" + f for f in ("BitStreamReader(Span, bits)", "BitStreamReader(ptr, bytes)", "BitStreamReader(ptr, bits, BitsTag)", "readBits", "readBits64", "readSignedBits",
                                               "readSignedBits64", "readBool", "setBitPosition", "getBitPosition", "getBufferBitSize", "alignTo", "readBitsImpl (contract)", "loadCacheNext (inlined)", "readSignedBitsImpl (inlined)")] + \
    ["BitStreamWriter::" + f for f in ("BitStreamWriter(Span, bits)", "BitStreamWriter(ptr, bytes)", "BitStreamWriter(ptr, bits, BitsTag)", "writeBits", "writeBits64", "writeSignedBits", "writeSignedBits64",
                                       "writeBool", "setBitPosition", "getBitPosition", "alignTo", "writeUnsignedBits (inlined)", "writeUnsignedBits64 (inlined)", "checkCapacity (inlined)")]
TRUSTED = h.TRUSTED
ASSUMPTIONS = ["byte positions and buffer sizes below 2^57 (the reader itself refuses buffers of 2^61 bytes and more)", "a reader is not used after it has thrown at the end of the buffer",
               "ZSERIO_RUNTIME_64BIT (the 32-bit variants of the functions are not compiled on this machine)",
               "alignTo of the reader starts from positions reached by setBitPosition; alignments 1..64"]
NOTE = "every obligation discharged for all values, contents, buffer sizes and byte positions; widths, bit offsets, cache fill and remaining bits enumerated exhaustively"
prepare = h.prepare
SEARCH_S = 10


# ---------------------------------------------------------------- reader
def read64(k):
    """readBits64(n) in every state [q, k], for every number of remaining bits: value, position, next state, end of buffer"""
    def fn(e):
        v = h.vm(e)
        mode = e.pick(8 + 128 - k) if k <= 64 else 0
        rem, z = (None, mode) if mode < 8 else (k + mode - 8, 0)
        parts = h.stale(e, v)
        q = atom(e, "q")
        r = Reader(e, v, q, rem, z)
        start = h.canonical(r, q, k, parts)
        r.restore(start)
        e.prove(same(r.call("h_reader_get"), q * 8 + k), "getBitPosition")
        e.prove(same(r.call("h_reader_bits"), r.bits), "getBufferBitSize")
        canon = {}
        for n in range(1, 65):
            r.restore(start)
            ex, x = run(e, lambda: r.call("h_readBits64", n), "readBits64")
            fits = rem is None or k + n <= rem
            if ex:
                e.prove(not fits, "readBits64.accepted-before-the-end", "%d bits at %d of %s" % (n, k, rem))
                continue
            e.prove(fits, "readBits64.rejected-beyond-the-end", "%d bits at %d of %s" % (n, k, rem))
            want = take(window(r.buf, q, k + n), k, n)
            e.prove(same(x, norm(z3.ZeroExt(64 - n, want) if n < 64 else want)), "readBits64.value", "%d bits at %d of %s" % (n, k, rem))
            e.prove(same(r.call("h_reader_get"), q * 8 + k + n), "readBits64.position")
            after = r.cells()
            cached = 64 if rem is None else min(64, rem)
            t = (0, k + n) if k + n <= cached else (8, k + n - 64)
            if t not in canon:
                r.restore(start)
                canon[t] = h.canonical(r, q + t[0], t[1], parts)
            h.same_cells(e, after, canon[t], "readBits64.next-state")
        e.reach("end")
    return fn


def ghost_reads(name):
    """the public functions against the contract of readBitsImpl"""
    lim = 64 if "64" in name else 32

    def fn(e):
        n = e.pick(66 if lim == 64 else 34)
        n = {65: 255, 33: 255 if lim == 32 else 33}.get(n, n)
        if n == 33 and lim == 32:
            n = 64
        data = h.inp(e, "bits", max(1, min(n, 64)))
        gr = GhostReader(e, data, limit=data.size() - e.pick(2))
        ex, x = run(e, lambda: gr.call("h_" + name, n), name)
        gr.untouched(name)
        if n == 0 or n > lim:
            e.prove(ex is not None and gr.pos == 0, name + ".invalid-width-rejected", n)
        elif gr.limit < n:
            e.prove(ex is not None, name + ".end-of-buffer-rejected")
        else:
            e.prove(ex is None, name + ".accepted", n)
            e.prove(gr.pos == n, name + ".bits-consumed")
            w = lim
            want = (z3.SignExt if "Signed" in name else z3.ZeroExt)(w - n, data) if n < w else data
            e.prove(same(x, norm(want)), name + ".value", n)
        e.reach("end")
    return fn


def inline_reads(name):
    """without the contract (the internal function has another name): every width from every state, away from the end"""
    lim = 64 if "64" in name else 32

    def fn(e):
        v = h.vm(e)
        k = e.pick(65)
        parts = h.stale(e, v)
        q = atom(e, "q")
        r = Reader(e, v, q, None)
        start = h.canonical(r, q, k, parts)
        for n in list(range(0, lim + 1)) + [lim + 1, 255]:
            r.restore(start)
            ex, x = run(e, lambda: r.call("h_" + name, n), name)
            if n == 0 or n > lim:
                e.prove(ex is not None, name + ".invalid-width-rejected", n)
                continue
            e.prove(ex is None, name + ".accepted", n)
            data = take(window(r.buf, q, k + n), k, n)
            want = (z3.SignExt if "Signed" in name else z3.ZeroExt)(lim - n, data) if n < lim else data
            e.prove(same(x, norm(want)), name + ".value", n)
            e.prove(same(r.call("h_reader_get"), q * 8 + k + n), name + ".position")
        e.reach("end")
    return fn


def read_bool(e):
    if h.read_impl():
        data = h.inp(e, "bits", 1)
        gr = GhostReader(e, data, limit=1 - e.pick(2))
        ex, x = run(e, lambda: gr.call("h_readBool"), "readBool")
        gr.untouched("readBool")
        e.prove((ex is None) == (gr.limit == 1), "readBool.rejected-only-past-end")
        if not ex:
            e.prove(gr.pos == 1 and True, "readBool.bits-consumed")
            e.prove(same(x, data), "readBool.value")
    else:
        v = h.vm(e)
        k = e.pick(65)
        q = atom(e, "q")
        r = Reader(e, v, q, None)
        r.restore(h.canonical(r, q, k, h.stale(e, v)))
        _ex, x = run(e, lambda: r.call("h_readBool"), "readBool")
        e.prove(same(x, norm(take(window(r.buf, q, k + 1), k, 1))), "readBool.value")
    e.reach("end")


def set_position(e):
    """setBitPosition from any state (everything setBitPosition or reading changes is arbitrary)"""
    v = h.vm(e)
    off = e.pick(8)
    m = e.pick(80)
    rem, z = (None, m) if m < 8 else (m - 8, 0)
    parts = h.stale(e, v)
    q = atom(e, "q")
    r = Reader(e, v, q, rem, z)
    # what differs between states
    r0 = Reader(e, v, q, None, name="other")
    a, b = h.canonical(r0, q, 5, parts), h.canonical(r0, q + 9, 0, parts)
    mutable = {o: a[o][0] for o in a if same(a[o][1], b[o][1]) is not True}
    target = None
    if rem is None or off <= rem:
        target = h.canonical(r, q, off, parts)
    h.havoc(r, mutable, "m")
    ex, _x = run(e, lambda: r.call("h_reader_set", q * 8 + off), "setBitPosition")
    if ex:
        e.prove(target is None, "setBitPosition.accepted-inside", "%d of %s" % (off, rem))
    else:
        e.prove(target is not None, "setBitPosition.beyond-the-end-rejected", "%d of %s" % (off, rem))
        h.same_cells(e, r.cells(), target, "setBitPosition.state", skip=parts if off == 0 else ())
        e.prove(same(r.call("h_reader_get"), q * 8 + off), "setBitPosition.position")
    e.reach("end")


def constructors(e):
    """the other constructors give the same reader and writer; wrong sizes are rejected"""
    v = h.vm(e)
    q = atom(e, "q")
    kind = e.pick(4)
    for what in ("reader", "writer"):
        bits = q * 8
        nb = q
        if kind == 1:
            c = e.pick(8)
            bits, nb = q * 8 + c, q + (c + 7) // 8
        buf = v.buffer("buf", nb)
        sz = v.call("h_%s_size" % what)
        a, b = v.alloc("a", sz), v.alloc("a", sz)
        if kind < 2:
            v.call("h_%s_init" % what, a, buf, nb, bits)
            if kind == 0:
                v.call("h_%s_init_bytes" % what, b, buf, nb)
            else:
                v.call("h_%s_init_bits" % what, b, buf, bits)
            e.prove(same(v.call("h_%s_get" % what, b), 0), what + ".starts-at-0")
            e.prove(same(v.call("h_%s_bits" % what, b), bits), what + ".buffer-bit-size")
            h.same_cells(e, a.o.cells, b.o.cells, what + ".constructors-agree")
        elif kind == 2:
            d = atom(e, "d")
            ex, _x = run(e, lambda: v.call("h_%s_init" % what, a, buf, nb, bits + d + 1), what + ".constructor")
            e.prove(ex is not None, what + ".bit-size-beyond-buffer-rejected")
        elif what == "reader":
            big = h.inp(e, "bytes", 64)
            e.assume(z3.UGE(big, 1 << 61))
            ex, _x = run(e, lambda: v.call("h_reader_init", a, v.buffer("huge", big), big, 0), "reader.constructor")
            e.prove(ex is not None, "reader.huge-buffer-rejected")
    e.reach("end")


def reader_align(a):
    """alignTo(a) from every position"""
    def fn(e):
        l = a if a % 8 == 0 else a * 8 // {1: 1, 2: 2, 4: 4}.get(a & -a, 8)
        v = h.vm(e)
        m = atom(e, "m", 1 << 50)
        o = e.pick(l)
        q = m * (l // 8) + o // 8
        r = Reader(e, v, q, None)
        start = h.canonical(r, q, o % 8, h.stale(e, v))
        r.restore(start)
        ex, _x = run(e, lambda: r.call("h_reader_align", a), "alignTo")
        e.prove(ex is None, "alignTo.accepted")
        e.prove(same(r.call("h_reader_get"), q * 8 + o % 8 + (-o) % a), "alignTo.position", "%d from %d" % (a, o))
        e.reach("end")
    return fn


# ---------------------------------------------------------------- writer
def write(name, n, w, signed):
    def fn(e):
        v = h.vm(e)
        r = e.pick(8)
        x = h.inp(e, "value", w, signed)
        valid = 1 <= n <= w
        if not valid:
            wr = Writer(e, v, r, 300, 0)
            ex, _x = run(e, lambda: wr.call("h_" + name, x, n), name)
            e.prove(ex is not None, name + ".invalid-width-rejected", n)
            e.prove(not wr.buf.o.log, name + ".rejected-writes-nothing")
            e.prove(same(wr.call("h_writer_get"), wr.P), name + ".rejected-stays")
            e.reach("end")
            return
        fits = z3.And(x >= -(1 << (n - 1)), x <= (1 << (n - 1)) - 1) if signed else z3.ULE(x, (1 << n) - 1)
        mode = e.pick(8 + n + 1)
        if mode < 8:
            wr = Writer(e, v, r, n, mode)
            ex, _x = run(e, lambda: wr.call("h_" + name, x, n), name)
            if ex:
                e.prove(z3.Not(fits), name + ".valid-value-accepted")
                e.prove(not wr.buf.o.log, name + ".rejected-writes-nothing")
                e.prove(same(wr.call("h_writer_get"), wr.P), name + ".rejected-stays")
            else:
                e.prove(fits, name + ".out-of-range-rejected")
                wr.expect(z3.Extract(n - 1, 0, x), name)
        elif mode < 8 + n:
            # one or more bits do not fit into the buffer
            wr = Writer(e, v, r, mode - 8)
            ex, _x = run(e, lambda: wr.call("h_" + name, x, n), name, ("InsufficientCapacityException", "CppRuntimeException"))
            e.prove(ex is not None, name + ".beyond-the-end-rejected", mode - 8)
            keep = wr.r + mode - 8
            for i in range((wr.r + n + 7) // 8):
                # no bit at or behind the end changes
                lo = max(0, min(8, keep - 8 * i))
                if lo < 8 and (wr.q + i).key() in wr.buf.o.log:
                    e.prove(same(norm(z3.Extract(7 - lo, 0, bv(wr.buf.o.get(wr.q + i), 8))), norm(z3.Extract(7 - lo, 0, wr.buf.o.first(wr.q + i)))), name + ".nothing-behind-the-end")
            wr.others(name, range((wr.r + n + 7) // 8))
        else:
            # no buffer: only the position counts
            p = v.alloc("writer", v.call("h_writer_size"))
            v.call("h_writer_init", p, 0, 0, 0)
            P = atom(e, "q") * 8 + r
            v.call("h_writer_set", p, P)
            ex, _x = run(e, lambda: v.call("h_" + name, p, x, n), name)
            e.prove(z3.Not(fits) if ex else fits, name + ".no-buffer.same-range-check")
            if not ex:
                e.prove(same(v.call("h_writer_get", p), P + n), name + ".no-buffer.position")
        e.reach("end")
    return fn


def write_bool(e):
    v = h.vm(e)
    wr = Writer(e, v, e.pick(8), 1, e.pick(8))
    x = h.inp(e, "value", 1)
    run(e, lambda: wr.call("h_writeBool", x), "writeBool")
    wr.expect(x, "writeBool")
    e.reach("end")


def writer_position(e):
    v = h.vm(e)
    r = e.pick(8)
    wr = Writer(e, v, r, 0, e.pick(8))
    bits = wr.bits
    d = atom(e, "d")
    kind = e.pick(2)
    if kind == 0:
        # anywhere up to the end
        back = atom(e, "back", ATOM_SMALL)
        t = wr.q * 8 + r
        ex, _x = run(e, lambda: wr.call("h_writer_set", t), "setBitPosition")
        e.prove(ex is None, "writer.setBitPosition.accepted-inside")
        e.prove(same(wr.call("h_writer_get"), t), "writer.setBitPosition.position")
        ex, _x = run(e, lambda: wr.call("h_writer_set", bits), "setBitPosition")
        e.prove(ex is None, "writer.setBitPosition.end-accepted")
        e.prove(same(wr.call("h_writer_get"), bits), "writer.setBitPosition.position")
    else:
        ex, _x = run(e, lambda: wr.call("h_writer_set", bits + d + 1), "setBitPosition", ("InsufficientCapacityException", "CppRuntimeException"))
        e.prove(ex is not None, "writer.setBitPosition.beyond-the-end-rejected")
        e.prove(same(wr.call("h_writer_get"), wr.P), "writer.setBitPosition.rejected-stays")
    e.prove(not wr.buf.o.log, "writer.setBitPosition.writes-nothing")
    e.reach("end")


ATOM_SMALL = 1 << 20


def writer_align(a):
    def fn(e):
        l = a if a % 8 == 0 else a * 8 // {1: 1, 2: 2, 4: 4}.get(a & -a, 8)
        v = h.vm(e)
        o = e.pick(l)
        m = atom(e, "m", 1 << 50)
        wr = Writer(e, v, o % 8, a, 0)
        # the position as a multiple of the alignment plus o
        wr.q = m * (l // 8) + o // 8
        wr.P = wr.q * 8 + o % 8
        wr.bits = wr.P + a
        wr.nb = wr.q + (o % 8 + a + 7) // 8
        wr.buf = v.buffer("buf", wr.nb)
        v.call("h_writer_init", wr.p, wr.buf, wr.nb, wr.bits)
        v.call("h_writer_set", wr.p, wr.P)
        ex, _x = run(e, lambda: wr.call("h_writer_align", a), "alignTo")
        e.prove(ex is None, "writer.alignTo.accepted")
        skip = (-o) % a
        if skip:
            wr.expect(z3.BitVecVal(0, skip), "writer.alignTo")
        else:
            e.prove(same(wr.call("h_writer_get"), wr.P) and not wr.buf.o.log, "writer.alignTo.nothing-to-do")
        e.reach("end")
    return fn


BOUNDED = []


def cases(tier):
    cs = [Case("read64-after-%d" % k, read64(k), limit_s=800) for k in range(65)]
    reads = ghost_reads if h.read_impl() else inline_reads
    if reads is inline_reads:
        BOUNDED.append("readBits, readSignedBits, readSignedBits64: the internal function readBitsImpl was not found, checked inline without the cases near the end of the buffer")
    cs += [Case(n, reads(n), limit_s=600) for n in ("readBits", "readBits64", "readSignedBits", "readSignedBits64")]
    cs += [Case("readBool", read_bool), Case("setBitPosition", set_position, limit_s=600), Case("constructors", constructors)]
    cs += [Case("reader-alignTo-%d" % a, reader_align(a), limit_s=600) for a in range(1, 65)]
    for name, w, signed in (("writeBits", 32, False), ("writeSignedBits", 32, True), ("writeBits64", 64, False), ("writeSignedBits64", 64, True)):
        cs += [Case("%s-%d" % (name, n), write(name, n, w, signed), limit_s=600) for n in list(range(0, w + 2)) + [255]]
    cs += [Case("writeBool", write_bool), Case("writer-setBitPosition", writer_position)]
    cs += [Case("writer-alignTo-%d" % a, writer_align(a), limit_s=600) for a in range(1, 65)]
    return cs


# ---------------------------------------------------------------- concrete search on the compiled runtime
def search(seed, budget, hints):
    rng = random.Random(seed)
    d = h.Driver()
    end = time.time() + budget
    count = 0
    fail = None
    while time.time() < end and fail is None:
        size = rng.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 25])
        data = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(size))
        bits = max(0, size * 8 - rng.choice([0, 0, 0, 1, 3, 7]))
        allb = "".join("{:08b}".format(b) for b in data)
        pos = rng.choice([0, rng.randrange(bits + 1), max(0, bits - rng.randrange(1, 70)), bits, bits + 1])
        w = rng.choice([32, 64])
        n = rng.choice([0, w, w + 1, rng.randrange(1, w + 1), rng.randrange(1, w + 1)])
        signed = rng.random() < 0.5
        nm = ("SignedBits" if signed else "Bits") + ("64" if w == 64 else "")
        count += 1
        if rng.random() < 0.5:
            pre = rng.choice([0, rng.randrange(65), rng.randrange(65)])
            if pos <= bits and pos + pre > bits:
                pre = 0
            p = pos + pre
            if pos > bits or not 1 <= n <= w or p + n > bits:
                want = "EXC"
            else:
                x = int(allb[p:p + n], 2)
                if signed and x >> (n - 1):
                    x -= 1 << n
                want = "%d %d" % (x, p + n)
            cmd = ("read", "read" + nm, data.hex(), bits, pos, pre, n)
        else:
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            m = max(1, min(n, w))
            flo, fhi = (-(1 << (m - 1)), (1 << (m - 1)) - 1) if signed else (0, (1 << m) - 1)
            x = rng.choice([0, 1, flo, fhi, fhi + 1, flo - 1, rng.randint(flo, fhi), rng.randint(lo, hi), lo, hi])
            x = min(hi, max(lo, x))
            if pos > bits or not 1 <= n <= w or not flo <= x <= fhi or pos + n > bits:
                want = "EXC"
            else:
                s = allb[:pos] + "{:0{}b}".format(x & ((1 << n) - 1), n) + allb[pos + n:]
                want = "%s %d" % (bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8)).hex(), pos + n)
            cmd = ("write", "write" + nm, data.hex(), bits, pos, x, n)
        got = d.ask(*cmd)
        if got != want:
            fail = dict(request=" ".join(str(c) for c in cmd), got=got, expected=want)
    # positions and alignment
    for a in range(1, 65):
        for p in range(0, 130, 7):
            if fail:
                break
            buf = "a5" * 40
            q = p + (-p) % a
            got = d.ask("read", "alignTo", buf, 320, p, 0, a)
            if got != " %d" % q and got != "%d" % q:
                fail = dict(request="read alignTo(%d) at %d" % (a, p), got=got, expected=str(q))
            got = d.ask("write", "alignTo", buf, 320, p, 0, a)
            s = "10100101" * 40
            s = s[:p] + "0" * (q - p) + s[q:]
            want = "%s %d" % (bytes(int(s[i:i + 8], 2) for i in range(0, 320, 8)).hex(), q)
            if not fail and got != want:
                fail = dict(request="write alignTo(%d) at %d" % (a, p), got=got, expected=want)
            count += 2
    d.close()
    return dict(failing=fail, evaluations=count)
