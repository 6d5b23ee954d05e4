"""P16  Serialisation helpers: serialize, deserialize and their bytes / file variants."""
import z3
from dv.runner import Case
from dv.pyharness import *
from dv.pyharness import ns, field_by_type
from dv.core import cur
from dv.rope import SBytes, SByteArray, Abs, Con, byte_fn, prove_seq_eq

FUNCTIONS = ["serialize", "deserialize", "serialize_to_bytes", "deserialize_from_bytes", "serialize_to_file", "deserialize_from_file",
             "BitStreamWriter.to_file", "BitStreamWriter.byte_array", "BitStreamReader.from_bitbuffer", "BitStreamReader.from_file", "BitBuffer.__init__"]
TRUSTED = ["CPython semantics of the executed subset (the real code runs under CPython)", "dv symbolic integers and ropes", "z3",
           "open(), write() and read() of binary files keep the bytes (a stand-in for open() records them)"]
ASSUMPTIONS = ["write() of the serialised object leaves the writer in any state its contract (P01, P04) allows: any number of bits, zero padding"]
NOTE = "any object, any number of bits and any content; files through a stand-in for open()"


class File:
    _dv_opaque = True

    def __init__(self, store, name, mode):
        self.store, self.name, self.mode = store, name, mode
        if "w" in mode:
            store[name] = SByteArray([])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.mode = "closed"

    def write(self, data):
        cur().prove(self.mode == "wb", "file.opened-for-binary-writing")
        self.store[self.name].extend(data)


    def read(self, n=-1):
        cur().prove(self.mode == "rb" and n in (-1, None), "file.opened-for-binary-reading")
        return SBytes(list(self.store[self.name].segs))


class World:
    def __init__(self, e, r):
        self.e, self.r = e, r
        self.n = ns()
        self.get = byte_fn("content")
        self.q = e.int("bytes", 0)
        self.last = None
        segs = [Abs(self.get, self.q)]
        if r:
            self.last = e.bv("last", 0, 255)
            e.assume(z3.Extract(7 - r, 0, self.last.t) == 0)
            segs.append(Con([self.last]))
        self.segs = segs
        self.bits = self.q * 8 + r
        self.files = {}
        self.calls = []
        world = self

        class Obj:
            """Writes any bits."""
            _dv_opaque = True

            def initialize_offsets(self, position):
                e.prove(eq(position, 0), "initialize_offsets.position")
                world.calls.append("initialize_offsets")
                return world.bits

            def write(self, writer, *a):
                e.prove(type(writer) is world.n.bitwriter.BitStreamWriter and eq(writer.bitposition, 0) and not a, "write.empty-writer")
                world.calls.append("write")
                fb = field_by_type(writer, lambda v: type(v) in (bytearray, SByteArray), "buffer")
                fp = field_by_type(writer, lambda v: type(v) is int, "position")
                writer.__dict__[fb] = SByteArray(list(world.segs))
                writer.__dict__[fp] = world.bits
        self.obj = Obj()

    def opened(self):
        def opener(name, mode="r", *a, **k):
            return File(self.files, name, mode)
        import contextlib

        @contextlib.contextmanager
        def cm():
            mods = [m for m in vars(self.n).values() if hasattr(m, "__dict__") and hasattr(m, "__name__")]
            for m in mods:
                m.__dict__["open"] = opener
            try:
                yield
            finally:
                for m in mods:
                    m.__dict__.pop("open", None)
        return cm()

    def order(self):
        self.e.prove(self.calls == ["initialize_offsets", "write"], "offsets-initialised-then-written")

    def same_bytes(self, got, name):
        prove_seq_eq(got, SBytes(list(self.segs)), name)


def serialize_case(r):
    def fn(e):
        w = World(e, r)
        S = w.n.serialization
        _, bb = guard(e, lambda: S.serialize(w.obj), "serialize")
        w.order()
        e.prove(type(bb) is w.n.bitbuffer.BitBuffer, "serialize.bit-buffer")
        e.prove(eq(bb.bitsize, w.bits), "serialize.bit-size")
        w.same_bytes(bb.buffer, "serialize.bits")
        w.calls.clear()
        _, data = guard(e, lambda: S.serialize_to_bytes(w.obj), "serialize_to_bytes")
        w.order()
        w.same_bytes(data, "serialize_to_bytes.bits")
        w.calls.clear()
        with w.opened():
            guard(e, lambda: S.serialize_to_file(w.obj, "name"), "serialize_to_file")
        w.order()
        e.prove(list(w.files) == ["name"], "serialize_to_file.file")
        if "name" in w.files:
            w.same_bytes(w.files["name"], "serialize_to_file.bits")
        e.reach("end")
    return fn


def deserialize_case(kind, r):
    """The reader handed to from_reader stands at the beginning of exactly the given bits."""
    def fn(e):
        n = ns()
        S = n.serialization
        get = byte_fn("content")
        nbytes = e.int("bytes", 0)
        data = SBytes([Abs(get, nbytes)])
        result = object()
        args = tuple(object() for _ in range(e.choose(3)))
        seen = []

        class Cls:
            _dv_opaque = True

            @staticmethod
            def from_reader(reader, *a):
                seen.append((reader, a))
                return result
        if kind == "bits":
            size = e.int("bitsize", 0)
            e.assume(size <= nbytes * 8)
            buf = n.bitbuffer.BitBuffer(data, size)
            _, got = guard(e, lambda: S.deserialize(Cls, buf, *args), "deserialize")
        else:
            size = nbytes * 8
            if kind == "bytes":
                _, got = guard(e, lambda: S.deserialize_from_bytes(Cls, data, *args), "deserialize")
            else:
                w = World(e, 0)
                w.files["name"] = SByteArray([Abs(get, nbytes)])
                with w.opened():
                    _, got = guard(e, lambda: S.deserialize_from_file(Cls, "name", *args), "deserialize")
        e.prove(got is result, "deserialize.result")
        e.prove(len(seen) == 1, "deserialize.one-reader")
        if len(seen) != 1:
            return
        rd, a = seen[0]
        e.prove(len(a) == len(args) and all(x is y for x, y in zip(a, args)), "deserialize.arguments")
        e.prove(type(rd) is n.bitreader.BitStreamReader, "deserialize.reader")
        e.prove(eq(rd.bitposition, 0), "deserialize.position")
        e.prove(eq(rd.buffer_bitsize, size), "deserialize.bit-size")
        # any byte of the stream, at any alignment, is what was given
        q = e.int("q", 0)
        e.assume(q * 8 + r + 8 <= size)
        rd.bitposition = q * 8 + r
        _, v = guard(e, lambda: rd.read_bits(8), "read")
        pair = z3.Concat(ubits(get(q), 8), ubits(get(q + 1), 8)) if r else None
        want = ubits(get(q), 8) if not r else z3.Extract(15 - r, 8 - r, pair)
        e.prove(ubits(v, 8) == want, "deserialize.bits")
        e.reach("end")
    return fn


def prepare():
    ns()


def cases(tier):
    out = []
    for r in range(8):
        out.append(Case("serialize@%d" % r, serialize_case(r)))
        for kind in ("bits", "bytes", "file"):
            out.append(Case("deserialize-%s@%d" % (kind, r), deserialize_case(kind, r)))
    return out


def search(seed, budget, hints):
    from dv import pyreplay
    return pyreplay.serializing(seed, budget, hints)
