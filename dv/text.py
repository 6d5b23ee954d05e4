"""Abstract strings: a string is known by its code points and by its UTF-8 image (an abstract byte sequence)."""
import z3
from dv.core import SInt, LInt, SBool, ite, cur, Unsupported, zint, eq, sint, And, Or, tobool, ubits
from dv.rope import SSeq, SBytes, Abs, Con, prove_seq_eq, quantified_eq, seq_eq_formula


class SChar:
    """One abstract character given by its code point."""
    __slots__ = ("cp",)

    def __init__(self, cp):
        self.cp = cp

    @property
    def __class__(self):
        return str

    def _dv_ord(self):
        return self.cp

    def __eq__(self, o):
        if type(o) is SChar:
            return self.cp == o.cp
        if type(o) is str and len(o) == 1:
            return self.cp == ord(o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if type(r) is SBool else not r

    def _cmp(self, o, op):
        a, b = cp_of(self), cp_of(o)
        if b is None:
            raise Unsupported("comparison of a character with %r" % (o,))
        return op(a, b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        e = cur()
        for c in range(128):        # only used for look-up tables keyed by ASCII characters
            if e.branch(tb(self.cp == c)):
                return hash(chr(c))
        return 424242424243

    def dv_len(self):
        return 1

    def __bool__(self):
        return True

    def __add__(self, o):
        return SText([Con([self.cp])]) + o

    def __radd__(self, o):
        return SText.of(o) + SText([Con([self.cp])])

    def isdigit(self):
        e = cur()
        if e.branch(tb(And(self.cp >= 48, self.cp <= 57))):
            return True
        if e.branch(tb(self.cp < 128)):
            return False
        return bool(SBool(z3.Function("dv.isdigit", z3.BitVecSort(24), z3.BoolSort())(ubits(self.cp, 24))))

    def isdecimal(self):
        return self.isdigit()

    def isspace(self):
        e = cur()
        if e.branch(tb(Or(self.cp == 32, And(self.cp >= 9, self.cp <= 13), And(self.cp >= 28, self.cp <= 31)))):
            return True
        if e.branch(tb(self.cp < 128)):
            return False
        return bool(SBool(z3.Function("dv.isspace", z3.BitVecSort(24), z3.BoolSort())(ubits(self.cp, 24))))


def tb(c):
    c = tobool(c)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def cp_of(c):
    if type(c) is SChar:
        return c.cp
    if type(c) is str and len(c) == 1:
        return ord(c)
    return None


class SText(SSeq):
    """Abstract str as a rope of code points; indexing gives characters, slicing gives texts."""

    @classmethod
    def of(cls, o):
        if type(o) is SText:
            return o
        if type(o) is SChar:
            return cls([Con([o.cp])])
        if type(o) is str:
            return cls([Con([ord(c) for c in o])])
        raise Unsupported("text from %r" % type(o))

    @property
    def __class__(self):
        return str

    def _elem(self, idx):
        return SChar(SSeq._elem(self, idx))

    def __iter__(self):
        if self.is_concrete():
            return iter([SChar(x) for x in self.items()])
        from dv.loops import SIter
        return SIter(self.dv_len(), lambda k: SChar(self.at(k)), label="text")

    def __add__(self, o):
        return SText(list(self.segs) + list(SText.of(o).segs))

    def __radd__(self, o):
        return SText(list(SText.of(o).segs) + list(self.segs))

    def __eq__(self, o):
        if type(o) in (str, SChar, SText):
            o = SText.of(o)
            na, nb = self.dv_len(), o.dv_len()
            if type(nb) is int and type(na) is not int:
                if not cur().branch(tb(eq(na, nb))):
                    return False
                r = tobool(And(True, *[eq(self.at(i), o.at(i)) for i in range(nb)]))
                return r if isinstance(r, bool) else SBool(r)
            return SSeq.__eq__(self, o)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(z3.Not(r.t)) if type(r) is SBool else not r

    def __hash__(self):
        raise Unsupported("hash of abstract text")

    def __bool__(self):
        return bool(self.dv_len() != 0)

    def startswith(self, p, start=0, end=None):
        if type(p) is not str or end is not None:
            raise Unsupported("startswith")
        return bool(self[start:start + len(p)] == p)

    def _dv_encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower() not in ("ascii", "us-ascii") or errors != "strict":
            raise Unsupported("encode(%r)" % encoding)
        n = self.dv_len()
        if type(n) is not int:
            n = cur().concretize(zint(n))
        out = []
        for i in range(n):
            c = self.at(i)
            if cur().branch(tb(c >= 128)):
                raise UnicodeEncodeError("ascii", "?", i, i + 1, "ordinal not in range(128)")
            out.append(c)
        return SEscaped(out)

    encode = _dv_encode

    def isdigit(self):
        raise Unsupported("isdigit of abstract text")

    def __format__(self, spec):
        return "<text>"

    def __str__(self):
        return "<text>"
    __repr__ = __str__

    def _dv_int(self, *a, **k):
        f = getattr(cur(), "int_parser", None)
        if f is None:
            raise Unsupported("int() of abstract text")
        return f(self, *a, **k)

    def _dv_float(self):
        f = getattr(cur(), "float_parser", None)
        if f is None:
            raise Unsupported("float() of abstract text")
        return f(self)


class SEscaped:
    """ASCII bytes about to be decoded by the 'unicode-escape' codec (contract of CPython's codec for \\uXXXX)."""

    def __init__(self, items):
        self.items = items

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        e = cur()
        if encoding.lower().replace("_", "-") != "unicode-escape" or errors != "strict" or len(self.items) != 6:
            raise Unsupported("decode of ASCII bytes")
        if not (e.must(eq(self.items[0], 92)) and e.must(eq(self.items[1], 117))):
            raise Unsupported("unicode-escape of something else")
        v, ok = 0, []
        for c in self.items[2:]:
            dec, low, up = And(c >= 48, c <= 57), And(c >= 97, c <= 102), And(c >= 65, c <= 70)
            ok.append(tobool(Or(dec, low, up)))
            v = v * 16 + ite(tobool(dec), (c - 48) & 15, (c - ite(tobool(low), 87, 55)) & 15)
        if not e.branch(tb(And(True, *ok))):
            raise UnicodeDecodeError("unicodeescape", b"", 0, 1, "truncated \\uXXXX escape")
        return SText([Con([v])])


class SStr(SSeq):
    """Abstract str: code points as an abstract sequence, plus an independent abstract UTF-8 image."""

    def __init__(self, segs=(), utf8=None):
        SSeq.__init__(self, segs)
        self.utf8 = utf8

    def _new(self, segs):
        return SStr(segs)

    @property
    def __class__(self):
        return str

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8") or errors != "strict":
            raise Unsupported("encode(%r, %r)" % (encoding, errors))
        if self.utf8 is None:
            raise Unsupported("encode of a derived abstract string")
        return SBytes(self.utf8.segs)

    def _dv_encode(self, encoding="utf-8", errors="strict"):
        return self.encode(encoding, errors)


def utf8_strict(encoding, errors):
    """Only the strict UTF-8 codec is modelled."""
    if encoding.lower().replace("_", "-") not in ("utf-8", "utf8") or errors != "strict":
        raise Unsupported("decode(%r, %r)" % (encoding, errors))


class SDecoded:
    """bytes.decode('utf-8') of an abstract byte sequence (str.encode and bytes.decode are trusted inverses)."""

    def __init__(self, data):
        self.data = data

    @property
    def __class__(self):
        return str
