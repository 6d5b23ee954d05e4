"""Independent statements of the zserio wire format, concrete and symbolic (z3)."""
import z3

# name -> (signed, maximum number of bytes)
VAR = {"varint16": (True, 2), "varint32": (True, 4), "varint64": (True, 8), "varint": (True, 9),
       "varuint16": (False, 2), "varuint32": (False, 4), "varuint64": (False, 8), "varuint": (False, 9),
       "varsize": (False, 5)}
VARSIZE_MAX = (1 << 31) - 1
INT64_MIN = -(1 << 63)


def mag_bits(name, length):
    """Number of magnitude bits an encoding of `length` bytes carries."""
    signed, n = VAR[name]
    bits = 7 * length - (1 if signed else 0)
    return bits + 1 if length == n else bits


def mag_max(name, length):
    m = (1 << mag_bits(name, length)) - 1
    if name == "varsize" and length == VAR[name][1]:
        m = VARSIZE_MAX
    return m


def var_range(name):
    signed, n = VAR[name]
    m = mag_max(name, n)
    lo = -m if signed else 0
    if name == "varint":
        lo = INT64_MIN
    return lo, m


def var_length(name, v):
    """Shortest length in bytes or None when out of range."""
    lo, hi = var_range(name)
    if not lo <= v <= hi:
        return None
    if name == "varint" and v == INT64_MIN:
        return 1
    for length in range(1, VAR[name][1] + 1):
        if abs(v) <= mag_max(name, length):
            return length


def layout(name, length):
    """List of fields of an encoding, most significant first: ('s',) sign, ('c', bit) continuation, ('m', nbits)."""
    signed, n = VAR[name]
    out = []
    for i in range(length):
        bits = 8
        if signed and i == 0:
            out.append(("s",))
            bits -= 1
        if i < n - 1:
            out.append(("c", 1 if i < length - 1 else 0))
            bits -= 1
        out.append(("m", bits))
    return out


def var_encode(name, v):
    length = var_length(name, v)
    if length is None:
        return None
    if name == "varint" and v == INT64_MIN:
        return b"\x80"
    m, pos = abs(v), mag_bits(name, length)
    bits = ""
    for f in layout(name, length):
        if f[0] == "s":
            bits += "1" if v < 0 else "0"
        elif f[0] == "c":
            bits += str(f[1])
        else:
            pos -= f[1]
            bits += "{:0{}b}".format((m >> pos) & ((1 << f[1]) - 1), f[1])
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def var_decode(name, data):
    """(value, length) of the encoding at the start of data; None when truncated; ('reject', length) for a bad varsize."""
    signed, n = VAR[name]
    m = 0
    for i in range(n):
        if i >= len(data):
            return None
        b = data[i]
        bits = 8
        if signed and i == 0:
            sign = b >> 7
            bits -= 1
        cont = 0
        if i < n - 1:
            bits -= 1
            cont = (b >> bits) & 1
        m = (m << bits) | (b & ((1 << bits) - 1))
        if not cont:
            break
    if name == "varsize" and m > VARSIZE_MAX:
        return ("reject", i + 1)
    if name == "varint" and sign and m == 0 and i == 0:
        return (INT64_MIN, 1)
    return (-m if signed and sign else m, i + 1)


def z_encode(name, length, mag, neg):
    """z3: bits of the encoding; mag is a BV of exactly mag_bits(name, length) bits, neg a z3 Bool."""
    pos = mag_bits(name, length)
    parts = []
    for f in layout(name, length):
        if f[0] == "s":
            parts.append(z3.If(neg, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)))
        elif f[0] == "c":
            parts.append(z3.BitVecVal(f[1], 1))
        else:
            parts.append(z3.Extract(pos - 1, pos - f[1], mag))
            pos -= f[1]
    return z3.Concat(*parts)


def z_fields(name, length, bits):
    """z3: (continuation-bits condition, sign Bool or None, magnitude BV) of `bits`, an 8*length BV."""
    pos = 8 * length
    conds, mags, sign = [], [], None
    for f in layout(name, length):
        if f[0] == "s":
            sign = z3.Extract(pos - 1, pos - 1, bits) == 1
            pos -= 1
        elif f[0] == "c":
            conds.append(z3.Extract(pos - 1, pos - 1, bits) == f[1])
            pos -= 1
        else:
            mags.append(z3.Extract(pos - 1, pos - f[1], bits))
            pos -= f[1]
    mag = mags[0] if len(mags) == 1 else z3.Concat(*mags)
    return z3.And(*conds) if conds else z3.BoolVal(True), sign, mag


def boundary_values(name):
    s = {0, 1, 2, 63, 64, 127, 128}
    for k in range(1, 66):
        for d in (-1, 0, 1):
            s.add((1 << k) + d)
    lo, hi = var_range(name)
    s |= {hi, hi + 1, hi - 1}
    if VAR[name][0]:
        s |= {-x for x in s} | {lo, lo - 1, lo + 1}
    else:
        s |= {-1, -5, -(1 << 62), -(1 << 63)}
    return sorted(s)


def half_value(h):
    """Exact value of a half pattern as a Python float (inf/nan included)."""
    s = -1.0 if h >> 15 else 1.0
    ex, m = (h >> 10) & 31, h & 1023
    if ex == 31:
        return s * float("inf") if m == 0 else float("nan")
    if ex == 0:
        return s * m * 2.0 ** -24
    return s * (1024 + m) * 2.0 ** (ex - 25)


def single_to_half_bits(b):
    """Half pattern for a single pattern (None = any NaN): nearest, ties away; flush below 2^-24; overflow to infinity."""
    from fractions import Fraction
    sign, ex, m = b >> 31, (b >> 23) & 255, b & 0x7fffff
    if ex == 255:
        return None if m else (sign << 15) | 0x7c00
    v = Fraction(m, 1 << 149) if ex == 0 else Fraction((1 << 23) + m) * (Fraction(2) ** (ex - 150))
    if v < Fraction(1, 1 << 24):
        return sign << 15
    # exponent of the half binade
    e = 1
    while e < 31 and v >= Fraction(2) ** (e + 1 - 15):
        e += 1
    ulp = Fraction(2) ** (e - 25)
    q = v / ulp
    n = q.numerator // q.denominator
    if q - n >= Fraction(1, 2):
        n += 1
    # n counts ulps in this binade; for e == 1 subnormals come out naturally
    bits = n if (e == 1 and n < 1024) else ((e - 1) << 10) + n
    return (sign << 15) | min(bits, 0x7c00)
