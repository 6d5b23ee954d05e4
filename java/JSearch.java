import java.math.BigInteger;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Random;

import zserio.runtime.BitFieldUtil;
import zserio.runtime.BitPositionUtil;
import zserio.runtime.BitSizeOfCalculator;
import zserio.runtime.BuiltInOperators;
import zserio.runtime.FloatUtil;
import zserio.runtime.HashCodeUtil;
import zserio.runtime.array.Array;
import zserio.runtime.array.ArrayTraits;
import zserio.runtime.array.ArrayType;
import zserio.runtime.array.RawArray;
import zserio.runtime.io.BitBuffer;
import zserio.runtime.io.ByteArrayBitStreamReader;
import zserio.runtime.io.ByteArrayBitStreamWriter;

/** Concrete search on the unmodified classes: boundary and random inputs against independent references. */
public class JSearch
{
    static Random rnd;
    static long count = 0, deadline;
    static List<BigInteger> pool = new ArrayList<>();

    static class Fail extends RuntimeException
    {
        Fail(String s)
        {
            super(s);
        }
    }

    static void check(boolean c, String what)
    {
        ++count;
        if (!c)
            throw new Fail(what);
    }

    static boolean more()
    {
        return System.currentTimeMillis() < deadline;
    }

    interface Op
    {
        void run() throws Exception;
    }

    /** null when op succeeds, the exception otherwise (errors of the VM itself are passed on) */
    static Throwable caught(Op op)
    {
        try
        {
            op.run();
            return null;
        }
        catch (Fail e)
        {
            throw e;
        }
        catch (Exception e)
        {
            return e;
        }
    }

    static BigInteger big(int maxBits)
    {
        int k = rnd.nextInt(10);
        BigInteger r;
        if (k < 2 && !pool.isEmpty())
            r = pool.get(rnd.nextInt(pool.size()));
        else if (k < 6)
            r = BigInteger.ONE.shiftLeft(rnd.nextInt(maxBits + 1)).add(BigInteger.valueOf(rnd.nextInt(5) - 2));
        else if (k < 8)
            r = new BigInteger(rnd.nextInt(maxBits + 1), rnd);
        else
            r = BigInteger.valueOf(rnd.nextInt(300));
        return rnd.nextBoolean() ? r.negate() : r;
    }

    static long lng()
    {
        return big(64).longValue();
    }

    // ------------------------------------------------------------------ reference bit string
    static class Bits
    {
        StringBuilder s = new StringBuilder();

        void add(BigInteger v, int n)
        {
            for (int i = n - 1; i >= 0; --i)
                s.append(v.testBit(i) ? '1' : '0');
        }

        byte[] bytes()
        {
            byte[] b = new byte[(s.length() + 7) / 8];
            for (int i = 0; i < s.length(); ++i)
                if (s.charAt(i) == '1')
                    b[i / 8] |= 128 >> (i % 8);
            return b;
        }
    }

    static boolean fitsU(BigInteger v, int n)
    {
        return v.signum() >= 0 && v.bitLength() <= n;
    }

    static boolean fitsS(BigInteger v, int n)
    {
        return v.bitLength() <= n - 1;
    }

    static final String[] OPS = {"writeBits", "writeSignedBits", "writeByte", "writeUnsignedByte", "writeShort", "writeUnsignedShort", "writeInt",
            "writeUnsignedInt", "writeLong", "writeBigInteger", "writeBool"};

    static void j01() throws Exception
    {
        while (more())
        {
            ByteArrayBitStreamWriter w = rnd.nextInt(3) == 0 ? new ByteArrayBitStreamWriter()
                                                              : new ByteArrayBitStreamWriter(rnd.nextInt(12));
            Bits ref = new Bits();
            StringBuilder log = new StringBuilder();
            List<Object[]> done = new ArrayList<>();
            int ops = 1 + rnd.nextInt(12);
            for (int k = 0; k < ops; ++k)
            {
                int op = rnd.nextInt(OPS.length);
                final BigInteger v = big(66);
                final long l = v.longValue();
                final int n = rnd.nextInt(20) == 0 ? rnd.nextInt(140) - 40 : 1 + rnd.nextInt(64);
                BigInteger val = BigInteger.valueOf(l);
                int bits = n;
                boolean ok;
                Op f;
                switch (op)
                {
                case 0:
                    ok = n >= 1 && n <= 63 && fitsU(val, n);
                    f = () -> w.writeBits(l, n);
                    break;
                case 1:
                    ok = n >= 1 && n <= 64 && fitsS(val, n);
                    f = () -> w.writeSignedBits(l, n);
                    break;
                case 2:
                    val = BigInteger.valueOf((byte)l);
                    bits = 8;
                    ok = true;
                    f = () -> w.writeByte((byte)l);
                    break;
                case 3:
                    val = BigInteger.valueOf((short)l);
                    bits = 8;
                    ok = fitsU(val, 8);
                    f = () -> w.writeUnsignedByte((short)l);
                    break;
                case 4:
                    val = BigInteger.valueOf((short)l);
                    bits = 16;
                    ok = true;
                    f = () -> w.writeShort((short)l);
                    break;
                case 5:
                    val = BigInteger.valueOf((int)l);
                    bits = 16;
                    ok = fitsU(val, 16);
                    f = () -> w.writeUnsignedShort((int)l);
                    break;
                case 6:
                    val = BigInteger.valueOf((int)l);
                    bits = 32;
                    ok = true;
                    f = () -> w.writeInt((int)l);
                    break;
                case 7:
                    bits = 32;
                    ok = fitsU(val, 32);
                    f = () -> w.writeUnsignedInt(l);
                    break;
                case 8:
                    bits = 64;
                    ok = true;
                    f = () -> w.writeLong(l);
                    break;
                case 9:
                    val = v;
                    ok = n >= 1 && n <= 64 && (fitsU(v, n) || fitsS(v, n));
                    f = () -> w.writeBigInteger(v, n);
                    break;
                default:
                    val = BigInteger.valueOf(l & 1);
                    bits = 1;
                    ok = true;
                    f = () -> w.writeBool((l & 1) != 0);
                }
                log.append(OPS[op]).append('(').append(val).append(',').append(bits).append(") ");
                Throwable t = caught(f);
                check((t == null) == ok, log + (ok ? "rejected: " + t : "accepted"));
                if (ok)
                {
                    ref.add(val, bits);
                    done.add(new Object[] {op, val, bits});
                }
                check(w.getBitPosition() == ref.s.length(), log + "position " + w.getBitPosition());
            }
            byte[] out = w.toByteArray();
            check(Arrays.equals(out, ref.bytes()), log + "wrote " + Arrays.toString(out) + " instead of " + Arrays.toString(ref.bytes()));
            // overwriting in the middle keeps the bits around
            if (ref.s.length() > 2 && rnd.nextInt(3) == 0)
            {
                int p = rnd.nextInt(ref.s.length());
                int n = 1 + rnd.nextInt(Math.min(63, ref.s.length() - p + 5));
                long x = new BigInteger(n, rnd).longValue();
                w.setBitPosition(p);
                w.writeBits(x, n);
                String m = String.format("%" + n + "s", Long.toBinaryString(x)).replace(' ', '0');
                String all = ref.s.toString();
                String exp = all.substring(0, p) + m + (p + n < all.length() ? all.substring(p + n) : "");
                ref.s = new StringBuilder(exp);
                w.setBitPosition(ref.s.length());
                check(Arrays.equals(w.toByteArray(), ref.bytes()), log + "then overwriting " + n + " bits at " + p + " changes other bits");
                continue;
            }
            int size = ref.s.length();
            ByteArrayBitStreamReader r = rnd.nextBoolean() ? new ByteArrayBitStreamReader(ref.bytes(), (long)size)
                                                            : new ByteArrayBitStreamReader(new BitBuffer(ref.bytes(), size));
            for (Object[] d : done)
            {
                int op = (Integer)d[0];
                BigInteger val = (BigInteger)d[1];
                int n = (Integer)d[2];
                BigInteger got = read(r, op, n, val);
                check(got.equals(val), log + "reading " + OPS[op] + " gives " + got + " instead of " + val);
            }
            check(r.getBitPosition() == size, log + "reader ends at " + r.getBitPosition());
            // reading beyond the end
            for (int k = 0; k < 6; ++k)
            {
                int p = Math.max(0, size - rnd.nextInt(70));
                int op = rnd.nextInt(OPS.length);
                int n = op < 2 || op == 9 ? 1 + rnd.nextInt(63) : new int[] {0, 0, 8, 8, 16, 16, 32, 32, 64, 0, 1}[op];
                r.setBitPosition(p);
                BigInteger got = null;
                Throwable t = null;
                try
                {
                    got = read(r, op, n, op == 9 && rnd.nextBoolean() ? BigInteger.ONE.negate() : BigInteger.ONE);
                }
                catch (Exception e)
                {
                    t = e;
                }
                check((t != null) == (p + n > size), "stream of " + size + " bits: reading counterpart of " + OPS[op] + " (" + n + " bits) at position " + p +
                        (t == null ? " returns " + got : " throws " + t));
                if (t == null)
                    check(r.getBitPosition() == p + n, "stream of " + size + " bits: position after reading " + n + " bits at " + p);
            }
        }
    }

    static BigInteger read(ByteArrayBitStreamReader r, int op, int n, BigInteger val) throws Exception
    {
        switch (op)
        {
        case 0:
            return BigInteger.valueOf(r.readBits(n));
        case 1:
            return BigInteger.valueOf(r.readSignedBits(n));
        case 2:
            return BigInteger.valueOf(r.readByte());
        case 3:
            return BigInteger.valueOf(r.readUnsignedByte());
        case 4:
            return BigInteger.valueOf(r.readShort());
        case 5:
            return BigInteger.valueOf(r.readUnsignedShort());
        case 6:
            return BigInteger.valueOf(r.readInt());
        case 7:
            return BigInteger.valueOf(r.readUnsignedInt());
        case 8:
            return BigInteger.valueOf(r.readLong());
        case 9:
            return val.signum() < 0 ? r.readSignedBigInteger(n) : r.readBigInteger(n);
        default:
            return BigInteger.valueOf(r.readBool() ? 1 : 0);
        }
    }

    // ------------------------------------------------------------------ variable-length integers
    static final String[] VAR = {"varint16", "varint32", "varint64", "varint", "varuint16", "varuint32", "varuint64", "varuint", "varsize"};
    static final int[] VARBYTES = {2, 4, 8, 9, 2, 4, 8, 9, 5};

    static int magBits(int t, int len)
    {
        int b = 7 * len - (t < 4 ? 1 : 0);
        return len == VARBYTES[t] ? b + 1 : b;
    }

    static BigInteger magMax(int t, int len)
    {
        if (t == 8 && len == 5)
            return BigInteger.valueOf(Integer.MAX_VALUE);
        return BigInteger.ONE.shiftLeft(magBits(t, len)).subtract(BigInteger.ONE);
    }

    static final BigInteger LMIN = BigInteger.valueOf(Long.MIN_VALUE);

    /** length in bytes or 0 when out of range */
    static int varLen(int t, BigInteger v)
    {
        if (t == 3 && v.equals(LMIN))
            return 1;
        if (t >= 4 && v.signum() < 0)
            return 0;
        if (t == 3 && v.bitLength() > 63)
            return 0;
        for (int l = 1; l <= VARBYTES[t]; ++l)
            if (v.abs().compareTo(magMax(t, l)) <= 0)
                return l;
        return 0;
    }

    static void varEncode(Bits out, int t, BigInteger v)
    {
        if (t == 3 && v.equals(LMIN))
        {
            out.add(BigInteger.valueOf(0x80), 8);
            return;
        }
        int len = varLen(t, v), pos = magBits(t, len);
        BigInteger m = v.abs();
        for (int i = 0; i < len; ++i)
        {
            int bits = 8;
            if (t < 4 && i == 0)
            {
                out.s.append(v.signum() < 0 ? '1' : '0');
                --bits;
            }
            if (i < VARBYTES[t] - 1)
            {
                out.s.append(i < len - 1 ? '1' : '0');
                --bits;
            }
            pos -= bits;
            out.add(m.shiftRight(pos), bits);
        }
    }

    static void j02() throws Exception
    {
        while (more())
        {
            final int t = rnd.nextInt(9);
            BigInteger v0 = big(66);
            if (rnd.nextInt(3) == 0)
                v0 = magMax(t, 1 + rnd.nextInt(VARBYTES[t])).add(BigInteger.valueOf(rnd.nextInt(3) - 1));
            if (rnd.nextInt(40) == 0)
                v0 = new BigInteger[] {BigInteger.valueOf(Short.MIN_VALUE), BigInteger.valueOf(Integer.MIN_VALUE), LMIN}[rnd.nextInt(3)];
            if (t == 0 || t == 4)
                v0 = BigInteger.valueOf(v0.shortValue());
            else if (t == 1 || t == 5 || t == 8)
                v0 = BigInteger.valueOf(v0.intValue());
            else if (t != 7)
                v0 = BigInteger.valueOf(v0.longValue());
            final BigInteger v = v0;
            int len = varLen(t, v);
            String what = VAR[t] + " " + v;
            int[] size = {-1};
            Throwable ex = caught(() -> size[0] = varSize(t, v));
            check((ex == null) == (len > 0), "bit size of " + what + (ex == null ? " accepted: " + size[0] : " rejected: " + ex));
            if (len > 0)
                check(size[0] == 8 * len, "bit size of " + what + " is " + size[0]);
            ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter(rnd.nextInt(4));
            int off = rnd.nextInt(8);
            Bits ref = new Bits();
            ref.add(BigInteger.valueOf(85), off);
            if (off > 0)
                w.writeBits(85 & ((1 << off) - 1), off);
            ex = caught(() -> varWrite(w, t, v));
            check((ex == null) == (len > 0), "writing " + what + (ex == null ? " accepted" : " rejected: " + ex));
            if (len == 0)
            {
                check(w.getBitPosition() == off, "rejected writing of " + what + " writes bits");
                continue;
            }
            varEncode(ref, t, v);
            check(w.getBitPosition() == off + 8 * len, "writing " + what + " writes " + (w.getBitPosition() - off) + " bits");
            check(Arrays.equals(w.toByteArray(), ref.bytes()), "writing " + what + " at offset " + off + " gives " + Arrays.toString(w.toByteArray()));
            ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(w.toByteArray());
            if (off > 0)
                r.readBits(off);
            BigInteger got = varRead(r, t);
            check(got.equals(v), "reading back " + what + " gives " + got);
            check(r.getBitPosition() == off + 8 * len, "reading back " + what + " ends at " + r.getBitPosition());
            if (t == 8)
            {
                byte[] b = new byte[5];
                rnd.nextBytes(b);
                for (int i = 0; i < 4; ++i)
                    b[i] |= 128;
                long m = 0;
                for (int i = 0; i < 4; ++i)
                    m = m << 7 | (b[i] & 127);
                final long mm = m << 8 | (b[4] & 255);
                ByteArrayBitStreamReader q = new ByteArrayBitStreamReader(b);
                ex = caught(() -> check(q.readVarSize() == mm, "reading varsize " + Arrays.toString(b)));
                check((ex == null) == (mm <= Integer.MAX_VALUE), "reading varsize " + Arrays.toString(b) + (ex == null ? " accepted" : " rejected"));
            }
        }
    }

    static int varSize(int t, BigInteger v)
    {
        switch (t)
        {
        case 0:
            return BitSizeOfCalculator.getBitSizeOfVarInt16(v.shortValue());
        case 1:
            return BitSizeOfCalculator.getBitSizeOfVarInt32(v.intValue());
        case 2:
            return BitSizeOfCalculator.getBitSizeOfVarInt64(v.longValue());
        case 3:
            return BitSizeOfCalculator.getBitSizeOfVarInt(v.longValue());
        case 4:
            return BitSizeOfCalculator.getBitSizeOfVarUInt16(v.shortValue());
        case 5:
            return BitSizeOfCalculator.getBitSizeOfVarUInt32(v.intValue());
        case 6:
            return BitSizeOfCalculator.getBitSizeOfVarUInt64(v.longValue());
        case 7:
            return BitSizeOfCalculator.getBitSizeOfVarUInt(v);
        default:
            return BitSizeOfCalculator.getBitSizeOfVarSize(v.intValue());
        }
    }

    static void varWrite(ByteArrayBitStreamWriter w, int t, BigInteger v) throws Exception
    {
        switch (t)
        {
        case 0:
            w.writeVarInt16(v.shortValue());
            break;
        case 1:
            w.writeVarInt32(v.intValue());
            break;
        case 2:
            w.writeVarInt64(v.longValue());
            break;
        case 3:
            w.writeVarInt(v.longValue());
            break;
        case 4:
            w.writeVarUInt16(v.shortValue());
            break;
        case 5:
            w.writeVarUInt32(v.intValue());
            break;
        case 6:
            w.writeVarUInt64(v.longValue());
            break;
        case 7:
            w.writeVarUInt(v);
            break;
        default:
            w.writeVarSize(v.intValue());
        }
    }

    static BigInteger varRead(ByteArrayBitStreamReader r, int t) throws Exception
    {
        switch (t)
        {
        case 0:
            return BigInteger.valueOf(r.readVarInt16());
        case 1:
            return BigInteger.valueOf(r.readVarInt32());
        case 2:
            return BigInteger.valueOf(r.readVarInt64());
        case 3:
            return BigInteger.valueOf(r.readVarInt());
        case 4:
            return BigInteger.valueOf(r.readVarUInt16());
        case 5:
            return BigInteger.valueOf(r.readVarUInt32());
        case 6:
            return BigInteger.valueOf(r.readVarUInt64());
        case 7:
            return r.readVarUInt();
        default:
            return BigInteger.valueOf(r.readVarSize());
        }
    }

    // ------------------------------------------------------------------ floats
    static double halfValue(int h)
    {
        double s = (h >> 15) != 0 ? -1 : 1;
        int e = (h >> 10) & 31, m = h & 1023;
        if (e == 31)
            return m == 0 ? s * Double.POSITIVE_INFINITY : Double.NaN;
        return e == 0 ? s * m * Math.pow(2, -24) : s * (1024 + m) * Math.pow(2, e - 25);
    }

    /** nearest half pattern, ties away from zero; -1 for NaN */
    static int toHalf(float f)
    {
        int b = Float.floatToRawIntBits(f), sign = (b >>> 16) & 0x8000;
        if (Float.isNaN(f))
            return -1;
        double v = Math.abs((double)f);
        if (v >= 65536.0)
            return sign | 0x7c00;
        if (v < Math.pow(2, -24))
            return sign;
        int e = 1;
        while (e < 31 && v >= Math.pow(2, e + 1 - 15))
            ++e;
        double q = v / Math.pow(2, e - 25);
        long n = (long)Math.floor(q);
        if (q - n >= 0.5)
            ++n;
        long bits = (e == 1 && n < 1024) ? n : ((long)(e - 1) << 10) + n;
        return sign | (int)Math.min(bits, 0x7c00);
    }

    static void j03() throws Exception
    {
        for (int h = 0; h < 65536; ++h)
        {
            float f = FloatUtil.convertShortToFloat((short)h);
            double e = halfValue(h);
            check(Double.isNaN(e) ? Float.isNaN(f) : (double)f == e && (Float.floatToRawIntBits(f) >>> 31) == h >> 15,
                    "convertShortToFloat(" + h + ") = " + f);
            short back = FloatUtil.convertFloatToShort(f);
            check(Double.isNaN(e) ? Double.isNaN(halfValue(back & 0xffff)) : (back & 0xffff) == h, "pattern " + h + " comes back as " + (back & 0xffff));
        }
        while (more())
        {
            int b;
            switch (rnd.nextInt(4))
            {
            case 0:
                b = rnd.nextInt();
                break;
            case 1:
                b = Float.floatToRawIntBits(FloatUtil.convertShortToFloat((short)rnd.nextInt())) + rnd.nextInt(9) - 4;
                break;
            case 2:
                b = Float.floatToRawIntBits((float)halfValue(rnd.nextInt(65536))) + 0x1000 + rnd.nextInt(9) - 4;
                break;
            default:
                b = big(32).intValue();
            }
            float f = Float.intBitsToFloat(b);
            int e = toHalf(f), g = FloatUtil.convertFloatToShort(f) & 0xffff;
            check(e < 0 ? Double.isNaN(halfValue(g)) : g == e, "convertFloatToShort(bits 0x" + Integer.toHexString(b) + " = " + f + ") = 0x" + Integer.toHexString(g));
            check(Float.isNaN(f) || FloatUtil.convertFloatToInt(f) == b, "convertFloatToInt of bits 0x" + Integer.toHexString(b));
            check(Float.floatToIntBits(FloatUtil.convertIntToFloat(b)) == Float.floatToIntBits(f), "convertIntToFloat of 0x" + Integer.toHexString(b));
            long l = rnd.nextLong();
            double d = Double.longBitsToDouble(l);
            check(Double.isNaN(d) || FloatUtil.convertDoubleToLong(d) == l, "convertDoubleToLong of 0x" + Long.toHexString(l));
            check(Double.doubleToLongBits(FloatUtil.convertLongToDouble(l)) == Double.doubleToLongBits(d), "convertLongToDouble of 0x" + Long.toHexString(l));
        }
    }

    // ------------------------------------------------------------------ packed arrays
    static void j04() throws Exception
    {
        while (more())
        {
            int kind = rnd.nextInt(14);
            int n = rnd.nextInt(4) == 0 ? rnd.nextInt(40) : rnd.nextInt(6);
            BigInteger lo, hi;
            ArrayTraits traits;
            int bits = 0, var = -1;
            switch (kind)
            {
            case 0:
                bits = 1 + rnd.nextInt(8);
                traits = new ArrayTraits.SignedBitFieldByteArrayTraits(bits);
                break;
            case 1:
                bits = 1 + rnd.nextInt(16);
                traits = new ArrayTraits.SignedBitFieldShortArrayTraits(bits);
                break;
            case 2:
                bits = 1 + rnd.nextInt(32);
                traits = new ArrayTraits.SignedBitFieldIntArrayTraits(bits);
                break;
            case 3:
                bits = 1 + rnd.nextInt(64);
                traits = new ArrayTraits.SignedBitFieldLongArrayTraits(bits);
                break;
            case 4:
                bits = 1 + rnd.nextInt(64);
                traits = new ArrayTraits.BitFieldBigIntegerArrayTraits(bits);
                break;
            case 5:
                var = 0;
                traits = new ArrayTraits.VarInt16ArrayTraits();
                break;
            case 6:
                var = 1;
                traits = new ArrayTraits.VarInt32ArrayTraits();
                break;
            case 7:
                var = 2;
                traits = new ArrayTraits.VarInt64ArrayTraits();
                break;
            case 8:
                var = 3;
                traits = new ArrayTraits.VarIntArrayTraits();
                break;
            case 9:
                var = 4;
                traits = new ArrayTraits.VarUInt16ArrayTraits();
                break;
            case 10:
                var = 5;
                traits = new ArrayTraits.VarUInt32ArrayTraits();
                break;
            case 11:
                var = 6;
                traits = new ArrayTraits.VarUInt64ArrayTraits();
                break;
            case 12:
                var = 7;
                traits = new ArrayTraits.VarUIntArrayTraits();
                break;
            default:
                var = 8;
                traits = new ArrayTraits.VarSizeArrayTraits();
            }
            if (var >= 0)
            {
                hi = magMax(var, VARBYTES[var]);
                lo = var < 4 ? hi.negate() : BigInteger.ZERO;
                if (var == 3)
                {
                    hi = BigInteger.valueOf(Long.MAX_VALUE);
                    lo = LMIN;
                }
            }
            else if (kind == 4)
            {
                lo = BigInteger.ZERO;
                hi = BigInteger.ONE.shiftLeft(bits).subtract(BigInteger.ONE);
            }
            else
            {
                lo = BigInteger.ONE.shiftLeft(bits - 1).negate();
                hi = lo.negate().subtract(BigInteger.ONE);
            }
            BigInteger[] vals = new BigInteger[n];
            BigInteger range = hi.subtract(lo).add(BigInteger.ONE);
            int dw = rnd.nextInt(66);
            for (int i = 0; i < n; ++i)
            {
                BigInteger v;
                if (i > 0 && rnd.nextInt(5) > 0)
                    v = vals[i - 1].add(big(dw));
                else
                    v = big(65);
                if (rnd.nextInt(12) == 0)
                    v = rnd.nextBoolean() ? lo : hi;
                vals[i] = v.subtract(lo).mod(range).add(lo);
            }
            RawArray raw = raw(kind, vals);
            ArrayType at = rnd.nextBoolean() ? ArrayType.AUTO : ArrayType.NORMAL;
            String what = traits.getClass().getSimpleName() + "(" + (bits > 0 ? bits : "") + ") " + at + " " + Arrays.toString(vals);
            int off = rnd.nextInt(8);
            // reference encoding
            Bits ref = new Bits();
            ref.add(BigInteger.ZERO, off);
            if (at == ArrayType.AUTO)
                varEncode(ref, 8, BigInteger.valueOf(n));
            if (n > 0)
            {
                int unpacked = 0, first = 0, md = 0;
                for (int i = 0; i < n; ++i)
                {
                    int s = var >= 0 ? 8 * varLen(var, vals[i]) : bits;
                    unpacked += s;
                    if (i == 0)
                        first = s;
                    else
                        md = Math.max(md, vals[i].subtract(vals[i - 1]).abs().bitLength());
                }
                boolean packed = n > 1 && md <= 62 && 7 + first + (n - 1) * (md > 0 ? md + 1 : 0) < 1 + unpacked;
                ref.s.append(packed ? '1' : '0');
                if (packed)
                    ref.add(BigInteger.valueOf(md), 6);
                for (int i = 0; i < n; ++i)
                {
                    if (i > 0 && packed)
                    {
                        if (md > 0)
                            ref.add(vals[i].subtract(vals[i - 1]), md + 1);
                    }
                    else if (var >= 0)
                        varEncode(ref, var, vals[i]);
                    else
                        ref.add(vals[i], bits);
                }
            }
            int total = ref.s.length();
            Array a = new Array(raw, traits, at);
            check(a.bitSizeOfPacked(off) == total - off, what + ": bitSizeOfPacked gives " + a.bitSizeOfPacked(off) + " instead of " + (total - off));
            check(a.initializeOffsetsPacked(off) == total, what + ": initializeOffsetsPacked gives " + a.initializeOffsetsPacked(off));
            ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            if (off > 0)
                w.writeBits(0, off);
            a.writePacked(w);
            check(w.getBitPosition() == total, what + ": writes " + (w.getBitPosition() - off) + " bits instead of " + (total - off));
            check(Arrays.equals(w.toByteArray(), ref.bytes()), what + ": writes " + Arrays.toString(w.toByteArray()) + " instead of " + Arrays.toString(ref.bytes()));
            ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(ref.bytes(), (long)total);
            if (off > 0)
                r.readBits(off);
            Array b = new Array(raw(kind, new BigInteger[0]), traits, at);
            b.readPacked(r, n);
            check(b.equals(a) && b.size() == n, what + ": does not come back");
            check(r.getBitPosition() == total, what + ": reader ends at " + r.getBitPosition());
        }
    }

    static RawArray raw(int kind, BigInteger[] v)
    {
        switch (kind)
        {
        case 0: {
            byte[] x = new byte[v.length];
            for (int i = 0; i < x.length; ++i)
                x[i] = v[i].byteValue();
            return new RawArray.ByteRawArray(x);
        }
        case 1:
        case 5:
        case 9: {
            short[] x = new short[v.length];
            for (int i = 0; i < x.length; ++i)
                x[i] = v[i].shortValue();
            return new RawArray.ShortRawArray(x);
        }
        case 2:
        case 6:
        case 10:
        case 13: {
            int[] x = new int[v.length];
            for (int i = 0; i < x.length; ++i)
                x[i] = v[i].intValue();
            return new RawArray.IntRawArray(x);
        }
        case 4:
        case 12:
            return new RawArray.BigIntegerRawArray(v.clone());
        default: {
            long[] x = new long[v.length];
            for (int i = 0; i < x.length; ++i)
                x[i] = v[i].longValue();
            return new RawArray.LongRawArray(x);
        }
        }
    }

    // ------------------------------------------------------------------ helpers
    static void j05() throws Exception
    {
        for (int i = -70; i <= 140; ++i)
        {
            for (int s = 0; s < 2; ++s)
            {
                final int n = i;
                final boolean sg = s == 1;
                boolean ok = n >= 1 && n <= (sg ? 64 : 63);
                long[] lu = new long[2];
                Throwable t1 = caught(() -> lu[0] = BitFieldUtil.getBitFieldLowerBound(n, sg));
                Throwable t2 = caught(() -> lu[1] = BitFieldUtil.getBitFieldUpperBound(n, sg));
                check((t1 == null) == ok && (t2 == null) == ok, "bit field bounds of length " + n + (sg ? " signed" : "") + " accepted/rejected");
                if (ok)
                {
                    BigInteger p = BigInteger.ONE.shiftLeft(sg ? n - 1 : n);
                    check(BigInteger.valueOf(lu[0]).equals(sg ? p.negate() : BigInteger.ZERO), "lower bound of length " + n + (sg ? " signed" : "") + ": " + lu[0]);
                    check(BigInteger.valueOf(lu[1]).equals(p.subtract(BigInteger.ONE)), "upper bound of length " + n + (sg ? " signed" : "") + ": " + lu[1]);
                }
            }
        }
        while (more())
        {
            long v = lng();
            int al = 1 + Math.abs(big(31).intValue() % 100000);
            long p = Math.abs(v % (1L << 40));
            long a = BitPositionUtil.alignTo(al, p);
            check(a % al == 0 && a >= p && a - p < al, "alignTo(" + al + ", " + p + ") = " + a);
            check(BitPositionUtil.bytesToBits(p) == p * 8, "bytesToBits(" + p + ")");
            Throwable t = caught(() -> check(BitPositionUtil.bitsToBytes(p) * 8 == p, "bitsToBytes(" + p + ")"));
            check((t == null) == (p % 8 == 0), "bitsToBytes(" + p + ")" + (t == null ? " accepted" : " rejected"));
            int nb = v <= 0 ? 0 : v == 1 ? 1 : 64 - Long.numberOfLeadingZeros(v - 1);
            check(BuiltInOperators.numBits(v) == nb, "numBits(" + v + ") = " + BuiltInOperators.numBits(v));
            BigInteger b = big(65);
            int nbb = b.signum() <= 0 ? 0 : b.equals(BigInteger.ONE) ? 1 : b.subtract(BigInteger.ONE).bitLength();
            check(BuiltInOperators.numBits(b) == nbb, "numBits(BigInteger " + b + ") = " + BuiltInOperators.numBits(b));
            // bit buffers
            int bits = rnd.nextInt(40);
            byte[] x = new byte[(bits + 7) / 8 + rnd.nextInt(2)], y = new byte[(bits + 7) / 8 + rnd.nextInt(2)];
            rnd.nextBytes(x);
            rnd.nextBytes(y);
            boolean same = true;
            for (int i = 0; i < bits; ++i)
            {
                if (rnd.nextInt(200) > 0)
                {
                    int m = 128 >> (i % 8);
                    y[i / 8] = (byte)(y[i / 8] & ~m | x[i / 8] & m);
                }
                same &= ((x[i / 8] ^ y[i / 8]) & (128 >> (i % 8))) == 0;
            }
            BitBuffer bx = new BitBuffer(x, bits), by = new BitBuffer(y, bits);
            String w = "bit buffers of " + bits + " bits " + Arrays.toString(x) + " and " + Arrays.toString(y);
            check(bx.equals(by) == same, w + ": equals gives " + bx.equals(by));
            if (same)
                check(bx.hashCode() == by.hashCode(), w + ": hash codes differ");
            int h = 23;
            for (int i = 0; i < (bits + 7) / 8; ++i)
            {
                int m = i == bits / 8 ? (0xff00 >> (bits % 8)) & 0xff : 0xff;
                h = 37 * h + (byte)(x[i] & m);
            }
            check(bx.hashCode() == h, "hash code of " + w + " is " + bx.hashCode() + " instead of " + h);
            if (bits > 0)
                check(!bx.equals(new BitBuffer(x, bits - 1)), w + ": equal with another size");
            check(bx.getBitSize() == bits && bx.getByteSize() == (bits + 7) / 8 && bx.getBuffer().length == bx.getByteSize(), w + ": sizes");
            final long bb = rnd.nextInt(2) == 0 ? 8L * x.length + 1 + rnd.nextInt(9) : ((1L + rnd.nextInt(1 << 20)) << 35) + rnd.nextInt(8 * x.length + 1);
            check(caught(() -> new BitBuffer(x, bb)) != null, "BitBuffer of " + bb + " bits over " + x.length + " bytes accepted");
        }
    }

    static String text(int n)
    {
        StringBuilder sb = new StringBuilder();
        while (n-- > 0)
        {
            int k = rnd.nextInt(5);
            int c = k == 0 ? rnd.nextInt(0x80) : k == 1 ? rnd.nextInt(0x800) : k == 2 ? rnd.nextInt(0xd800) : k == 3 ? 0xe000 + rnd.nextInt(0x2000) : 0x10000 + rnd.nextInt(0x100000);
            sb.appendCodePoint(c);
        }
        return sb.toString();
    }

    static void j07() throws Exception
    {
        final int[] edges = {0, 1, 127, 128, 129, 15, 16, 17, 1023, 1024, 16383, 16384, 8190, 8192};
        while (more())
        {
            final int kind = rnd.nextInt(3);
            final int n = rnd.nextInt(4) == 0 ? edges[rnd.nextInt(edges.length)] : rnd.nextInt(1 + rnd.nextInt(60));
            final int off = rnd.nextInt(4) == 0 ? 0 : rnd.nextInt(20);
            ByteArrayBitStreamWriter w = rnd.nextBoolean() ? new ByteArrayBitStreamWriter(rnd.nextInt(4)) : new ByteArrayBitStreamWriter();
            Bits ref = new Bits();
            for (int i = 0; i < off; ++i)
            {
                int b = rnd.nextInt(2);
                ref.add(BigInteger.valueOf(b), 1);
                w.writeBits(b, 1);
            }
            byte[] c;
            Object value;
            int bits, predicted;
            if (kind == 0)
            {
                c = new byte[n];
                rnd.nextBytes(c);
                value = c.clone();
                bits = 8 * n;
                predicted = BitSizeOfCalculator.getBitSizeOfBytes((byte[])value);
                w.writeBytes((byte[])value);
                varEncode(ref, 8, BigInteger.valueOf(n));
            }
            else if (kind == 1)
            {
                value = text(n);
                c = ((String)value).getBytes("UTF-8");
                bits = 8 * c.length;
                predicted = BitSizeOfCalculator.getBitSizeOfString((String)value);
                w.writeString((String)value);
                varEncode(ref, 8, BigInteger.valueOf(c.length));
            }
            else
            {
                bits = n;
                c = new byte[(n + 7) / 8 + rnd.nextInt(2)];
                rnd.nextBytes(c);
                value = new BitBuffer(c, n);
                predicted = BitSizeOfCalculator.getBitSizeOfBitBuffer((BitBuffer)value);
                w.writeBitBuffer((BitBuffer)value);
                varEncode(ref, 8, BigInteger.valueOf(n));
            }
            int start = ref.s.length();
            for (int i = 0; i < bits; ++i)
                ref.s.append((c[i / 8] & 128 >> i % 8) != 0 ? '1' : '0');
            String what = (kind == 0 ? "bytes" : kind == 1 ? "string" : "bit buffer") + " of " + bits + " bits " + (c.length < 40 ? Arrays.toString(c) : "...") + " at position " + off;
            int end = ref.s.length();
            check(predicted == end - off, "predicted size of " + what + " is " + predicted + " instead of " + (end - off));
            check(w.getBitPosition() == end, "writing " + what + " writes " + (w.getBitPosition() - off) + " bits");
            // something that follows
            w.writeBits(45, 6);
            ref.add(BigInteger.valueOf(45), 6);
            byte[] out = w.toByteArray();
            check(Arrays.equals(out, ref.bytes()), "writing " + what + " gives other bytes");
            ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(out, (long)end);
            ByteArrayBitStreamReader full = new ByteArrayBitStreamReader(out);
            full.setBitPosition(off);
            r = rnd.nextBoolean() && (end + 7) / 8 == out.length ? r : full;
            r.setBitPosition(off);
            if (kind == 0)
                check(Arrays.equals(r.readBytes(), c), "reading back " + what + " gives other bytes");
            else if (kind == 1)
                check(r.readString().equals(value), "reading back " + what + " gives another string");
            else
            {
                BitBuffer b = r.readBitBuffer();
                check(b.equals(value) && b.getBitSize() == bits, "reading back " + what + " gives another bit buffer");
            }
            check(r.getBitPosition() == end, "reading back " + what + " ends at " + r.getBitPosition() + " instead of " + end);
            if (bits > 0)
            {
                // a stream that ends inside the content
                int cut = start + rnd.nextInt(bits);
                byte[] shorter = Arrays.copyOf(out, (cut + 7) / 8);
                if (cut > 0)
                {
                    ByteArrayBitStreamReader t = new ByteArrayBitStreamReader(shorter, (long)cut);
                    t.setBitPosition(off);
                    Throwable e = caught(() -> {
                        if (kind == 0)
                            t.readBytes();
                        else if (kind == 1)
                            t.readString();
                        else
                            t.readBitBuffer();
                    });
                    check(e instanceof java.io.IOException, "reading " + what + " from a stream cut after " + cut + " bits: " + e);
                }
            }
        }
    }

    static int st(int h, int x)
    {
        return 37 * h + x;
    }

    static int fold(long v)
    {
        return (int)(v ^ (v >>> 32));
    }

    static int of(float f)
    {
        return f != f ? 0x7fc00000 : Float.floatToRawIntBits(f);
    }

    static int of(double d)
    {
        return fold(d != d ? 0x7ff8000000000000L : Double.doubleToRawLongBits(d));
    }

    static int of(BigInteger b)
    {
        // 64 bits folded; the sign of a negative value fills the upper half of what is folded in
        return (int)(b.longValue() ^ b.shiftRight(32).longValue());
    }

    static class Item implements zserio.runtime.ZserioEnum, zserio.runtime.SizeOf
    {
        Number value;
        int hash;

        @Override
        public Number getGenericValue()
        {
            return value;
        }

        @Override
        public int hashCode()
        {
            return hash;
        }

        @Override
        public boolean equals(Object o)
        {
            return o == this;
        }

        @Override
        public int bitSizeOf()
        {
            return 0;
        }

        @Override
        public int bitSizeOf(long position)
        {
            return 0;
        }
    }

    static class Obj implements zserio.runtime.SizeOf
    {
        int hash;

        @Override
        public int hashCode()
        {
            return hash;
        }

        @Override
        public boolean equals(Object o)
        {
            return o == this;
        }

        @Override
        public int bitSizeOf()
        {
            return 0;
        }

        @Override
        public int bitSizeOf(long position)
        {
            return 0;
        }
    }

    static void hash(int got, int want, String what)
    {
        check(got == want, "hash code of " + what + " is " + got + " instead of " + want);
    }

    static void j06()
    {
        while (more())
        {
            final int s = (int)lng();
            final long v = lng();
            final String at = ", seed " + s;
            for (int b = 0; b < 2; ++b)
            {
                hash(HashCodeUtil.calcHashCode(s, b == 1), st(s, b), "boolean " + b + at);
                hash(HashCodeUtil.calcHashCode(s, Boolean.valueOf(b == 1)), st(s, b), "Boolean " + b + at);
            }
            hash(HashCodeUtil.calcHashCode(s, (int)v), st(s, (int)v), "int " + (int)v + at);
            hash(HashCodeUtil.calcHashCode(s, v), st(s, fold(v)), "long " + v + at);
            hash(HashCodeUtil.calcHashCode(s, Byte.valueOf((byte)v)), st(s, (byte)v), "Byte " + (byte)v + at);
            hash(HashCodeUtil.calcHashCode(s, Short.valueOf((short)v)), st(s, (short)v), "Short " + (short)v + at);
            hash(HashCodeUtil.calcHashCode(s, Integer.valueOf((int)v)), st(s, (int)v), "Integer " + (int)v + at);
            hash(HashCodeUtil.calcHashCode(s, Long.valueOf(v)), st(s, fold(v)), "Long " + v + at);
            float f = rnd.nextInt(4) == 0 ? rnd.nextInt(100) - 50 : Float.intBitsToFloat((int)v);
            double d = rnd.nextInt(4) == 0 ? -0.0 : Double.longBitsToDouble(v);
            hash(HashCodeUtil.calcHashCode(s, f), st(s, of(f)), "float " + f + at);
            hash(HashCodeUtil.calcHashCode(s, Float.valueOf(f)), st(s, of(f)), "Float " + f + at);
            hash(HashCodeUtil.calcHashCode(s, d), st(s, of(d)), "double " + d + at);
            hash(HashCodeUtil.calcHashCode(s, Double.valueOf(d)), st(s, of(d)), "Double " + d + at);
            BigInteger big = rnd.nextBoolean() ? BigInteger.valueOf(v) : BigInteger.valueOf(v).and(BigInteger.ONE.shiftLeft(64).subtract(BigInteger.ONE));
            hash(HashCodeUtil.calcHashCode(s, big), st(s, of(big)), "BigInteger " + big + at);
            String nul = "null" + at;
            hash(HashCodeUtil.calcHashCode(s, (Boolean)null), st(s, 0), nul + " Boolean");
            hash(HashCodeUtil.calcHashCode(s, (Byte)null), st(s, 0), nul + " Byte");
            hash(HashCodeUtil.calcHashCode(s, (Short)null), st(s, 0), nul + " Short");
            hash(HashCodeUtil.calcHashCode(s, (Integer)null), st(s, 0), nul + " Integer");
            hash(HashCodeUtil.calcHashCode(s, (Long)null), st(s, 0), nul + " Long");
            hash(HashCodeUtil.calcHashCode(s, (Float)null), st(s, 0), nul + " Float");
            hash(HashCodeUtil.calcHashCode(s, (Double)null), st(s, 0), nul + " Double");
            hash(HashCodeUtil.calcHashCode(s, (BigInteger)null), st(s, 0), nul + " BigInteger");
            hash(HashCodeUtil.calcHashCode(s, (String)null), st(s, 0), nul + " String");
            hash(HashCodeUtil.calcHashCode(s, (BitBuffer)null), st(s, 0), nul + " BitBuffer");
            hash(HashCodeUtil.calcHashCode(s, (Item)null), st(s, 0), nul + " enum");
            hash(HashCodeUtil.calcHashCode(s, (Obj)null), st(s, 0), nul + " object");
            hash(HashCodeUtil.calcHashCode(s, (Array)null), st(s, 0), nul + " Array");
            hash(HashCodeUtil.calcHashCode(s, (boolean[])null), st(s, 0), nul + " boolean[]");
            hash(HashCodeUtil.calcHashCode(s, (byte[])null), st(s, 0), nul + " byte[]");
            hash(HashCodeUtil.calcHashCode(s, (short[])null), st(s, 0), nul + " short[]");
            hash(HashCodeUtil.calcHashCode(s, (int[])null), st(s, 0), nul + " int[]");
            hash(HashCodeUtil.calcHashCode(s, (long[])null), st(s, 0), nul + " long[]");
            hash(HashCodeUtil.calcHashCode(s, (float[])null), st(s, 0), nul + " float[]");
            hash(HashCodeUtil.calcHashCode(s, (double[])null), st(s, 0), nul + " double[]");
            hash(HashCodeUtil.calcHashCode(s, (BigInteger[])null), st(s, 0), nul + " BigInteger[]");
            hash(HashCodeUtil.calcHashCode(s, (byte[][])null), st(s, 0), nul + " byte[][]");
            hash(HashCodeUtil.calcHashCode(s, (String[])null), st(s, 0), nul + " String[]");
            hash(HashCodeUtil.calcHashCode(s, (BitBuffer[])null), st(s, 0), nul + " BitBuffer[]");
            hash(HashCodeUtil.calcHashCode(s, (Item[])null), st(s, 0), nul + " enum[]");
            hash(HashCodeUtil.calcHashCode(s, (Obj[])null), st(s, 0), nul + " object[]");
            int n = rnd.nextInt(6) * rnd.nextInt(4);
            boolean[] az = new boolean[n];
            byte[] ab = new byte[n];
            short[] as = new short[n];
            int[] ai = new int[n];
            long[] al = new long[n];
            float[] af = new float[n];
            double[] ad = new double[n];
            BigInteger[] ag = new BigInteger[n];
            byte[][] aab = new byte[n][];
            String[] at2 = new String[n];
            BitBuffer[] abb = new BitBuffer[n];
            Item[] ae = new Item[n];
            Obj[] ao = new Obj[n];
            int[] h = new int[13];
            Arrays.fill(h, s);
            int[] h23 = new int[13];
            Arrays.fill(h23, 23);
            for (int i = 0; i < n; ++i)
            {
                long x = lng();
                az[i] = rnd.nextBoolean();
                ab[i] = (byte)x;
                as[i] = (short)x;
                ai[i] = (int)x;
                al[i] = x;
                af[i] = Float.intBitsToFloat((int)x);
                ad[i] = Double.longBitsToDouble(x);
                ag[i] = rnd.nextBoolean() ? BigInteger.valueOf(x) : BigInteger.valueOf(x).and(BigInteger.ONE.shiftLeft(64).subtract(BigInteger.ONE));
                aab[i] = new byte[rnd.nextInt(4)];
                rnd.nextBytes(aab[i]);
                StringBuilder sb = new StringBuilder();
                for (int k = rnd.nextInt(4); k > 0; --k)
                    sb.append((char)rnd.nextInt(1 << (1 + rnd.nextInt(16))));
                at2[i] = sb.toString();
                abb[i] = new BitBuffer(aab[i], aab[i].length * 8L - (aab[i].length > 0 ? rnd.nextInt(8) : 0));
                ae[i] = new Item();
                int k = rnd.nextInt(5);
                ae[i].hash = (int)lng();
                ae[i].value = k == 0 ? (Number)Byte.valueOf((byte)x) : k == 1 ? (Number)Short.valueOf((short)x) : k == 2 ? (Number)Integer.valueOf((int)x) : k == 3 ? (Number)Long.valueOf(x) : ag[i];
                ao[i] = new Obj();
                ao[i].hash = (int)x;
                for (int[] q : new int[][] {h, h23})
                {
                    q[0] = st(q[0], az[i] ? 1 : 0);
                    q[1] = st(q[1], ab[i]);
                    q[2] = st(q[2], as[i]);
                    q[3] = st(q[3], ai[i]);
                    q[4] = st(q[4], fold(x));
                    q[5] = st(q[5], of(af[i]));
                    q[6] = st(q[6], of(ad[i]));
                    q[7] = st(q[7], of(ag[i]));
                    for (byte y : aab[i])
                        q[8] = st(q[8], y);
                    for (int c = 0; c < at2[i].length(); ++c)
                        q[9] = st(q[9], at2[i].charAt(c));
                    q[10] = st(q[10], abb[i].hashCode());
                    q[11] = st(q[11], st(23, k < 4 ? fold(ae[i].value.longValue()) : of(ag[i])));
                    q[12] = st(q[12], ao[i].hash);
                }
                int hs = s;
                for (int c = 0; c < at2[i].length(); ++c)
                    hs = st(hs, at2[i].charAt(c));
                hash(HashCodeUtil.calcHashCode(s, at2[i]), hs, "String " + Arrays.toString(at2[i].toCharArray()) + at);
                hash(HashCodeUtil.calcHashCode(s, ae[i]), st(s, st(23, k < 4 ? fold(ae[i].value.longValue()) : of(ag[i]))), "enum item of value " + ae[i].value + at);
                hash(HashCodeUtil.calcHashCode(s, ao[i]), st(s, ao[i].hash), "object" + at);
                hash(HashCodeUtil.calcHashCode(s, abb[i]), st(s, abb[i].hashCode()), "BitBuffer" + at);
            }
            hash(HashCodeUtil.calcHashCode(s, az), h[0], "boolean[] " + Arrays.toString(az) + at);
            hash(HashCodeUtil.calcHashCode(s, ab), h[1], "byte[] " + Arrays.toString(ab) + at);
            hash(HashCodeUtil.calcHashCode(s, as), h[2], "short[] " + Arrays.toString(as) + at);
            hash(HashCodeUtil.calcHashCode(s, ai), h[3], "int[] " + Arrays.toString(ai) + at);
            hash(HashCodeUtil.calcHashCode(s, al), h[4], "long[] " + Arrays.toString(al) + at);
            hash(HashCodeUtil.calcHashCode(s, af), h[5], "float[] " + Arrays.toString(af) + at);
            hash(HashCodeUtil.calcHashCode(s, ad), h[6], "double[] " + Arrays.toString(ad) + at);
            hash(HashCodeUtil.calcHashCode(s, ag), h[7], "BigInteger[] " + Arrays.toString(ag) + at);
            hash(HashCodeUtil.calcHashCode(s, aab), h[8], "byte[][] " + Arrays.deepToString(aab) + at);
            hash(HashCodeUtil.calcHashCode(s, at2), h[9], "String[] of " + n + at);
            hash(HashCodeUtil.calcHashCode(s, abb), h[10], "BitBuffer[] of " + n + at);
            hash(HashCodeUtil.calcHashCode(s, ae), h[11], "enum[] of " + n + at);
            hash(HashCodeUtil.calcHashCode(s, ao), h[12], "object[] of " + n + at);
            RawArray[] raws = {new RawArray.BooleanRawArray(az), new RawArray.ByteRawArray(ab), new RawArray.ShortRawArray(as), new RawArray.IntRawArray(ai),
                    new RawArray.LongRawArray(al), new RawArray.FloatRawArray(af), new RawArray.DoubleRawArray(ad), new RawArray.BigIntegerRawArray(ag),
                    new RawArray.BytesRawArray(aab), new RawArray.StringRawArray(at2), new RawArray.BitBufferRawArray(abb), new RawArray.EnumRawArray<Item>(Item.class, ae),
                    new RawArray.ObjectRawArray<Obj>(Obj.class, ao)};
            for (int i = 0; i < raws.length; ++i)
            {
                hash(raws[i].hashCode(), h23[i], raws[i].getClass().getSimpleName() + " of " + n + " elements");
                Array arr = new Array(raws[i], new ArrayTraits.BoolArrayTraits(), ArrayType.NORMAL);
                hash(arr.hashCode(), h23[i], "Array over " + raws[i].getClass().getSimpleName() + " of " + n + " elements");
                hash(HashCodeUtil.calcHashCode(s, arr), st(s, h23[i]), "Array over " + raws[i].getClass().getSimpleName() + " of " + n + " elements" + at);
            }
        }
    }

    public static void main(String[] args)
    {
        String pid = args[0];
        rnd = new Random(Long.parseLong(args[1]));
        deadline = System.currentTimeMillis() + Long.parseLong(args[2]);
        if (args.length > 3 && !args[3].isEmpty())
            for (String s : args[3].split(","))
                pool.add(new BigInteger(s));
        int rc = 0;
        try
        {
            switch (pid)
            {
            case "J01":
                j01();
                break;
            case "J02":
                j02();
                break;
            case "J03":
                j03();
                break;
            case "J04":
                j04();
                break;
            case "J06":
                j06();
                break;
            case "J07":
                j07();
                break;
            default:
                j05();
            }
        }
        catch (Fail f)
        {
            System.out.println("FAIL " + f.getMessage());
            rc = 1;
        }
        catch (Throwable t)
        {
            System.out.println("FAIL unexpected " + t + " at " + (t.getStackTrace().length > 0 ? Arrays.toString(Arrays.copyOf(t.getStackTrace(), Math.min(4, t.getStackTrace().length))) : ""));
            rc = 1;
        }
        System.out.println("COUNT " + count);
        System.exit(rc);
    }
}
