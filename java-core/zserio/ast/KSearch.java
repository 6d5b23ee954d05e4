package zserio.ast;

import java.math.BigInteger;
import java.util.ArrayList;
import java.util.List;
import java.util.Random;

import zserio.antlr.ZserioParser;

/** Concrete search on the unmodified compiler classes: random operator trees, exact values against derived bounds. */
public class KSearch
{
    static Random rnd;
    static long count = 0;
    static List<BigInteger> pool = new ArrayList<>();
    static final AstLocation LOC = new AstLocation("search", 1, 1);

    static class Node
    {
        Expression ex;
        String text;
        int tok;
        Node[] op;
        BigInteger lo, hi; // of leaves
        BigInteger cur;
        boolean skip;
    }

    static Expression mk(int tok, String text, Expression... o)
    {
        final Expression.ExpressionFlag f = Expression.ExpressionFlag.NONE;
        if (o.length == 0)
            return new Expression(LOC, null, tok, text, f);
        if (o.length == 1)
            return new Expression(LOC, null, tok, text, f, o[0]);
        if (o.length == 2)
            return new Expression(LOC, null, tok, text, f, o[0], o[1]);
        return new Expression(LOC, null, tok, text, f, o[0], o[1], o[2]);
    }

    static BigInteger number(boolean small)
    {
        if (small)
            return BigInteger.valueOf(rnd.nextInt(4) == 0 ? rnd.nextInt(70) : rnd.nextInt(8));
        BigInteger r;
        switch (rnd.nextInt(6))
        {
        case 0:
            r = pool.isEmpty() ? BigInteger.ZERO : pool.get(rnd.nextInt(pool.size()));
            break;
        case 1:
        case 2:
            r = BigInteger.valueOf(rnd.nextInt(12));
            break;
        case 3:
            r = BigInteger.ONE.shiftLeft(rnd.nextInt(65)).add(BigInteger.valueOf(rnd.nextInt(3) - 1));
            break;
        case 4:
            r = new BigInteger(1 + rnd.nextInt(16), rnd);
            break;
        default:
            r = new BigInteger(64, rnd);
            break;
        }
        return rnd.nextInt(3) == 0 ? r.negate() : r;
    }

    static void fail(Node n, String s)
    {
        System.out.println("FAIL " + s + " in " + n.text);
        System.out.println("COUNT " + count);
        System.exit(1);
    }

    static Expression literal(BigInteger v)
    {
        final BigInteger a = v.abs();
        Expression r;
        switch (rnd.nextInt(4))
        {
        case 0:
            r = mk(ZserioParser.HEXADECIMAL_LITERAL, "0x" + a.toString(16));
            break;
        case 1:
            r = mk(ZserioParser.OCTAL_LITERAL, "0" + a.toString(8));
            break;
        case 2:
            r = mk(ZserioParser.BINARY_LITERAL, a.toString(2) + "b");
            break;
        default:
            r = mk(ZserioParser.DECIMAL_LITERAL, a.toString());
            break;
        }
        r.evaluate();
        if (v.signum() < 0)
        {
            r = mk(ZserioParser.MINUS, "-", r);
            r.evaluate();
        }
        if (!v.equals(r.getIntegerValue()))
        {
            final Node n = new Node();
            n.text = "literal " + r.getText();
            fail(n, "value " + r.getIntegerValue() + " of the literal for " + v);
        }
        return r;
    }

    static Node leaf(boolean small)
    {
        final Node n = new Node();
        BigInteger a = number(small), b = number(small);
        if (rnd.nextInt(4) == 0)
            b = a.add(BigInteger.valueOf(rnd.nextInt(4)));
        n.lo = a.min(b);
        n.hi = a.max(b);
        if (rnd.nextInt(3) == 0)
        {
            n.hi = n.lo;
            n.ex = literal(n.lo);
            n.text = n.lo.signum() < 0 ? "(" + n.lo + ")" : n.lo.toString();
            return n;
        }
        final Expression c = mk(ZserioParser.BOOL_LITERAL, "true");
        c.evaluate();
        n.ex = mk(ZserioParser.QUESTIONMARK, "?", c, literal(n.lo), literal(n.hi));
        n.ex.evaluate();
        n.text = "[" + n.lo + ".." + n.hi + "]";
        if (!n.lo.equals(n.ex.getIntegerLowerBound()) || !n.hi.equals(n.ex.getIntegerUpperBound()))
            n.skip = n.ex.getIntegerValue() == null && n.ex.getIntegerLowerBound() == null;
        if (!n.skip)
            within(n, n.lo);
        if (!n.skip)
            within(n, n.hi);
        return n;
    }

    static void within(Node n, BigInteger v)
    {
        ++count;
        final BigInteger c = n.ex.getIntegerValue(), l = n.ex.getIntegerLowerBound(), u = n.ex.getIntegerUpperBound();
        final String at = " for " + values(n);
        if (c != null && !c.equals(v))
            fail(n, "constant " + c + " but the exact value is " + v + at);
        if (l != null && l.compareTo(v) > 0)
            fail(n, "lower bound " + l + " but the exact value is " + v + at);
        if (u != null && u.compareTo(v) < 0)
            fail(n, "upper bound " + u + " but the exact value is " + v + at);
    }

    static String values(Node n)
    {
        if (n.op == null)
            return n.cur == null ? "" : n.cur + " ";
        String r = "";
        for (Node o : n.op)
            r += values(o);
        return r;
    }

    static final int[] UN = {ZserioParser.PLUS, ZserioParser.MINUS, ZserioParser.TILDE, ZserioParser.LPAREN, ZserioParser.NUMBITS};
    static final int[] BIN = {ZserioParser.PLUS, ZserioParser.MINUS, ZserioParser.MULTIPLY, ZserioParser.DIVIDE, ZserioParser.MODULO, ZserioParser.LSHIFT,
            ZserioParser.RSHIFT, ZserioParser.AND, ZserioParser.OR, ZserioParser.XOR, ZserioParser.QUESTIONMARK};
    static final String[] UNT = {"+", "-", "~", "()", "numbits "};
    static final String[] BINT = {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "c ? :"};

    static Node tree(int depth, boolean small)
    {
        if (depth == 0 || rnd.nextInt(5) == 0)
            return leaf(small);
        final Node n = new Node();
        if (rnd.nextInt(4) == 0)
        {
            final int k = rnd.nextInt(UN.length);
            final Node a = tree(depth - 1, small);
            n.op = new Node[] {a};
            n.tok = UN[k];
            n.text = UNT[k] + "(" + a.text + ")";
            n.skip = a.skip;
            if (n.skip)
                return n;
            n.ex = mk(n.tok, "u", a.ex);
        }
        else
        {
            final int k = rnd.nextInt(BIN.length);
            n.tok = BIN[k];
            final boolean sh = n.tok == ZserioParser.LSHIFT || n.tok == ZserioParser.RSHIFT;
            final Node a = tree(depth - 1, small), b = tree(depth - 1, sh ? rnd.nextInt(3) > 0 : small);
            n.op = new Node[] {a, b};
            n.text = "(" + a.text + ") " + BINT[k] + " (" + b.text + ")";
            n.skip = a.skip || b.skip;
            if (n.skip)
                return n;
            final BigInteger c = b.ex.getIntegerValue();
            final boolean div = n.tok == ZserioParser.DIVIDE || n.tok == ZserioParser.MODULO;
            if (c != null && (div && c.signum() == 0 || sh && (c.signum() < 0 || c.bitLength() > 6)))
            {
                n.skip = true;
                return n;
            }
            if (n.tok == ZserioParser.QUESTIONMARK)
            {
                final Expression q = mk(ZserioParser.BOOL_LITERAL, "true");
                q.evaluate();
                n.ex = mk(n.tok, "b", q, a.ex, b.ex);
            }
            else
            {
                n.ex = mk(n.tok, "b", a.ex, b.ex);
            }
        }
        try
        {
            n.ex.evaluate();
        }
        catch (RuntimeException e)
        {
            fail(n, "unexpected " + e);
        }
        return n;
    }

    static BigInteger value(Node n)
    {
        if (n.op == null)
        {
            switch (rnd.nextInt(4))
            {
            case 0:
                n.cur = n.lo;
                break;
            case 1:
                n.cur = n.hi;
                break;
            case 2:
                n.cur = BigInteger.valueOf(rnd.nextInt(5) - 2).max(n.lo).min(n.hi);
                break;
            default:
                final BigInteger w = n.hi.subtract(n.lo).add(BigInteger.ONE);
                n.cur = n.lo.add(new BigInteger(w.bitLength() + 8, rnd).mod(w));
                break;
            }
            return n.cur;
        }
        final BigInteger a = value(n.op[0]), b = n.op.length > 1 ? value(n.op[1]) : null;
        if (a == null || n.op.length > 1 && b == null)
            return null;
        final BigInteger r = apply(n, a, b);
        if (r != null)
        {
            within(n, r);
            // evaluating an expression leaves the bounds of its operands sound
            within(n.op[0], a);
            if (b != null)
                within(n.op[1], b);
        }
        return r;
    }

    static BigInteger apply(Node n, BigInteger a, BigInteger b)
    {
        final boolean one = n.op.length == 1;
        switch (n.tok)
        {
        case ZserioParser.PLUS:
            return one ? a : a.add(b);
        case ZserioParser.MINUS:
            return one ? a.negate() : a.subtract(b);
        case ZserioParser.TILDE:
            return a.not();
        case ZserioParser.LPAREN:
            return a;
        case ZserioParser.NUMBITS:
            return a.signum() < 0 ? null : a.compareTo(BigInteger.ONE) <= 0 ? a : BigInteger.valueOf(a.subtract(BigInteger.ONE).bitLength());
        case ZserioParser.MULTIPLY:
            return a.multiply(b);
        case ZserioParser.DIVIDE:
            return b.signum() == 0 ? null : a.divide(b);
        case ZserioParser.MODULO:
            return b.signum() == 0 ? null : a.remainder(b);
        case ZserioParser.LSHIFT:
            return b.signum() < 0 || b.bitLength() > 6 ? null : a.shiftLeft(b.intValue());
        case ZserioParser.RSHIFT:
            return b.signum() < 0 || b.bitLength() > 6 ? null : a.shiftRight(b.intValue());
        case ZserioParser.AND:
            return a.and(b);
        case ZserioParser.OR:
            return a.or(b);
        case ZserioParser.XOR:
            return a.xor(b);
        case ZserioParser.QUESTIONMARK:
            return rnd.nextBoolean() ? a : b;
        default:
            throw new IllegalStateException();
        }
    }

    public static void main(String[] args)
    {
        rnd = new Random(Long.parseLong(args[1]));
        final long deadline = System.currentTimeMillis() + Long.parseLong(args[2]);
        if (args.length > 3 && !args[3].isEmpty())
            for (String s : args[3].split(","))
                pool.add(new BigInteger(s));
        while (System.currentTimeMillis() < deadline)
        {
            final Node n = tree(rnd.nextInt(8) == 0 ? 3 : rnd.nextInt(3) == 0 ? 2 : 1, rnd.nextInt(3) == 0);
            if (n.skip)
                continue;
            for (int k = 0; k < 24; ++k)
                value(n);
        }
        System.out.println("COUNT " + count);
    }
}
