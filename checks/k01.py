"""K01  constant values and bounds that the compiler derives for integer expressions are sound."""
import os
import z3
from dv import core, exact, jbuild, jclass, jvm, spec
from dv import jharness as h
from dv.exact import ZI
from dv.jvm import JBig, JObj, is_z
from dv.runner import Case

AST = "zserio/ast/"
EX, EV, PARSER = AST + "Expression", AST + "ExpressionIntegerValue", "zserio/antlr/ZserioParser"
TECHNIQUE = ("deductive: one contract per operator on Expression.evaluate() and everything it calls (ExpressionIntegerValue), obligations generated by symbolic "
             "execution of the bytecode compiled from the current source over unbounded integers, discharged by z3; operator trees by induction over these contracts")
FUNCTIONS = ["Expression constructors, initialize, evaluate, evaluateParenthesizedExpression, evaluateNumBitsOperator, evaluateUnaryPlusMinus, evaluateBitNotExpression, "
             "evaluateArithmeticExpression, evaluateBitExpression, evaluateRelationalExpression, evaluateConditionalExpression, evaluateValueOfOperator, propagateNeedsBigInteger",
             "Expression.getIntegerValue, getIntegerLowerBound, getIntegerUpperBound",
             "ExpressionIntegerValue: all constructors, negate, add, subtract, multiply, divide, remainder, shiftLeft, shiftRight, and, or, xor, not, numbits, conditional, relationalOperator, "
             "getNumBits, MinMaxValue"]
TRUSTED = ["javac (the verified text is its bytecode for the current source)", "dv.jvm: JVM bytecode semantics",
           "dv.exact: BigInteger as exact integers; products, quotients, shifts, bitwise and, bitLength described by true (incomplete) facts", "z3"]
ASSUMPTIONS = ["shift counts are 0 to 63 and divisors are not zero (anything else is undefined at run time)", "numbits is applied to values that are not negative",
               "the value of an operand lies within the operand's own bounds (induction hypothesis; for a field or parameter: the range of its type)"]
NOTE = ("every operator of integer expressions, every combination of known/partly known/unknown operand bounds, all (unbounded) bounds and operand values; "
        "an operator tree of any depth by structural induction, because the result of each operator satisfies what is assumed of operands")
_CP = None


def cp():
    global _CP
    if _CP is None:
        _CP = jclass.ClassPath(os.path.join(jbuild.core(), "classes"))
    return _CP


def prepare():
    cp()
    driver()


def token(name):
    c = cp().find(PARSER).fields[name][2]
    return c[1]


def driver():
    src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "java-core")
    base = jbuild.core()
    files = jbuild._files(src, suffix=".java")
    cpath = ":".join([os.path.join(base, "classes")] + jbuild.jars())

    def make(dest):
        os.makedirs(os.path.join(dest, "classes"))
        jbuild._run(["javac", "-nowarn", "-encoding", "utf8", "-Xlint:-options", "--release", "8", "-cp", cpath, "-d", os.path.join(dest, "classes")] + files)
    d = jbuild._cached("kdrv_" + os.path.basename(base)[5:], files, make)
    return os.path.join(d, "classes") + ":" + cpath


CONST, RANGE, LOWER, UPPER, UNKNOWN, BARE = range(6)
KINDS = ("constant", "range", "lower", "upper", "unknown", "constant without bounds")


class World:
    def __init__(self, e):
        self.e = e
        v = self.v = jvm.VM(cp(), e)
        v.max_steps = 400000
        et = EX + "$ExpressionType"
        for nm, (fl, ds, _c) in cp().find(et).fields.items():
            if fl & 0x4000:
                v.statics[(et, nm)] = JObj(et, nm)
        v.inited.add(et)
        es = EX + "$EvaluationState"
        if cp().find(es) is not None:
            for nm, (fl, ds, _c) in cp().find(es).fields.items():
                if fl & 0x4000:
                    v.statics[(es, nm)] = JObj(es, nm)
            v.inited.add(es)
        self.loc = JObj(AST + "AstLocation")
        self.et = et
        self.bounds = []

    def expr(self, tok, *ops):
        L = "L%s;" % EX
        desc = "(L%sAstLocation;L%sPackage;ILjava/lang/String;L%s$ExpressionFlag;%s)V" % (AST, AST, EX, L * len(ops))
        return self.v.new(EX, desc, self.loc, None, token(tok), "?", None, *ops)

    def field(self, obj, ds):
        fs = [f for f, (fl, d, _c) in cp().find(EX).fields.items() if d == ds and not fl & 8]
        if len(fs) != 1:
            raise core.Unsupported("fields of type %s in Expression" % ds)
        return fs[0]

    def operand(self, name, kind, ety="INTEGER", big=None):
        """an expression already evaluated, and its (unknown) run-time value within its bounds"""
        e = self.e
        x = z3.Int(name)
        e.inputs[name] = x
        lo = hi = val = None
        if kind in (CONST, BARE):
            val = JBig(ZI(x))
        if kind == CONST:
            lo = hi = val
        if kind in (RANGE, LOWER):
            l = z3.Int(name + "_low")
            e.inputs[name + "_low"] = l
            e.assume(l <= x)
            lo = JBig(ZI(l))
        if kind in (RANGE, UPPER):
            u = z3.Int(name + "_high")
            e.inputs[name + "_high"] = u
            e.assume(x <= u)
            hi = JBig(ZI(u))
        B = "Ljava/math/BigInteger;"
        big = e.choose(2) if big is None else big
        iv = self.v.new(EV, "(%s%s%sZ)V" % (B, B, B), val, lo, hi, big)
        o = self.expr("INDEX")
        o.f[self.field(o, "L%s;" % EV)] = iv
        o.f[self.field(o, "L%s;" % self.et)] = self.v.statics[(self.et, ety)]
        self.bounds.append([exact.zi(b.v) for b in (lo, hi) if b is not None and kind == RANGE])
        return o, x

    def evaluate(self, o, name, allowed=()):
        return h.run(self.e, self.v, lambda: self.v.vcall(o, "evaluate", "()V"), name, allowed)[0]

    def check(self, o, values, name):
        """every value in `values` (exact integers the expression can have) is within what was derived"""
        e, v = self.e, self.v
        B = "()Ljava/math/BigInteger;"
        val, lo, hi = (v.vcall(o, n, B) for n in ("getIntegerValue", "getIntegerLowerBound", "getIntegerUpperBound"))
        for z in values:
            for b, rel, nm in ((val, lambda a, b: a == b, "constant"), (lo, lambda a, b: a >= b, "lower-bound"), (hi, lambda a, b: a <= b, "upper-bound")):
                if b is None:
                    e.prove(True, "%s.%s" % (name, nm))
                else:
                    e.prove(rel(z, exact.zi(b.v)), "%s.%s" % (name, nm))
        e.prove(self.v.statics[(self.et, "INTEGER")] is self.typ(o), name + ".integer-type")
        e.reach("end")

    def typ(self, o):
        return o.f[self.field(o, "L%s;" % self.et)]


def unary(tok, fn, name, pre=None, ety="INTEGER"):
    def case(e):
        w = World(e)
        kind = e.choose(6)
        o, x = w.operand("x", kind, ety)
        if pre is not None:
            e.assume(pre(x))
        r = w.expr(tok, o)
        w.evaluate(r, name)
        w.check(r, [fn(x)], name)
    return case


def binary(tok, fn, name, k1, k2, post=None, pre=None, big=(None, None)):
    """post: what the operand values satisfy when the operation is defined; pre: the same for constants (already while compiling)"""
    def case(e):
        w = World(e)
        a, x = w.operand("x", k1, big=big[0])
        b, y = w.operand("y", k2, big=big[1])
        if pre is not None and k2 in (CONST, BARE):
            e.assume(pre(x, y))
        # ghost terms: the operation with one operand at a bound links the exact value to the corners
        for p in w.bounds[0] + [x]:
            for q in w.bounds[1] + [y]:
                if w.bounds[0] and w.bounds[1]:
                    fn(p, q)
        r = w.expr(tok, a, b)
        w.evaluate(r, name)
        if post is not None:
            e.assume(post(x, y))
        w.check(r, [exact.zi(fn(x, y))], name)
    return case


def conditional(k1, k2):
    def case(e):
        w = World(e)
        c = w.expr("BOOL_LITERAL")
        w.evaluate(c, "condition")
        a, x = w.operand("x", k1)
        b, y = w.operand("y", k2)
        r = w.expr("QUESTIONMARK", c, a, b)
        w.evaluate(r, "conditional")
        w.check(r, [x, y], "conditional")
    return case


def relational(e):
    """a comparison only widens the type: the operands keep their constants and bounds"""
    w = World(e)
    a, x = w.operand("x", e.choose(3))
    b, y = w.operand("y", e.choose(3))
    r = w.expr(("LT", "LE", "GT", "GE", "EQ", "NE")[e.choose(6)], a, b)
    w.evaluate(r, "relational")
    e.prove(w.typ(r) is w.v.statics[(w.et, "BOOLEAN")], "relational.boolean-type")
    w.check(a, [x], "relational.left")
    w.check(b, [y], "relational.right")


def kept(tok, k1, k2):
    """evaluating an expression leaves the derived bounds of its operands (and of theirs) sound"""
    def case(e):
        w = World(e)
        a, x = w.operand("x", k1)
        p = w.expr("LPAREN", a)
        w.evaluate(p, "parentheses")
        b, y = w.operand("y", k2)
        if tok == "QUESTIONMARK":
            c = w.expr("BOOL_LITERAL")
            w.evaluate(c, "condition")
            r = w.expr(tok, c, p, b)
        else:
            r = w.expr(tok, p, b)
        w.evaluate(r, tok)
        for o, z, n in ((a, x, "operand-of-operand"), (p, x, "left"), (b, y, "right")):
            w.check(o, [z], "%s.keeps.%s" % (tok, n))
    return case


def types(what):
    """the bounds of a built-in type are exactly the range of its values"""
    def case(e):
        w = World(e)
        v = w.v
        v.hooks[("java/lang/Integer", "parseUnsignedInt")] = lambda vm, a: int(a[0])
        if what == "std":
            todo = [("StdIntegerType", n, (lo, hi)) for n, (lo, hi) in STD.items()]
        elif what == "var":
            todo = [("VarIntegerType", n.upper(), spec.var_range(n)) for n in spec.VAR]
        else:
            todo = [("FixedBitFieldType", k, rng(what == "int", k)) for k in range(1, 65)]
        for cls, n, (lo, hi) in todo:
            c = AST + cls
            if cls == "FixedBitFieldType":
                t = v.new(c, "(L%sAstLocation;Ljava/lang/String;ZLjava/lang/String;)V" % AST, w.loc, what, int(what == "int"), str(n))
            else:
                t = v.new(c, "(L%sAstLocation;Ljava/lang/String;I)V" % AST, w.loc, n.lower(), token(n))
            for m, want in (("getLowerBound", lo), ("getUpperBound", hi)):
                e.prove(v.vcall(t, m, "()Ljava/math/BigInteger;").v == want, "type-range.%s.%s.%s" % (cls, n, m))
        e.reach("end")
    return case


def rng(signed, k):
    return (-(1 << (k - 1)), (1 << (k - 1)) - 1) if signed else (0, (1 << k) - 1)


STD = {"%sINT%d" % (u, k): rng(not u, k) for u in ("", "U") for k in (8, 16, 32, 64)}


def dynamic(signed, kind):
    """the bounds of a dynamic bit field contain every value that any length its length expression can have allows"""
    def case(e):
        w = World(e)
        v = w.v
        n, x = w.operand("length", kind)
        # the length at run time; any other is an error then
        e.assume(z3.And(x >= 1, x <= 64))
        DT, DI = AST + "DynamicBitFieldType", AST + "DynamicBitFieldInstantiation"
        t = v.new(DT, "(L%sAstLocation;Ljava/lang/String;Z)V" % AST, w.loc, "bit", signed)
        e.prove(z3.And(*[exact.zi(v.vcall(t, m, "()Ljava/math/BigInteger;").v) == z for m, z in zip(("getLowerBound", "getUpperBound"), rng(signed, 64))]), "dynamic.type-range")
        v.hooks[(DI, "getBaseType")] = lambda vm, a: t
        d = v.new(DI, "(L%sAstLocation;L%sTypeReference;L%s;)V" % (AST, AST, EX), w.loc, JObj(AST + "TypeReference"), n)
        h.run(e, v, lambda: v.vcall(d, "evaluate", "()V"), "dynamic")
        lo, hi = (exact.zi(v.vcall(d, m, "()Ljava/math/BigInteger;").v) for m in ("getLowerBound", "getUpperBound"))
        p = exact.pow2(x - 1)
        for k in (z3.IntVal(63), z3.IntVal(64), x):
            exact.pow2(k)           # the facts between powers
        e.prove(lo <= (-p if signed else 0), "dynamic.lower-bound")
        e.prove(hi >= (p - 1 if signed else 2 * p - 1), "dynamic.upper-bound")
        m = v.vcall(d, "getMaxBitSize", "()I")
        e.prove(x <= (exact.zi(m) if not is_z(m) else z3.BV2Int(m)), "dynamic.max-bit-size")
        e.reach("end")
    return case


def numbits(x):
    return z3.If(x <= 0, 0, z3.If(x == 1, 1, exact.bit_length(x - 1)))


OPS = [("PLUS", lambda x, y: x + y, "add", {}), ("MINUS", lambda x, y: x - y, "subtract", {}),
       ("MULTIPLY", lambda x, y: exact.mul(x, y), "multiply", {}),
       ("DIVIDE", lambda x, y: exact.divmod_trunc(x, y)[0], "divide", dict(post=lambda x, y: y != 0, pre=lambda x, y: y != 0)),
       ("MODULO", lambda x, y: exact.divmod_trunc(x, y)[1], "remainder", dict(post=lambda x, y: y != 0, pre=lambda x, y: y != 0)),
       ("LSHIFT", lambda x, y: exact.shl(x, y), "shift-left", dict(post=lambda x, y: z3.And(y >= 0, y <= 63), pre=lambda x, y: z3.And(y >= 0, y <= 63))),
       ("RSHIFT", lambda x, y: exact.shr(x, y), "shift-right", dict(post=lambda x, y: z3.And(y >= 0, y <= 63), pre=lambda x, y: z3.And(y >= 0, y <= 63))),
       ("AND", lambda x, y: exact.bit_and(x, y), "and", {}), ("OR", lambda x, y: ZI(x) | ZI(y), "or", {}), ("XOR", lambda x, y: ZI(x) ^ ZI(y), "xor", {})]


def cases(tier):
    r = [Case("unary.plus", unary("PLUS", lambda x: x, "plus")), Case("unary.minus", unary("MINUS", lambda x: -x, "minus")),
         Case("unary.not", unary("TILDE", lambda x: -x - 1, "not")), Case("unary.parentheses", unary("LPAREN", lambda x: x, "parentheses")),
         Case("unary.valueof", unary("VALUEOF", lambda x: x, "valueof", ety="ENUM")), Case("unary.valueof-bitmask", unary("VALUEOF", lambda x: x, "valueof", ety="BITMASK")),
         Case("unary.numbits", unary("NUMBITS", numbits, "numbits", pre=lambda x: x >= 0)), Case("relational", relational)]
    r += [Case("types." + t, types(t)) for t in ("std", "var", "bit", "int")]
    r += [Case("dynamic.%s.%s" % (("unsigned", "signed")[sg], KINDS[k].replace(" ", "-")), dynamic(sg, k)) for sg in (0, 1) for k in range(6)]
    for tok, fn, name, kw in OPS:
        for k1 in range(6):
            for k2 in range(6):
                nm = "%s.%s.%s" % (name, KINDS[k1].replace(" ", "-"), KINDS[k2].replace(" ", "-"))
                if k1 == RANGE == k2:
                    for big in ((0, 0), (0, 1), (1, 0), (1, 1)):
                        r.append(Case("%s.%d%d" % ((nm,) + big), binary(tok, fn, name, k1, k2, big=big, **kw)))
                else:
                    r.append(Case(nm, binary(tok, fn, name, k1, k2, **kw)))
    for k1 in range(6):
        for k2 in range(6):
            r.append(Case("conditional.%s.%s" % (KINDS[k1].replace(" ", "-"), KINDS[k2].replace(" ", "-")), conditional(k1, k2)))
    for tok in [o[0] for o in OPS if o[0] not in ("LSHIFT", "RSHIFT", "DIVIDE", "MODULO")] + ["QUESTIONMARK"]:
        for k1, k2 in ((CONST, RANGE), (RANGE, CONST)):
            r.append(Case("keeps.%s.%s.%s" % (tok, KINDS[k1], KINDS[k2]), kept(tok, k1, k2)))
    return r


def search(seed, budget, hints):
    return h.search("zserio.ast.KSearch", "K01", seed, budget, hints, driver())
