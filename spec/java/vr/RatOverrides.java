package vr;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/**
 * Evaluates the operators of Rat.tla with java.math.BigInteger.
 *
 * A rational is the TLA+ string "p" or "p/q" (hexadecimal, lowest terms, q > 1), so that equality of the
 * strings is equality of the numbers. Rat.tla states what each operator means; RatRef.tla defines the same
 * operators over pairs of TLA+ integers, and RatSelfTest.tla compares the two on a grid.
 */
public class RatOverrides implements ITLCOverrides {

    @Override
    public Class[] get() {
        return new Class[] {RatOverrides.class};
    }

    /** Immutable rational p/q in lowest terms, q > 0. */
    static final class Q {
        final BigInteger p, q;
        final String key;

        private Q(BigInteger p, BigInteger q, String key) {
            this.p = p;
            this.q = q;
            this.key = key;
        }
    }

    private static final int CACHE = 1 << 17;
    private static final Q[] cache = new Q[CACHE];

    private static Q parse(Value v) {
        String s = ((StringValue) v).val.toString();
        int slot = (s.hashCode() * 0x9E3779B1) >>> 15;
        Q c = cache[slot];
        if (c != null && c.key.equals(s)) return c;
        int k = s.indexOf('/');
        BigInteger p = new BigInteger(k < 0 ? s : s.substring(0, k), 16);
        BigInteger q = k < 0 ? BigInteger.ONE : new BigInteger(s.substring(k + 1), 16);
        c = new Q(p, q, s);
        cache[slot] = c;
        return c;
    }

    private static Value make(BigInteger p, BigInteger q) {
        if (q.signum() < 0) {
            p = p.negate();
            q = q.negate();
        }
        if (p.signum() == 0) {
            q = BigInteger.ONE;
        } else if (!q.equals(BigInteger.ONE)) {
            int t = Math.min(p.getLowestSetBit(), q.getLowestSetBit());
            if (t > 0) {
                p = p.shiftRight(t);
                q = q.shiftRight(t);
            }
            if (q.bitLength() - 1 != q.getLowestSetBit()) { // q is not a power of two
                BigInteger g = p.gcd(q);
                if (!g.equals(BigInteger.ONE)) {
                    p = p.divide(g);
                    q = q.divide(g);
                }
            } else if (q.bitLength() > 1 && p.getLowestSetBit() > 0) {
                throw new IllegalStateException("not reduced");
            }
        }
        String s = q.equals(BigInteger.ONE) ? p.toString(16) : p.toString(16) + "/" + q.toString(16);
        int slot = (s.hashCode() * 0x9E3779B1) >>> 15;
        cache[slot] = new Q(p, q, s);
        return new StringValue(s);
    }

    private static int cmp(Q a, Q b) {
        int sa = a.p.signum(), sb = b.p.signum();
        if (sa != sb) return Integer.compare(sa, sb);
        return a.p.multiply(b.q).compareTo(b.p.multiply(a.q));
    }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value r(final IntValue p, final IntValue q) {
        return make(BigInteger.valueOf(p.val), BigInteger.valueOf(q.val));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value add(final Value a, final Value b) {
        Q x = parse(a), y = parse(b);
        if (x.p.signum() == 0) return b;
        if (y.p.signum() == 0) return a;
        if (x.q.equals(y.q)) return make(x.p.add(y.p), x.q);
        return make(x.p.multiply(y.q).add(y.p.multiply(x.q)), x.q.multiply(y.q));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value sub(final Value a, final Value b) {
        Q x = parse(a), y = parse(b);
        if (y.p.signum() == 0) return a;
        if (x.q.equals(y.q)) return make(x.p.subtract(y.p), x.q);
        return make(x.p.multiply(y.q).subtract(y.p.multiply(x.q)), x.q.multiply(y.q));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value mul(final Value a, final Value b) {
        Q x = parse(a), y = parse(b);
        return make(x.p.multiply(y.p), x.q.multiply(y.q));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value div(final Value a, final Value b) {
        Q x = parse(a), y = parse(b);
        if (y.p.signum() == 0) throw new ArithmeticException("Rat: division by zero");
        return make(x.p.multiply(y.q), x.q.multiply(y.p));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value neg(final Value a) {
        Q x = parse(a);
        return make(x.p.negate(), x.q);
    }

    @TLAPlusOperator(identifier = "RAbs", module = "Rat", warn = false)
    public static Value abs(final Value a) {
        Q x = parse(a);
        return x.p.signum() < 0 ? make(x.p.negate(), x.q) : a;
    }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value le(final Value a, final Value b) {
        return cmp(parse(a), parse(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value lt(final Value a, final Value b) {
        return cmp(parse(a), parse(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RMax", module = "Rat", warn = false)
    public static Value max(final Value a, final Value b) {
        return cmp(parse(a), parse(b)) >= 0 ? a : b;
    }

    @TLAPlusOperator(identifier = "RMin", module = "Rat", warn = false)
    public static Value min(final Value a, final Value b) {
        return cmp(parse(a), parse(b)) <= 0 ? a : b;
    }

    @TLAPlusOperator(identifier = "RSgn", module = "Rat", warn = false)
    public static Value sgn(final Value a) {
        return IntValue.gen(parse(a).p.signum());
    }

    /** Largest multiple of 2^-k that is <= x. */
    private static BigInteger floorScaled(Q x, int k) {
        BigInteger n = k >= 0 ? x.p.shiftLeft(k) : x.p;
        BigInteger d = k >= 0 ? x.q : x.q.shiftLeft(-k);
        BigInteger[] qr = n.divideAndRemainder(d);
        return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    private static Value scaled(BigInteger n, int k) {
        return k >= 0 ? make(n, BigInteger.ONE.shiftLeft(k)) : make(n.shiftLeft(-k), BigInteger.ONE);
    }

    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value floor(final Value a, final IntValue k) {
        return scaled(floorScaled(parse(a), k.val), k.val);
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value sqrt(final Value a, final IntValue k) {
        Q x = parse(a);
        if (x.p.signum() < 0) throw new ArithmeticException("Rat: square root of a negative number");
        return scaled(floorScaled(x, 2 * k.val).sqrt(), k.val);
    }

    /** The integer floor(a), which must fit TLC's integers. */
    @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
    public static Value toInt(final Value a) {
        return IntValue.gen(floorScaled(parse(a), 0).intValueExact());
    }

    @TLAPlusOperator(identifier = "RPow2", module = "Rat", warn = false)
    public static Value pow2(final IntValue k) {
        return scaled(BigInteger.ONE, -k.val);
    }

    /** floor(log2 |a|) for a # 0, and 0 for a = 0. */
    @TLAPlusOperator(identifier = "RLog2", module = "Rat", warn = false)
    public static Value log2(final Value a) {
        Q x = parse(a);
        if (x.p.signum() == 0) return IntValue.gen(0);
        BigInteger p = x.p.abs();
        int e = p.bitLength() - x.q.bitLength();
        boolean ge = e >= 0 ? p.compareTo(x.q.shiftLeft(e)) >= 0 : p.shiftLeft(-e).compareTo(x.q) >= 0;
        return IntValue.gen(ge ? e : e - 1);
    }

    @TLAPlusOperator(identifier = "RShow", module = "Rat", warn = false)
    public static Value show(final Value a) {
        String s = ((StringValue) a).val.toString();
        if (s.startsWith("nan") || s.endsWith("inf")) return a;
        Q x = parse(a);
        java.math.BigDecimal d = new java.math.BigDecimal(x.p)
                .divide(new java.math.BigDecimal(x.q), new java.math.MathContext(12));
        return new StringValue(d.toString());
    }

    @TLAPlusOperator(identifier = "RIsNum", module = "Rat", warn = false)
    public static Value isNum(final Value a) {
        if (!(a instanceof StringValue)) return BoolValue.ValFalse;
        String s = ((StringValue) a).val.toString();
        if (s.isEmpty()) return BoolValue.ValFalse;
        for (int i = 0; i < s.length(); i++) {
            char c = s.charAt(i);
            boolean ok = c == '-' || c == '/' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f');
            if (!ok) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }

    // ---- Vec.tla: the same exact arithmetic, one result per call -------------------------------------

    private static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new IllegalArgumentException("Vec: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }

    private static Q[] qs(Value v) {
        Value[] e = seq(v);
        Q[] r = new Q[e.length];
        for (int i = 0; i < e.length; i++) r[i] = parse(e[i]);
        return r;
    }

    /** Sum of a running fraction n/d (not reduced) and p/q. */
    private static BigInteger[] acc(BigInteger[] nd, BigInteger p, BigInteger q) {
        if (p.signum() == 0) return nd;
        if (nd[1].equals(q)) {
            nd[0] = nd[0].add(p);
            return nd;
        }
        int a = nd[1].bitLength() - 1, b = q.bitLength() - 1;
        if (a == nd[1].getLowestSetBit() && b == q.getLowestSetBit()) { // both powers of two
            if (a >= b) {
                nd[0] = nd[0].add(p.shiftLeft(a - b));
            } else {
                nd[0] = nd[0].shiftLeft(b - a).add(p);
                nd[1] = q;
            }
            return nd;
        }
        nd[0] = nd[0].multiply(q).add(p.multiply(nd[1]));
        nd[1] = nd[1].multiply(q);
        return nd;
    }

    private static void same(int a, int b) {
        if (a != b) throw new IllegalArgumentException("Vec: lengths differ: " + a + ", " + b);
    }

    private static Value dotq(Q[] x, Q[] y) {
        same(x.length, y.length);
        BigInteger[] nd = {BigInteger.ZERO, BigInteger.ONE};
        for (int i = 0; i < x.length; i++) nd = acc(nd, x[i].p.multiply(y[i].p), x[i].q.multiply(y[i].q));
        return make(nd[0], nd[1]);
    }

    @TLAPlusOperator(identifier = "Dot", module = "Vec", warn = false)
    public static Value dot(final Value a, final Value b) {
        return dotq(qs(a), qs(b));
    }

    @TLAPlusOperator(identifier = "VSum", module = "Vec", warn = false)
    public static Value vsum(final Value a) {
        BigInteger[] nd = {BigInteger.ZERO, BigInteger.ONE};
        for (Q x : qs(a)) nd = acc(nd, x.p, x.q);
        return make(nd[0], nd[1]);
    }

    @TLAPlusOperator(identifier = "Norm1", module = "Vec", warn = false)
    public static Value norm1(final Value a) {
        BigInteger[] nd = {BigInteger.ZERO, BigInteger.ONE};
        for (Q x : qs(a)) nd = acc(nd, x.p.abs(), x.q);
        return make(nd[0], nd[1]);
    }

    @TLAPlusOperator(identifier = "VAxpy", module = "Vec", warn = false)
    public static Value vaxpy(final Value c, final Value d, final Value x) {
        Value[] e = seq(d), f = seq(x);
        same(e.length, f.length);
        Value[] r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = add(f[i], mul(c, e[i]));
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "VAdd", module = "Vec", warn = false)
    public static Value vadd(final Value x, final Value y) {
        Value[] e = seq(x), f = seq(y);
        same(e.length, f.length);
        Value[] r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = add(e[i], f[i]);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "VSub", module = "Vec", warn = false)
    public static Value vsub(final Value x, final Value y) {
        Value[] e = seq(x), f = seq(y);
        same(e.length, f.length);
        Value[] r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = sub(e[i], f[i]);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "VScale", module = "Vec", warn = false)
    public static Value vscale(final Value c, final Value x) {
        Value[] e = seq(x);
        Value[] r = new Value[e.length];
        for (int i = 0; i < r.length; i++) r[i] = mul(c, e[i]);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "NormInf", module = "Vec", warn = false)
    public static Value norminf(final Value x) {
        Value best = new StringValue("0");
        for (Value v : seq(x)) best = max(best, abs(v));
        return best;
    }

    @TLAPlusOperator(identifier = "MatVec", module = "Vec", warn = false)
    public static Value matvec(final Value a, final Value x) {
        Value[] rows = seq(a);
        Q[] y = qs(x);
        Value[] r = new Value[rows.length];
        for (int i = 0; i < r.length; i++) r[i] = dotq(qs(rows[i]), y);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "MatTVec", module = "Vec", warn = false)
    public static Value mattvec(final Value a, final Value y, final IntValue n) {
        Value[] rows = seq(a);
        Q[] w = qs(y);
        same(rows.length, w.length);
        Value[] r = new Value[n.val];
        BigInteger[][] nd = new BigInteger[n.val][];
        for (int j = 0; j < r.length; j++) nd[j] = new BigInteger[] {BigInteger.ZERO, BigInteger.ONE};
        for (int i = 0; i < rows.length; i++) {
            Q[] row = qs(rows[i]);
            same(row.length, n.val);
            for (int j = 0; j < r.length; j++)
                nd[j] = acc(nd[j], row[j].p.multiply(w[i].p), row[j].q.multiply(w[i].q));
        }
        for (int j = 0; j < r.length; j++) r[j] = make(nd[j][0], nd[j][1]);
        return new TupleValue(r);
    }

    @TLAPlusOperator(identifier = "VIsNum", module = "Vec", warn = false)
    public static Value visnum(final Value a) {
        Value t = a.toTuple();
        if (t == null) return BoolValue.ValFalse;
        for (Value v : ((TupleValue) t).elems) if (isNum(v) == BoolValue.ValFalse) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
}
