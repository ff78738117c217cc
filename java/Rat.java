import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * Arithmetic primitives for the specifications: TLC has 32-bit integers only.
 *
 * A number is a string: "p", "p/q", a decimal "1.25e-3", or a C99/Python hexadecimal
 * double "0x1.8p+1"; also "inf", "-inf", "nan".  Results are exact rationals, as long as
 * they fit LIMIT bits; beyond that they are rounded to PREC significant bits.
 * Nothing here knows about differential equations: all formulas are in the TLA+ modules.
 */
public class Rat {
    static final int LIMIT = 1200, PREC = 400;
    static final class Q {
        final BigInteger n, d;      // d > 0: finite; d == 0: n = 1 inf, -1 -inf, 0 nan
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean fin() { return d.signum() != 0; }
        boolean nan() { return d.signum() == 0 && n.signum() == 0; }
        int sgn() { return n.signum(); }
    }
    static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TEN = BigInteger.TEN;
    static final Q INF = new Q(ONE, ZERO), NINF = new Q(ONE.negate(), ZERO), NAN = new Q(ZERO, ZERO);
    static final Q Q0 = new Q(ZERO, ONE), Q1 = new Q(ONE, ONE);

    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return Q0;
        int tz = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (tz > 0) { n = n.shiftRight(tz); d = d.shiftRight(tz); }
        if (!d.equals(ONE) && d.bitLength() != d.getLowestSetBit() + 1) {
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        if (n.bitLength() + d.bitLength() > LIMIT) return round(n, d, PREC);
        return new Q(n, d);
    }
    /** n/d rounded to p significant bits, as a dyadic number. */
    static Q round(BigInteger n, BigInteger d, int p) {
        boolean neg = n.signum() < 0;
        BigInteger a = n.abs();
        int e = a.bitLength() - d.bitLength();       // a/d in [2^(e-1), 2^(e+1))
        int sh = p - e + 1;
        BigInteger num = sh >= 0 ? a.shiftLeft(sh) : a, den = sh >= 0 ? d : d.shiftLeft(-sh);
        BigInteger m = num.add(den.shiftRight(1)).divide(den);
        if (neg) m = m.negate();
        int tz = m.signum() == 0 ? 0 : m.getLowestSetBit();
        m = m.shiftRight(tz); sh -= tz;
        return sh >= 0 ? new Q(m, ONE.shiftLeft(sh)) : new Q(m.shiftLeft(-sh), ONE);
    }

    static final ConcurrentHashMap<UniqueString, Q> cache = new ConcurrentHashMap<>();
    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
        if (!(v instanceof StringValue))
            throw new RuntimeException("Rat: not a number: " + v);
        UniqueString u = ((StringValue) v).val;
        Q r = cache.get(u);
        if (r == null) {
            r = parse(u.toString());
            if (cache.size() > 400000) cache.clear();
            cache.put(u, r);
        }
        return r;
    }
    static Q parse(String s) {
        if (s.equals("inf")) return INF;
        if (s.equals("-inf")) return NINF;
        if (s.equals("nan")) return NAN;
        int sl = s.indexOf('/');
        if (s.startsWith("~")) {
            if (sl < 0) return new Q(new BigInteger(s.substring(1), 16), ONE);
            return new Q(new BigInteger(s.substring(1, sl), 16), new BigInteger(s.substring(sl + 1), 16));
        }
        if (sl >= 0) return mk(new BigInteger(s.substring(0, sl)), new BigInteger(s.substring(sl + 1)));
        boolean neg = s.startsWith("-");
        String b = neg || s.startsWith("+") ? s.substring(1) : s;
        if (b.startsWith("0x")) {
            int pp = b.indexOf('p');
            int e = Integer.parseInt(b.substring(pp + 1).replace("+", ""));
            String m = b.substring(2, pp);
            int dot = m.indexOf('.');
            if (dot >= 0) { e -= 4 * (m.length() - dot - 1); m = m.substring(0, dot) + m.substring(dot + 1); }
            BigInteger n = new BigInteger(m, 16);
            if (neg) n = n.negate();
            return e >= 0 ? new Q(n.shiftLeft(e), ONE) : reduce2(n, -e);
        }
        int ee = b.indexOf('e');
        int e = 0;
        if (ee >= 0) { e = Integer.parseInt(b.substring(ee + 1).replace("+", "")); b = b.substring(0, ee); }
        int dot = b.indexOf('.');
        if (dot >= 0) { e -= b.length() - dot - 1; b = b.substring(0, dot) + b.substring(dot + 1); }
        BigInteger n = new BigInteger(b);
        if (neg) n = n.negate();
        return e >= 0 ? new Q(n.multiply(TEN.pow(e)), ONE) : mk(n, TEN.pow(-e));
    }
    static Q reduce2(BigInteger n, int k) {
        if (n.signum() == 0) return Q0;
        int tz = Math.min(n.getLowestSetBit(), k);
        return new Q(n.shiftRight(tz), ONE.shiftLeft(k - tz));
    }
    static Value v(Q a) {
        String s;
        if (!a.fin()) s = a.sgn() > 0 ? "inf" : a.sgn() < 0 ? "-inf" : "nan";
        else if (a.n.bitLength() + a.d.bitLength() <= 128)
            s = a.d.equals(ONE) ? a.n.toString() : a.n + "/" + a.d;
        else s = "~" + a.n.toString(16) + (a.d.equals(ONE) ? "" : "/" + a.d.toString(16));
        return new StringValue(s);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Q add(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            if (a.nan() || b.nan()) return NAN;
            if (a.fin()) return b;
            if (b.fin()) return a;
            return a.sgn() == b.sgn() ? a : NAN;
        }
        if (a.n.signum() == 0) return b;
        if (b.n.signum() == 0) return a;
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    static Q sub(Q a, Q b) { return add(a, neg(b)); }
    static Q mul(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            int s = a.sgn() * b.sgn();
            return a.nan() || b.nan() || s == 0 ? NAN : s > 0 ? INF : NINF;
        }
        return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static Q div(Q a, Q b) {
        if (a.nan() || b.nan()) return NAN;
        if (!b.fin()) return a.fin() ? Q0 : NAN;
        if (b.sgn() == 0) return a.sgn() == 0 ? NAN : a.sgn() > 0 ? INF : NINF;
        if (!a.fin()) return a.sgn() * b.sgn() > 0 ? INF : NINF;
        return mk(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    static Q abs(Q a) { return new Q(a.n.abs(), a.d); }
    /** -2 if unordered */
    static int cmp(Q a, Q b) {
        if (a.nan() || b.nan()) return -2;
        if (!a.fin() || !b.fin()) {
            int x = a.fin() ? 0 : a.sgn(), y = b.fin() ? 0 : b.sgn();
            return Integer.compare(x, y);
        }
        if (a.sgn() != b.sgn()) return Integer.compare(a.sgn(), b.sgn());
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }
    static Q root(Q a, int k) {
        if (a.nan() || a.sgn() < 0) return NAN;
        if (!a.fin() || a.sgn() == 0) return a;
        // k-th root of n/d to ~PREC bits: floor((n 2^(k s) / d)^(1/k)) / 2^s
        int e = (a.n.bitLength() - a.d.bitLength()) / k;
        int s = PREC - e;
        BigInteger x = s >= 0 ? a.n.shiftLeft(k * s).divide(a.d) : a.n.divide(a.d.shiftLeft(-k * s));
        BigInteger r = ONE.shiftLeft(x.bitLength() / k + 1);
        while (true) {          // Newton from above
            BigInteger y = r.multiply(BigInteger.valueOf(k - 1)).add(x.divide(r.pow(k - 1))).divide(BigInteger.valueOf(k));
            if (y.compareTo(r) >= 0) break;
            r = y;
        }
        return s >= 0 ? mk(r, ONE.shiftLeft(s)) : mk(r.shiftLeft(-s), ONE);
    }

    public static Value RAdd(Value a, Value c) { return v(add(q(a), q(c))); }
    public static Value RSub(Value a, Value c) { return v(sub(q(a), q(c))); }
    public static Value RMul(Value a, Value c) { return v(mul(q(a), q(c))); }
    public static Value RDiv(Value a, Value c) { return v(div(q(a), q(c))); }
    public static Value RNeg(Value a) { return v(neg(q(a))); }
    public static Value RAbs(Value a) { return v(abs(q(a))); }
    public static Value RLt(Value a, Value c) { return b(cmp(q(a), q(c)) == -1); }
    public static Value RLe(Value a, Value c) { int k = cmp(q(a), q(c)); return b(k == -1 || k == 0); }
    public static Value REq(Value a, Value c) { return b(cmp(q(a), q(c)) == 0); }
    public static Value RIsNum(Value a) { return b(q(a).fin()); }
    public static Value RIsNan(Value a) { return b(q(a).nan()); }
    public static Value RSign(Value a) { return IntValue.gen(q(a).sgn()); }
    public static Value RMax(Value a, Value c) { Q x = q(a), y = q(c); return v(cmp(x, y) == -2 ? NAN : cmp(x, y) < 0 ? y : x); }
    public static Value RMin(Value a, Value c) { Q x = q(a), y = q(c); return v(cmp(x, y) == -2 ? NAN : cmp(x, y) < 0 ? x : y); }
    public static Value RRoot(Value a, IntValue k) { return v(root(q(a), k.val)); }
    public static Value RPow(Value a, IntValue k) {
        Q x = q(a), r = Q1;
        for (int i = 0; i < k.val; i++) r = mul(r, x);
        return v(r);
    }
    /** The IEEE double nearest to a number (ties to even). */
    public static Value RDbl(Value a) {
        Q x = q(a);
        if (!x.fin() || x.sgn() == 0) return v(x);
        BigInteger n = x.n.abs();
        int e = n.bitLength() - x.d.bitLength();
        int sh = Math.min(54 - e, 1074);      // at least 53 bits, not below the least subnormal
        while (true) {
            BigInteger num = sh >= 0 ? n.shiftLeft(sh) : n, den = sh >= 0 ? x.d : x.d.shiftLeft(-sh);
            BigInteger[] qr = num.divideAndRemainder(den);
            if (qr[0].bitLength() > 53) { sh--; continue; }
            BigInteger m = qr[0];
            int c = qr[1].shiftLeft(1).compareTo(den);
            if (c > 0 || (c == 0 && m.testBit(0))) m = m.add(ONE);
            if (x.sgn() < 0) m = m.negate();
            if (m.bitLength() - sh > 1024) return v(x.sgn() > 0 ? INF : NINF);
            return v(sh >= 0 ? reduce2(m, sh) : new Q(m.shiftLeft(-sh), ONE));
        }
    }

    // vectors (sequences of numbers) and matrices (sequences of rows)
    static Value[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
        return t.elems;
    }
    static Q[] qs(Value s) {
        Value[] e = seq(s);
        Q[] r = new Q[e.length];
        for (int i = 0; i < r.length; i++) r[i] = q(e[i]);
        return r;
    }
    static Value vs(Q[] a) {
        Value[] r = new Value[a.length];
        for (int i = 0; i < r.length; i++) r[i] = v(a[i]);
        return new TupleValue(r);
    }
    static Q dot(Q[] a, Q[] c) {
        if (a.length != c.length) throw new RuntimeException("Rat: dot of lengths " + a.length + ", " + c.length);
        Q r = Q0;
        for (int i = 0; i < a.length; i++)
            if (!(a[i].fin() && a[i].sgn() == 0)) r = add(r, mul(a[i], c[i]));
        return r;
    }
    public static Value RSum(Value s) { Q r = Q0; for (Q x : qs(s)) r = add(r, x); return v(r); }
    public static Value RMaxOf(Value s) {
        Q r = null;
        for (Q x : qs(s)) r = r == null ? x : cmp(r, x) == -2 ? NAN : cmp(r, x) < 0 ? x : r;
        return v(r);
    }
    public static Value VDot(Value a, Value c) { return v(dot(qs(a), qs(c))); }
    public static Value VAdd(Value a, Value c) {
        Q[] x = qs(a), y = qs(c), r = new Q[x.length];
        if (x.length != y.length) throw new RuntimeException("Rat: VAdd of lengths " + x.length + ", " + y.length);
        for (int i = 0; i < r.length; i++) r[i] = add(x[i], y[i]);
        return vs(r);
    }
    public static Value VSub(Value a, Value c) {
        Q[] x = qs(a), y = qs(c), r = new Q[x.length];
        if (x.length != y.length) throw new RuntimeException("Rat: VSub of lengths " + x.length + ", " + y.length);
        for (int i = 0; i < r.length; i++) r[i] = sub(x[i], y[i]);
        return vs(r);
    }
    public static Value VHad(Value a, Value c) {
        Q[] x = qs(a), y = qs(c), r = new Q[x.length];
        for (int i = 0; i < r.length; i++) r[i] = mul(x[i], y[i]);
        return vs(r);
    }
    public static Value VScale(Value s, Value a) {
        Q k = q(s); Q[] x = qs(a), r = new Q[x.length];
        for (int i = 0; i < r.length; i++) r[i] = mul(k, x[i]);
        return vs(r);
    }
    public static Value VAbs(Value a) {
        Q[] x = qs(a), r = new Q[x.length];
        for (int i = 0; i < r.length; i++) r[i] = abs(x[i]);
        return vs(r);
    }
    public static Value MVec(Value m, Value a) {
        Value[] rows = seq(m); Q[] x = qs(a), r = new Q[rows.length];
        for (int i = 0; i < r.length; i++) r[i] = dot(qs(rows[i]), x);
        return vs(r);
    }
    /** sum over i of c[i] * vecs[i], for i in 1..Len(c) (vecs may be longer); n: the dimension */
    public static Value VLin(Value c, Value vecs, IntValue n) {
        Q[] k = qs(c); Value[] w = seq(vecs);
        Q[] r = new Q[n.val];
        java.util.Arrays.fill(r, Q0);
        for (int i = 0; i < k.length; i++) {
            if (k[i].fin() && k[i].sgn() == 0) continue;
            Q[] x = qs(w[i]);
            for (int j = 0; j < r.length; j++) r[j] = add(r[j], mul(k[i], x[j]));
        }
        return vs(r);
    }
    /** Decimal rendering, for messages. */
    public static Value RStr(Value a) {
        Q x = q(a);
        if (!x.fin()) return v(x);
        java.math.BigDecimal d = new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), new java.math.MathContext(17));
        return new StringValue(d.toString());
    }
}
