// TLC module override for Num.tla: computable reals.
// A value is a rational (exact, until numerator and denominator together pass
// LIMIT bits, when it is rounded to KEEP significant bits), or inf / -inf / nan.
// TLA+ values: strings "n", "n/d", "inf", "-inf", "nan"; hexadecimal floats as
// written by Python's float.hex() are accepted; TLA+ integers are accepted.
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

public class Num {
    static final int LIMIT = 2400, KEEP = 800;

    static final class Q {
        final BigInteger n, d; // d > 0; d == 0: special, n = sign (0 = nan)
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean fin() { return d.signum() != 0; }
        boolean isNaN() { return d.signum() == 0 && n.signum() == 0; }
        public String toString() {
            if (d.signum() == 0) return n.signum() == 0 ? "nan" : n.signum() > 0 ? "inf" : "-inf";
            if (n.bitLength() <= 62 && d.bitLength() <= 62)
                return d.equals(BigInteger.ONE) ? n.toString() : n.toString() + "/" + d.toString();
            // long numbers in hexadecimal: "#n/d", and "#n/pk" when d = 2^k
            return "#" + n.toString(16) + "/" + (d.bitCount() == 1 ? "p" + (d.bitLength() - 1) : d.toString(16));
        }
        double approx() {
            if (!fin()) return n.signum() == 0 ? Double.NaN : n.signum() * Double.POSITIVE_INFINITY;
            return new java.math.BigDecimal(n).divide(new java.math.BigDecimal(d), new java.math.MathContext(25)).doubleValue();
        }
    }
    static final BigInteger B0 = BigInteger.ZERO, B1 = BigInteger.ONE, B2 = BigInteger.TWO;
    static final Q ZERO = new Q(B0, B1), ONE = new Q(B1, B1), NAN = new Q(B0, B0), INF = new Q(B1, B0), NINF = new Q(B1.negate(), B0);

    static Q norm(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return n.signum() == 0 ? NAN : n.signum() > 0 ? INF : NINF;
        if (n.signum() == 0) return ZERO;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (d.bitCount() == 1) {
            int k = Math.min(n.getLowestSetBit(), d.bitLength() - 1);
            if (k > 0) { n = n.shiftRight(k); d = d.shiftRight(k); }
        } else {
            BigInteger g = n.gcd(d);
            if (!g.equals(B1)) { n = n.divide(g); d = d.divide(g); }
        }
        if (n.bitLength() + d.bitLength() > LIMIT) return sig(n, d, KEEP);
        return new Q(n, d);
    }
    // round to `bits` significant bits
    static Q sig(BigInteger n, BigInteger d, int bits) {
        int e = n.bitLength() - d.bitLength(); // |n/d| ~ 2^e
        return dyadic(n, d, bits - e);
    }
    // nearest multiple of 2^-s
    static Q dyadic(BigInteger n, BigInteger d, int s) {
        BigInteger nn = s >= 0 ? n.shiftLeft(s) : n, dd = s >= 0 ? d : d.shiftLeft(-s);
        BigInteger q = floorDiv(nn.shiftLeft(1).add(dd), dd.shiftLeft(1));
        if (q.signum() == 0) return ZERO;
        int z = q.getLowestSetBit();
        if (s >= 0) { int k = Math.min(z, s); return new Q(q.shiftRight(k), B1.shiftLeft(s - k)); }
        return new Q(q.shiftLeft(-s), B1);
    }
    static BigInteger floorDiv(BigInteger a, BigInteger b) {
        BigInteger[] r = a.divideAndRemainder(b);
        return (r[1].signum() != 0 && (r[1].signum() != b.signum())) ? r[0].subtract(B1) : r[0];
    }
    static Q of(long k) { return new Q(BigInteger.valueOf(k), B1); }

    static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();
    static Q parse(String s) {
        Q q = cache.get(s);
        if (q == null) { q = parse0(s); if (cache.size() < 2000000) cache.put(s, q); }
        return q;
    }
    static Q parse0(String s) {
        if (s.equals("nan")) return NAN;
        if (s.equals("inf")) return INF;
        if (s.equals("-inf")) return NINF;
        if (s.startsWith("#")) {
            int sl = s.indexOf('/');
            BigInteger n = new BigInteger(s.substring(1, sl), 16);
            return s.charAt(sl + 1) == 'p' ? new Q(n, B1.shiftLeft(Integer.parseInt(s.substring(sl + 2)))) : new Q(n, new BigInteger(s.substring(sl + 1), 16));
        }
        if (s.contains("0x")) {
            boolean neg = s.startsWith("-");
            String t = s.substring(s.indexOf("0x") + 2);
            int p = t.indexOf('p');
            int ex = 0;
            if (p >= 0) { ex = Integer.parseInt(t.substring(p + 1).replace("+", "")); t = t.substring(0, p); }
            int dot = t.indexOf('.');
            int sh = 0;
            if (dot >= 0) { sh = 4 * (t.length() - dot - 1); t = t.substring(0, dot) + t.substring(dot + 1); }
            BigInteger m = new BigInteger(t, 16);
            if (neg) m = m.negate();
            ex -= sh;
            return ex >= 0 ? norm(m.shiftLeft(ex), B1) : norm(m, B1.shiftLeft(-ex));
        }
        int sl = s.indexOf('/');
        if (sl >= 0) return norm(new BigInteger(s.substring(0, sl)), new BigInteger(s.substring(sl + 1)));
        int dot = s.indexOf('.'), e = s.indexOf('e');
        if (dot >= 0 || e >= 0) {
            java.math.BigDecimal bd = new java.math.BigDecimal(s);
            return bd.scale() >= 0 ? norm(bd.unscaledValue(), BigInteger.TEN.pow(bd.scale()))
                                   : norm(bd.toBigIntegerExact(), B1);
        }
        return norm(new BigInteger(s), B1);
    }
    static Q q(Value v) {
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        if (v instanceof IntValue) return of(((IntValue) v).val);
        if (v instanceof BoolValue) return of(((BoolValue) v).val ? 1 : 0);
        throw new RuntimeException("Num: not a number: " + v);
    }
    static boolean isNum(Value v) {
        if (v instanceof IntValue || v instanceof BoolValue) return true;
        if (v instanceof StringValue) { try { q(v); return true; } catch (RuntimeException e) { return false; } }
        return false;
    }
    static Value v(Q a) {
        String s = a.toString();
        if (cache.size() < 2000000) cache.putIfAbsent(s, a);
        return new StringValue(s);
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Q add(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            if (a.isNaN() || b.isNaN()) return NAN;
            if (!a.fin() && !b.fin()) return a.n.signum() == b.n.signum() ? a : NAN;
            return a.fin() ? b : a;
        }
        if (a.n.signum() == 0) return b;
        if (b.n.signum() == 0) return a;
        if (a.d.equals(b.d)) return norm(a.n.add(b.n), a.d);
        return norm(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
    static Q sub(Q a, Q b) { return add(a, neg(b)); }
    static Q mul(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            int s = a.n.signum() * b.n.signum();
            return s == 0 ? NAN : s > 0 ? INF : NINF;
        }
        if (a.n.signum() == 0 || b.n.signum() == 0) return ZERO;
        return norm(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static Q div(Q a, Q b) {
        if (a.isNaN() || b.isNaN()) return NAN;
        if (!b.fin()) return a.fin() ? ZERO : NAN;
        if (!a.fin()) { int s = a.n.signum() * (b.n.signum() >= 0 ? 1 : -1); return s > 0 ? INF : NINF; }
        if (b.n.signum() == 0) return a.n.signum() == 0 ? NAN : a.n.signum() > 0 ? INF : NINF;
        return norm(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    static Q abs(Q a) { return a.n.signum() < 0 ? neg(a) : a; }
    // comparisons with nan are false
    static boolean le(Q a, Q b) { return cmpOk(a, b) && cmp(a, b) <= 0; }
    static boolean lt(Q a, Q b) { return cmpOk(a, b) && cmp(a, b) < 0; }
    static boolean eq(Q a, Q b) { return cmpOk(a, b) && cmp(a, b) == 0; }
    static boolean cmpOk(Q a, Q b) { return !a.isNaN() && !b.isNaN(); }
    static int cmp(Q a, Q b) {
        if (!a.fin() || !b.fin()) {
            int x = a.fin() ? 0 : a.n.signum(), y = b.fin() ? 0 : b.n.signum();
            return Integer.compare(x, y);
        }
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }
    static Q max(Q a, Q b) { return a.isNaN() || b.isNaN() ? NAN : cmp(a, b) >= 0 ? a : b; }
    static Q min(Q a, Q b) { return a.isNaN() || b.isNaN() ? NAN : cmp(a, b) <= 0 ? a : b; }
    // |a-b| <= atol + rtol*max(|a|,|b|); equal infinities are close
    static boolean close(Q a, Q b, Q atol, Q rtol) {
        if (a.isNaN() || b.isNaN()) return false;
        if (!a.fin() || !b.fin()) return !a.fin() && !b.fin() && a.n.signum() == b.n.signum();
        return le(abs(sub(a, b)), add(atol, mul(rtol, max(abs(a), abs(b)))));
    }

    // ---- elementary functions, fixed point with P fractional bits ----
    static final int P = 260;
    static BigInteger fx(Q a) { return floorDiv(a.n.shiftLeft(P), a.d); }
    static Q unfx(BigInteger x) { return norm(x, B1.shiftLeft(P)); }
    static BigInteger fmul(BigInteger a, BigInteger b) { return a.multiply(b).shiftRight(P); }
    static BigInteger lnFx(BigInteger num, BigInteger den) { // ln(num/den), ratio in [1/2,2]: 2 atanh((n-d)/(n+d))
        BigInteger z = num.subtract(den).shiftLeft(P).divide(num.add(den));
        BigInteger z2 = fmul(z, z), t = z, s = B0;
        for (int k = 1; t.signum() != 0 && !t.equals(B1.negate()); k += 2) { s = s.add(t.divide(BigInteger.valueOf(k))); t = fmul(t, z2); }
        return s.shiftLeft(1);
    }
    static BigInteger LN2;
    static Q ln(Q a) {
        if (a.isNaN() || a.n.signum() < 0) return NAN;
        if (!a.fin()) return INF;
        if (a.n.signum() == 0) return NINF;
        if (LN2 == null) LN2 = lnFx(B2, B1);
        int e = a.n.bitLength() - a.d.bitLength();
        BigInteger n = e >= 0 ? a.n : a.n.shiftLeft(-e), d = e >= 0 ? a.d.shiftLeft(e) : a.d;
        return unfx(lnFx(n, d).add(LN2.multiply(BigInteger.valueOf(e))));
    }
    static Q exp(Q a) {
        if (a.isNaN()) return NAN;
        if (!a.fin()) return a.n.signum() > 0 ? INF : ZERO;
        if (LN2 == null) LN2 = lnFx(B2, B1);
        BigInteger x = fx(a);
        BigInteger k = floorDiv(x, LN2);
        BigInteger r = x.subtract(k.multiply(LN2));
        BigInteger t = B1.shiftLeft(P), s = B0;
        for (int i = 1; t.signum() != 0; i++) { s = s.add(t); t = fmul(t, r).divide(BigInteger.valueOf(i)); }
        int kk = k.intValueExact();
        return kk >= 0 ? norm(s.shiftLeft(kk), B1.shiftLeft(P)) : norm(s, B1.shiftLeft(P - kk));
    }
    static BigInteger PIFX;
    static BigInteger atanInv(int m) { // atan(1/m)
        BigInteger x = B1.shiftLeft(P).divide(BigInteger.valueOf(m)), m2 = BigInteger.valueOf((long) m * m), s = B0;
        for (int k = 1; x.signum() != 0; k += 2) { BigInteger t = x.divide(BigInteger.valueOf(k)); s = (k / 2) % 2 == 0 ? s.add(t) : s.subtract(t); x = x.divide(m2); }
        return s;
    }
    static BigInteger pi() {
        if (PIFX == null) PIFX = atanInv(5).shiftLeft(4).subtract(atanInv(239).shiftLeft(2));
        return PIFX;
    }
    static Q sincos(Q a, boolean sin) {
        if (!a.fin()) return NAN;
        BigInteger x = fx(a), tp = pi().shiftLeft(1);
        x = x.subtract(floorDiv(x.shiftLeft(1).add(tp), tp.shiftLeft(1)).multiply(tp)); // to [-pi,pi]
        BigInteger x2 = fmul(x, x).negate(), t = sin ? x : B1.shiftLeft(P), s = B0;
        for (int i = sin ? 1 : 0; t.signum() != 0 && !t.equals(B1.negate()); i += 2) {
            s = s.add(t);
            t = fmul(t, x2).divide(BigInteger.valueOf((long) (i + 1) * (i + 2)));
        }
        return unfx(s);
    }
    static Q sqrt(Q a) {
        if (a.isNaN() || a.n.signum() < 0) return NAN;
        if (!a.fin()) return INF;
        if (a.n.signum() == 0) return ZERO;
        int e = a.n.bitLength() - a.d.bitLength();
        int s = 2 * P - e; if ((s & 1) != 0) s++;
        BigInteger m = s >= 0 ? a.n.shiftLeft(s).divide(a.d) : a.n.divide(a.d.shiftLeft(-s));
        BigInteger r = m.sqrt();
        int h = s / 2;
        return h >= 0 ? norm(r, B1.shiftLeft(h)) : norm(r.shiftLeft(-h), B1);
    }

    // ---- TLA+ operators ----
    public static Value R(final Value a) { return v(q(a)); }
    public static Value RIsNum(final Value a) { return b(isNum(a)); }
    public static Value RFinite(final Value a) { return b(isNum(a) && q(a).fin()); }
    public static Value RAdd(final Value x, final Value y) { return v(add(q(x), q(y))); }
    public static Value RSub(final Value x, final Value y) { return v(sub(q(x), q(y))); }
    public static Value RMul(final Value x, final Value y) { return v(mul(q(x), q(y))); }
    public static Value RDiv(final Value x, final Value y) { return v(div(q(x), q(y))); }
    public static Value RNeg(final Value x) { return v(neg(q(x))); }
    public static Value RAbs(final Value x) { return v(abs(q(x))); }
    public static Value RMax(final Value x, final Value y) { return v(max(q(x), q(y))); }
    public static Value RMin(final Value x, final Value y) { return v(min(q(x), q(y))); }
    public static Value RLe(final Value x, final Value y) { return b(le(q(x), q(y))); }
    public static Value RLt(final Value x, final Value y) { return b(lt(q(x), q(y))); }
    public static Value REq(final Value x, final Value y) { return b(eq(q(x), q(y))); }
    public static Value RClose(final Value x, final Value y, final Value at, final Value rt) { return b(isNum(x) && isNum(y) && close(q(x), q(y), q(at), q(rt))); }
    public static Value RLn(final Value x) { return v(ln(q(x))); }
    public static Value RExp(final Value x) { return v(exp(q(x))); }
    public static Value RSin(final Value x) { return v(sincos(q(x), true)); }
    public static Value RCos(final Value x) { return v(sincos(q(x), false)); }
    public static Value RSqrt(final Value x) { return v(sqrt(q(x))); }
    public static Value RRnd(final Value x, final Value bits) {
        Q a = q(x);
        return v(a.fin() && a.n.signum() != 0 ? sig(a.n, a.d, ((IntValue) bits).val) : a);
    }
    public static Value RFloor(final Value x) {
        Q a = q(x);
        if (!a.fin()) return IntValue.gen(Integer.MIN_VALUE);
        BigInteger f = floorDiv(a.n, a.d);
        return IntValue.gen(f.bitLength() > 30 ? (f.signum() > 0 ? Integer.MAX_VALUE : Integer.MIN_VALUE) : f.intValue());
    }
    public static Value RApprox(final Value x) { return new StringValue(isNum(x) ? String.format("%.12g", q(x).approx()) : x.toString()); }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Num: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    public static Value RSum(final Value f) { Q a = ZERO; for (Value e : seq(f)) a = add(a, q(e)); return v(a); }
    public static Value RMinOf(final Value f) { Value[] e = seq(f); Q a = q(e[0]); for (Value x : e) a = min(a, q(x)); return v(a); }
    public static Value RMaxOf(final Value f) { Value[] e = seq(f); Q a = q(e[0]); for (Value x : e) a = max(a, q(x)); return v(a); }
    // the same value, evaluated now: lazy functions become explicit, sequences become tuples
    public static Value Eager(final Value x) {
        if (x instanceof FcnLambdaValue || x instanceof FcnRcdValue) {
            Value t = x.toTuple();
            if (t == null) t = x.toFcnRcd();
            if (t instanceof TupleValue) return Eager(t);
            return t;
        }
        if (x instanceof TupleValue) {
            Value[] e = ((TupleValue) x).elems, r = new Value[e.length];
            for (int i = 0; i < e.length; i++) r[i] = Eager(e[i]);
            return new TupleValue(r);
        }
        if (x instanceof RecordValue) {
            RecordValue rv = (RecordValue) x;
            Value[] r = new Value[rv.values.length];
            for (int i = 0; i < r.length; i++) r[i] = Eager(rv.values[i]);
            return new RecordValue(rv.names, r, rv.isNormalized());
        }
        if (x instanceof SetPredValue) return x.toSetEnum();
        return x;
    }
}
