// Java kernel behind spec/RealK.tla: exact rational arithmetic on numeric
// strings ("3", "-7/4", "0.1", "1e-5", "inf", "-inf", "nan"), with the few
// transcendental functions computed in double precision.  TLC loads a class
// named like the module and calls these methods instead of the placeholder
// definitions in RealK.tla.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.value.impl.*;

public class RealK {
    static final class Q {
        final BigInteger n, d; final int sp;   // sp: 0 finite, 1 inf, -1 -inf, 2 nan
        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) { this.n = BigInteger.ZERO; this.d = BigInteger.ONE;
                sp = n.signum() == 0 ? 2 : n.signum(); return; }
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (g.signum() != 0 && !g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            if (n.bitLength() + d.bitLength() > 1600) {
                BigDecimal b = new BigDecimal(n).divide(new BigDecimal(d), new MathContext(60));
                BigInteger u = b.unscaledValue(); int s = b.scale();
                if (s >= 0) { d = BigInteger.TEN.pow(s); n = u; } else { n = u.multiply(BigInteger.TEN.pow(-s)); d = BigInteger.ONE; }
                g = n.gcd(d); if (g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            }
            this.n = n; this.d = d; sp = 0;
        }
        Q(int sp) { n = BigInteger.ZERO; d = BigInteger.ONE; this.sp = sp; }
        double dbl() {
            if (sp == 1) return Double.POSITIVE_INFINITY;
            if (sp == -1) return Double.NEGATIVE_INFINITY;
            if (sp == 2) return Double.NaN;
            return new BigDecimal(n).divide(new BigDecimal(d), new MathContext(40)).doubleValue();
        }
        public String toString() {
            if (sp == 1) return "inf"; if (sp == -1) return "-inf"; if (sp == 2) return "nan";
            return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
        }
    }
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);
    static final Q NAN = new Q(2);
    static Q ofDouble(double x) {
        if (Double.isNaN(x)) return NAN;
        if (Double.isInfinite(x)) return new Q(x > 0 ? 1 : -1);
        return ofDec(new BigDecimal(x));
    }
    static Q ofDec(BigDecimal b) {
        BigInteger u = b.unscaledValue(); int s = b.scale();
        return s >= 0 ? new Q(u, BigInteger.TEN.pow(s)) : new Q(u.multiply(BigInteger.TEN.pow(-s)), BigInteger.ONE);
    }
    static Q parse(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (!(v instanceof StringValue)) return NAN;
        String s = ((StringValue) v).val.toString();
        switch (s) {
            case "nan": return NAN;
            case "inf": return new Q(1);
            case "-inf": return new Q(-1);
        }
        try {
            int i = s.indexOf('/');
            if (i >= 0) return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
            return ofDec(new BigDecimal(s));
        } catch (NumberFormatException e) { return NAN; }
    }
    static Value str(Q q) { return new StringValue(q.toString()); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Q add(Q a, Q b) {
        if (a.sp != 0 || b.sp != 0) return ofDouble(a.dbl() + b.dbl());
        return new Q(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return a.sp == 2 ? a : a.sp != 0 ? new Q(-a.sp) : new Q(a.n.negate(), a.d); }
    static Q mul(Q a, Q b) {
        if (a.sp != 0 || b.sp != 0) return ofDouble(a.dbl() * b.dbl());
        return new Q(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static Q div(Q a, Q b) {
        if (a.sp != 0 || b.sp != 0) return ofDouble(a.dbl() / b.dbl());
        return new Q(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    static int cmp(Q a, Q b) {          // finite or infinite, not nan
        if (a.sp != 0 || b.sp != 0) return Double.compare(a.dbl(), b.dbl());
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }
    static boolean isnan(Q a) { return a.sp == 2; }

    public static Value RAdd(Value a, Value b) { return str(add(parse(a), parse(b))); }
    public static Value RSub(Value a, Value b) { return str(add(parse(a), neg(parse(b)))); }
    public static Value RMul(Value a, Value b) { return str(mul(parse(a), parse(b))); }
    public static Value RDiv(Value a, Value b) { return str(div(parse(a), parse(b))); }
    public static Value RNeg(Value a) { return str(neg(parse(a))); }
    public static Value RAbs(Value a) { Q q = parse(a); return str(q.sp == 0 ? (q.n.signum() < 0 ? neg(q) : q) : ofDouble(Math.abs(q.dbl()))); }
    public static Value RLt(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) < 0); }
    public static Value RLe(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) <= 0); }
    public static Value REq(Value a, Value b) { Q x = parse(a), y = parse(b); return bool(!isnan(x) && !isnan(y) && cmp(x, y) == 0); }
    public static Value RNorm(Value a) { return str(parse(a)); }
    public static Value RIsNan(Value a) { return bool(isnan(parse(a))); }
    public static Value RIsFinite(Value a) { return bool(parse(a).sp == 0); }
    // |a-b| <= rel*max(|a|,|b|) + abs ; nan matches nan, inf matches the same inf
    public static Value RClose(Value a, Value b, Value rel, Value abs) {
        return bool(close(parse(a), parse(b), parse(rel), parse(abs)));
    }
    static boolean close(Q x, Q y, Q rel, Q abs) {
        if (isnan(x) || isnan(y)) return isnan(x) && isnan(y);
        if (x.sp != 0 || y.sp != 0) return x.sp == y.sp;
        Q diff = add(x, neg(y)); if (diff.n.signum() < 0) diff = neg(diff);
        Q ax = x.n.signum() < 0 ? neg(x) : x, ay = y.n.signum() < 0 ? neg(y) : y;
        Q m = cmp(ax, ay) > 0 ? ax : ay;
        return cmp(diff, add(mul(rel, m), abs)) <= 0;
    }
    static Value[] seq(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("RealK: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    public static Value RSum(Value s) {
        Q t = ZERO;
        for (Value e : seq(s)) t = add(t, parse(e));
        return str(t);
    }
    public static Value RDot(Value s, Value u) {
        Value[] a = seq(s), b = seq(u);
        if (a.length != b.length) throw new RuntimeException("RDot: lengths differ");
        Q t = ZERO;
        for (int i = 0; i < a.length; i++) t = add(t, mul(parse(a[i]), parse(b[i])));
        return str(t);
    }
    public static Value RScaleSeq(Value k, Value s) {
        Value[] a = seq(s); Value[] r = new Value[a.length]; Q q = parse(k);
        for (int i = 0; i < a.length; i++) r[i] = str(mul(q, parse(a[i])));
        return new TupleValue(r);
    }
    public static Value RAddSeq(Value s, Value u) {
        Value[] a = seq(s), b = seq(u); Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = str(add(parse(a[i]), parse(b[i])));
        return new TupleValue(r);
    }
    // elementwise RClose; FALSE when lengths differ
    public static Value RCloseSeq(Value s, Value u, Value rel, Value abs) {
        if (s.toTuple() == null || u.toTuple() == null) return BoolValue.ValFalse;
        Value[] a = seq(s), b = seq(u);
        if (a.length != b.length) return BoolValue.ValFalse;
        Q r = parse(rel), q = parse(abs);
        for (int i = 0; i < a.length; i++) if (!close(parse(a[i]), parse(b[i]), r, q)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value RFloor(Value a) {
        Q q = parse(a); BigInteger[] r = q.n.divideAndRemainder(q.d);
        BigInteger f = (q.n.signum() < 0 && r[1].signum() != 0) ? r[0].subtract(BigInteger.ONE) : r[0];
        return IntValue.gen(f.intValueExact());
    }
    public static Value RCeil(Value a) {
        Q q = neg(parse(a)); BigInteger[] r = q.n.divideAndRemainder(q.d);
        BigInteger f = (q.n.signum() < 0 && r[1].signum() != 0) ? r[0].subtract(BigInteger.ONE) : r[0];
        return IntValue.gen(f.negate().intValueExact());
    }
    public static Value RLn(Value a) { return str(ofDouble(Math.log(parse(a).dbl()))); }
    public static Value RExp(Value a) { return str(ofDouble(Math.exp(parse(a).dbl()))); }
    public static Value RSqrt(Value a) { return str(ofDouble(Math.sqrt(parse(a).dbl()))); }
    public static Value RPow(Value a, Value b) { return str(ofDouble(Math.pow(parse(a).dbl(), parse(b).dbl()))); }
    // ---- text helpers (names, paths): strings as TLC strings
    public static Value SCat(Value a, Value b) { return new StringValue(s(a) + s(b)); }
    static String s(Value v) { return v instanceof StringValue ? ((StringValue) v).val.toString() : v.toString(); }
    public static Value SContains(Value a, Value b) { return bool(s(a).contains(s(b))); }
    public static Value SEndsWith(Value a, Value b) { return bool(s(a).endsWith(s(b))); }
    public static Value SStartsWith(Value a, Value b) { return bool(s(a).startsWith(s(b))); }
    public static Value SSplit(Value a, Value b) {
        String[] p = s(a).split(java.util.regex.Pattern.quote(s(b)), -1);
        Value[] r = new Value[p.length];
        for (int i = 0; i < p.length; i++) r[i] = new StringValue(p[i]);
        return new TupleValue(r);
    }
    public static Value SLen(Value a) { return IntValue.gen(s(a).length()); }
    // 0-based, end exclusive, clipped
    public static Value SSub(Value a, Value i, Value j) {
        String t = s(a); int x = Math.max(0, ((IntValue) i).val), y = Math.min(t.length(), ((IntValue) j).val);
        return new StringValue(x >= y ? "" : t.substring(x, y));
    }
    // ---- interpolating spline of degree k through (xs, ys) at every point of
    // ps (FITPACK's knots), in double precision
    public static Value RSpline(Value xs, Value ys, Value kk, Value ps) {
        Value[] xv = seq(xs), yv = seq(ys), pv = seq(ps);
        int n = xv.length, k = ((IntValue) kk).val;
        double[] x = new double[n], y = new double[n];
        for (int i = 0; i < n; i++) { x[i] = parse(xv[i]).dbl(); y[i] = parse(yv[i]).dbl(); }
        double[] t = new double[n + k + 1];
        for (int i = 0; i <= k; i++) { t[i] = x[0]; t[n + i] = x[n - 1]; }
        int c = k + 1;
        if (k % 2 == 1) { int h = (k + 1) / 2; for (int i = h; i < n - h; i++) t[c++] = x[i]; }
        else { int h = k / 2; for (int i = h + 1; i < n - h; i++) t[c++] = 0.5 * (x[i] + x[i - 1]); }
        double[][] a = new double[n][n + 1];
        for (int i = 0; i < n; i++) {
            int j = span(t, k, n, x[i]); double[] b = basis(t, k, j, x[i]);
            for (int m = 0; m <= k; m++) a[i][j - k + m] = b[m];
            a[i][n] = y[i];
        }
        for (int i = 0; i < n; i++) {
            int p = i;
            for (int r = i + 1; r < n; r++) if (Math.abs(a[r][i]) > Math.abs(a[p][i])) p = r;
            double[] w = a[i]; a[i] = a[p]; a[p] = w;
            for (int r = i + 1; r < n; r++) {
                double f = a[r][i] / a[i][i];
                if (f != 0) for (int q = i; q <= n; q++) a[r][q] -= f * a[i][q];
            }
        }
        double[] co = new double[n];
        for (int i = n - 1; i >= 0; i--) {
            double v = a[i][n];
            for (int q = i + 1; q < n; q++) v -= a[i][q] * co[q];
            co[i] = v / a[i][i];
        }
        Value[] r = new Value[pv.length];
        for (int i = 0; i < pv.length; i++) {
            double p = parse(pv[i]).dbl();
            int j = span(t, k, n, p); double[] b = basis(t, k, j, p); double v = 0;
            for (int m = 0; m <= k; m++) v += b[m] * co[j - k + m];
            r[i] = str(ofDouble(v));
        }
        return new TupleValue(r);
    }
    static int span(double[] t, int k, int n, double x) {
        if (x >= t[n]) { int j = n - 1; while (t[j] == t[n] && j > k) j--; return j; }
        int j = k; while (j < n - 1 && x >= t[j + 1]) j++; return j;
    }
    static double[] basis(double[] t, int k, int j, double x) {
        double[] b = {1.0};
        for (int d = 1; d <= k; d++) {
            double[] nb = new double[d + 1];
            for (int r = 0; r < d; r++) {
                double lo = t[j - d + 1 + r], hi = t[j + 1 + r], f = b[r] / (hi - lo);
                nb[r] += f * (hi - x); nb[r + 1] += f * (x - lo);
            }
            b = nb;
        }
        return b;
    }
    public static Value RLnFact(Value a) {      // ln(n!)
        int n = ((IntValue) a).val; double v = 0;
        for (int i = 2; i <= n; i++) v += Math.log(i);
        return str(ofDouble(v));
    }
    // every element as the nearest double-precision number
    public static Value RRound(Value s) {
        Value[] a = seq(s); Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) {
            Q q = parse(a[i]);
            r[i] = q.sp != 0 || q.d.bitLength() < 60 && q.n.bitLength() < 60 ? str(q) :
                str(ofDec(new BigDecimal(Double.toString(q.dbl()))));
        }
        return new TupleValue(r);
    }
    // the sequence itself, with every element evaluated
    public static Value RForce(Value s) {
        Value[] a = seq(s); Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = a[i];
        return new TupleValue(r);
    }
}
