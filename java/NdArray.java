// Array indexing behind spec/NdArray.tla.  Each method does what the TLA+
// definition of the same name does; spec/MC_NdArray.tla compares the two.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class NdArray {
    static int[] ints(Value v) {
        Value[] a = RealK.seq(v); int[] r = new int[a.length];
        for (int i = 0; i < a.length; i++) r[i] = ((IntValue) a[i]).val;
        return r;
    }
    static int prod(int[] s) {
        int p = 1;
        for (int x : s) p = Math.multiplyExact(p, x);
        return p;
    }
    static int flat(int[] sh, int[] t) {
        int f = 0;
        for (int k = 0; k < sh.length; k++) f = f * sh[k] + t[k];
        return f;
    }
    static int[] unflat(int[] sh, int f) {
        int[] r = new int[sh.length];
        for (int k = sh.length - 1; k >= 0; k--) { r[k] = Math.floorMod(f, sh[k]); f = Math.floorDiv(f, sh[k]); }
        return r;
    }
    static Value cell(Value[] d, int f) {
        if (f < 0 || f >= d.length) throw new RuntimeException("NdArray: no cell " + f + " of " + d.length);
        return d[f];
    }
    public static Value Prod(Value s) { return IntValue.gen(prod(ints(s))); }
    public static Value Flat(Value shape, Value t) { return IntValue.gen(flat(ints(shape), ints(t))); }
    public static Value Unflat(Value shape, Value f) {
        int[] u = unflat(ints(shape), ((IntValue) f).val);
        Value[] r = new Value[u.length];
        for (int k = 0; k < u.length; k++) r[k] = IntValue.gen(u[k]);
        return new TupleValue(r);
    }
    public static Value Slice(Value shape, Value data, Value lo, Value n) {
        int[] sh = ints(shape), l = ints(lo), m = ints(n); Value[] d = RealK.seq(data);
        Value[] r = new Value[Math.max(0, prod(m))];
        for (int c = 0; c < r.length; c++) {
            int[] u = unflat(m, c);
            for (int k = 0; k < u.length; k++) u[k] += l[k];
            r[c] = cell(d, flat(sh, u));
        }
        return new TupleValue(r);
    }
    public static Value Merge(Value shape, Value data, Value n) {
        int[] sh = ints(shape), m = ints(n); Value[] d = RealK.seq(data);
        int[] g = new int[m.length];
        for (int k = 0; k < m.length; k++) g[k] = Math.floorDiv(sh[k], m[k]);
        int gn = prod(g); Value[] r = new Value[Math.max(0, prod(m))];
        for (int c = 0; c < r.length; c++) {
            int[] u = unflat(m, c); RealK.Q t = RealK.ZERO;
            for (int o = 0; o < gn; o++) {
                int[] v = unflat(g, o);
                for (int k = 0; k < v.length; k++) v[k] += u[k] * g[k];
                t = RealK.add(t, RealK.parse(cell(d, flat(sh, v))));
            }
            r[c] = RealK.str(t);
        }
        return new TupleValue(r);
    }
    public static Value Marginal(Value shape, Value data, Value keep) {
        int[] sh = ints(shape); Value[] d = RealK.seq(data);
        SetEnumValue ks = (SetEnumValue) keep.toSetEnum();
        boolean[] kept = new boolean[sh.length];
        for (int i = 0; i < ks.elems.size(); i++) kept[((IntValue) ks.elems.elementAt(i)).val - 1] = true;
        int nk = 0;
        for (boolean b : kept) if (b) nk++;
        int[] kn = new int[nk], on = new int[sh.length - nk];
        for (int k = 0, a = 0, b = 0; k < sh.length; k++) if (kept[k]) kn[a++] = sh[k]; else on[b++] = sh[k];
        Value[] r = new Value[prod(kn)]; int no = prod(on);
        for (int c = 0; c < r.length; c++) {
            int[] u = unflat(kn, c); RealK.Q t = RealK.ZERO;
            for (int o = 0; o < no; o++) {
                int[] v = unflat(on, o), w = new int[sh.length];
                for (int k = 0, a = 0, b = 0; k < sh.length; k++) w[k] = kept[k] ? u[a++] : v[b++];
                t = RealK.add(t, RealK.parse(cell(d, flat(sh, w))));
            }
            r[c] = RealK.str(t);
        }
        return new TupleValue(r);
    }
}
