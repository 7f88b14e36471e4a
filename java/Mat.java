// TLC module override for Mat.tla (matrices of Num values, as sequences of rows).
import tlc2.value.impl.*;

public class Mat {
    static Value[] elems(Value v) {
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("Mat: not a sequence: " + v);
        return ((TupleValue) t).elems;
    }
    static Num.Q[] vec(Value v) {
        Value[] e = elems(v);
        Num.Q[] r = new Num.Q[e.length];
        for (int i = 0; i < e.length; i++) r[i] = Num.q(e[i]);
        return r;
    }
    static Num.Q[][] mat(Value v) {
        Value[] e = elems(v);
        Num.Q[][] r = new Num.Q[e.length][];
        for (int i = 0; i < e.length; i++) r[i] = vec(e[i]);
        return r;
    }
    static Value out(Num.Q[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = Num.v(a[i]);
        return new TupleValue(e);
    }
    static Value out(Num.Q[][] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = out(a[i]);
        return new TupleValue(e);
    }
    static void need(boolean c, String m) { if (!c) throw new RuntimeException("Mat: " + m); }
    static Num.Q[][] mul(Num.Q[][] a, Num.Q[][] b) {
        int m = a.length, k = b.length, n = k == 0 ? 0 : b[0].length;
        Num.Q[][] r = new Num.Q[m][n];
        for (int i = 0; i < m; i++) {
            need(a[i].length == k, "mul: shapes");
            for (int j = 0; j < n; j++) {
                Num.Q s = Num.ZERO;
                for (int l = 0; l < k; l++) s = Num.add(s, Num.mul(a[i][l], b[l][j]));
                r[i][j] = s;
            }
        }
        return r;
    }
    static Num.Q dot(Num.Q[] a, Num.Q[] b) {
        need(a.length == b.length, "dot: lengths " + a.length + " " + b.length);
        Num.Q s = Num.ZERO;
        for (int i = 0; i < a.length; i++) s = Num.add(s, Num.mul(a[i], b[i]));
        return s;
    }
    interface F2 { Num.Q f(Num.Q a, Num.Q b); }
    static Num.Q[] map2(Num.Q[] a, Num.Q[] b, F2 f) {
        need(a.length == b.length, "vector lengths " + a.length + " " + b.length);
        Num.Q[] r = new Num.Q[a.length];
        for (int i = 0; i < a.length; i++) r[i] = f.f(a[i], b[i]);
        return r;
    }
    static Num.Q[][] map2(Num.Q[][] a, Num.Q[][] b, F2 f) {
        need(a.length == b.length, "matrix rows " + a.length + " " + b.length);
        Num.Q[][] r = new Num.Q[a.length][];
        for (int i = 0; i < a.length; i++) r[i] = map2(a[i], b[i], f);
        return r;
    }
    // Gauss-Jordan with exact pivoting (largest pivot); null when singular
    static Num.Q[][] solve(Num.Q[][] A, Num.Q[][] B) {
        int n = A.length;
        need(B.length == n, "solve: shapes");
        int m = n == 0 ? 0 : B[0].length;
        Num.Q[][] a = new Num.Q[n][n + m];
        for (int i = 0; i < n; i++) {
            need(A[i].length == n, "solve: not square");
            System.arraycopy(A[i], 0, a[i], 0, n);
            System.arraycopy(B[i], 0, a[i], n, m);
        }
        for (int c = 0; c < n; c++) {
            int p = -1;
            for (int i = c; i < n; i++)
                if (a[i][c].fin() && a[i][c].n.signum() != 0 && (p < 0 || Num.cmp(Num.abs(a[i][c]), Num.abs(a[p][c])) > 0)) p = i;
            if (p < 0) return null;
            Num.Q[] t = a[p]; a[p] = a[c]; a[c] = t;
            Num.Q iv = Num.div(Num.ONE, a[c][c]);
            for (int j = c; j < n + m; j++) a[c][j] = Num.mul(a[c][j], iv);
            for (int i = 0; i < n; i++) if (i != c && a[i][c].n.signum() != 0) {
                Num.Q f = a[i][c];
                for (int j = c; j < n + m; j++) a[i][j] = Num.sub(a[i][j], Num.mul(f, a[c][j]));
            }
        }
        Num.Q[][] r = new Num.Q[n][m];
        for (int i = 0; i < n; i++) System.arraycopy(a[i], n, r[i], 0, m);
        return r;
    }
    static final Value SING = new TupleValue(new Value[0]);

    public static Value MMul(final Value a, final Value b) { return out(mul(mat(a), mat(b))); }
    public static Value MVec(final Value a, final Value x) {
        Num.Q[][] A = mat(a); Num.Q[] y = vec(x), r = new Num.Q[A.length];
        for (int i = 0; i < A.length; i++) r[i] = dot(A[i], y);
        return out(r);
    }
    public static Value MAdd(final Value a, final Value b) { return out(map2(mat(a), mat(b), Num::add)); }
    public static Value MSub(final Value a, final Value b) { return out(map2(mat(a), mat(b), Num::sub)); }
    public static Value VAdd(final Value a, final Value b) { return out(map2(vec(a), vec(b), Num::add)); }
    public static Value VSub(final Value a, final Value b) { return out(map2(vec(a), vec(b), Num::sub)); }
    public static Value VDot(final Value a, final Value b) { return Num.v(dot(vec(a), vec(b))); }
    public static Value VScale(final Value s, final Value a) {
        Num.Q k = Num.q(s); Num.Q[] x = vec(a), r = new Num.Q[x.length];
        for (int i = 0; i < r.length; i++) r[i] = Num.mul(k, x[i]);
        return out(r);
    }
    public static Value MScale(final Value s, final Value a) {
        Num.Q k = Num.q(s); Num.Q[][] x = mat(a), r = new Num.Q[x.length][];
        for (int i = 0; i < r.length; i++) { r[i] = new Num.Q[x[i].length]; for (int j = 0; j < r[i].length; j++) r[i][j] = Num.mul(k, x[i][j]); }
        return out(r);
    }
    static Num.Q[][] tr(Num.Q[][] x) {
        int n = x.length == 0 ? 0 : x[0].length;
        Num.Q[][] r = new Num.Q[n][x.length];
        for (int i = 0; i < x.length; i++) for (int j = 0; j < n; j++) r[j][i] = x[i][j];
        return r;
    }
    public static Value MT(final Value a) { return out(tr(mat(a))); }
    public static Value MSolve(final Value a, final Value b) {
        Num.Q[][] r = solve(mat(a), mat(b));
        return r == null ? SING : out(r);
    }
    public static Value MSolveV(final Value a, final Value b) {
        Num.Q[] x = vec(b);
        Num.Q[][] B = new Num.Q[x.length][1];
        for (int i = 0; i < x.length; i++) B[i][0] = x[i];
        Num.Q[][] r = solve(mat(a), B);
        if (r == null) return SING;
        Num.Q[] o = new Num.Q[r.length];
        for (int i = 0; i < o.length; i++) o[i] = r[i][0];
        return out(o);
    }
    public static Value MQuad(final Value x, final Value a, final Value y) { // x' A y
        Num.Q[][] A = mat(a); Num.Q[] u = vec(x), w = vec(y);
        need(A.length == u.length, "quad: shapes");
        Num.Q s = Num.ZERO;
        for (int i = 0; i < A.length; i++) s = Num.add(s, Num.mul(u[i], dot(A[i], w)));
        return Num.v(s);
    }
    static boolean isSeq(Value v) { return v.toTuple() != null; }
    static boolean isVec(Value v) {
        if (!isSeq(v)) return false;
        for (Value e : elems(v)) if (!Num.isNum(e)) return false;
        return true;
    }
    static boolean isMat(Value v) {
        if (!isSeq(v)) return false;
        int n = -1;
        for (Value e : elems(v)) { if (!isVec(e)) return false; int l = elems(e).length; if (n >= 0 && l != n) return false; n = l; }
        return true;
    }
    // |a-b| <= atol + rtol * (largest magnitude in a and b), all entries, same shape
    static boolean closeV(Num.Q[] a, Num.Q[] b, Num.Q tol) {
        if (a.length != b.length) return false;
        for (int i = 0; i < a.length; i++) {
            if (!a[i].fin() || !b[i].fin()) return false;
            if (!Num.le(Num.abs(Num.sub(a[i], b[i])), tol)) return false;
        }
        return true;
    }
    static Num.Q mx(Num.Q[] a, Num.Q m) { for (Num.Q x : a) if (x.fin()) m = Num.max(m, Num.abs(x)); return m; }
    public static Value VClose(final Value a, final Value b, final Value at, final Value rt) {
        if (!isVec(a) || !isVec(b)) return BoolValue.ValFalse;
        Num.Q[] x = vec(a), y = vec(b);
        Num.Q tol = Num.add(Num.q(at), Num.mul(Num.q(rt), mx(y, mx(x, Num.ZERO))));
        return Num.b(closeV(x, y, tol));
    }
    public static Value MClose(final Value a, final Value b, final Value at, final Value rt) {
        if (!isMat(a) || !isMat(b)) return BoolValue.ValFalse;
        Num.Q[][] x = mat(a), y = mat(b);
        if (x.length != y.length) return BoolValue.ValFalse;
        Num.Q m = Num.ZERO;
        for (Num.Q[] r : x) m = mx(r, m);
        for (Num.Q[] r : y) m = mx(r, m);
        Num.Q tol = Num.add(Num.q(at), Num.mul(Num.q(rt), m));
        for (int i = 0; i < x.length; i++) if (!closeV(x[i], y[i], tol)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value VMaxAbs(final Value a) { return Num.v(mx(vec(a), Num.ZERO)); }
    public static Value MMaxAbs(final Value a) { Num.Q m = Num.ZERO; for (Num.Q[] r : mat(a)) m = mx(r, m); return Num.v(m); }
    public static Value IsVec(final Value a, final Value n) {
        return Num.b(isVec(a) && elems(a).length == ((IntValue) n).val);
    }
    public static Value IsMat(final Value a, final Value m, final Value n) {
        if (!isMat(a)) return BoolValue.ValFalse;
        Value[] e = elems(a);
        if (e.length != ((IntValue) m).val) return BoolValue.ValFalse;
        for (Value r : e) if (elems(r).length != ((IntValue) n).val) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
}
