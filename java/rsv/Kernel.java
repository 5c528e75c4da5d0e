package rsv;

import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Accelerated evaluation of the arithmetic operators that spec/Real.tla and
 *  spec/LinAlg.tla define.  Every method here evaluates an operator whose
 *  definition is written out in TLA+; spec/SelfCheck.tla compares the two. */
public class Kernel {
    static final int LIMB = 30;
    static final int PREC = 160;
    static final BigInteger MASK = BigInteger.ONE.shiftLeft(LIMB).subtract(BigInteger.ONE);

    /** m * 2^e, canonical: m odd or (m,e) = (0,0), at most PREC bits (truncated toward zero). */
    static final class F {
        final BigInteger m; final int e;
        F(BigInteger m, int e) {
            if (m.signum() == 0) { this.m = BigInteger.ZERO; this.e = 0; return; }
            int bl = m.abs().bitLength();
            if (bl > PREC) {
                int d = bl - PREC;
                BigInteger a = m.abs().shiftRight(d);
                m = m.signum() < 0 ? a.negate() : a;
                e += d;
            }
            int tz = m.getLowestSetBit();
            if (tz > 0) { m = m.shiftRight(tz); e += tz; }
            this.m = m; this.e = e;
        }
    }
    static final F ZERO = new F(BigInteger.ZERO, 0);
    static final F ONE = new F(BigInteger.ONE, 0);
    /** the undefined number <<>> (also stands for the infinities <<1>>, <<-1>> in arithmetic) */
    static final F NAN = new F(BigInteger.ZERO, 0);
    static boolean nan(F a) { return a == NAN; }
    static F ofInt(long n) { return new F(BigInteger.valueOf(n), 0); }

    static Value[] elems(Value v) {
        if (v instanceof TupleValue) return ((TupleValue) v).elems;
        Value t = v.toTuple();
        if (t == null) throw new RuntimeException("rsv: not a tuple: " + v);
        return ((TupleValue) t).elems;
    }
    static F dec(Value v) {
        Value[] a = elems(v);
        if (a.length == 0) return NAN;
        if (a.length == 1) return ((IntValue) a[0]).val == 0 ? ZERO : NAN;
        int e = ((IntValue) a[0]).val;
        long lo = ((IntValue) a[1]).val;
        BigInteger m;
        if (a.length == 2) m = BigInteger.valueOf(lo);
        else if (a.length == 3) m = BigInteger.valueOf(lo + (((long) ((IntValue) a[2]).val) << LIMB));
        else {
            m = BigInteger.ZERO;
            for (int i = a.length - 1; i >= 1; i--)
                m = m.shiftLeft(LIMB).add(BigInteger.valueOf(((IntValue) a[i]).val));
        }
        return new F(m, e);
    }
    static final Value VZERO = new TupleValue(new Value[] { IntValue.gen(0) });
    static Value enc(F x) {
        if (x == NAN) return new TupleValue(new Value[0]);
        int s = x.m.signum();
        if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
        BigInteger a = x.m.abs();
        int n = (a.bitLength() + LIMB - 1) / LIMB;
        Value[] r = new Value[n + 1];
        r[0] = IntValue.gen(x.e);
        for (int i = 1; i <= n; i++) {
            int l = a.and(MASK).intValue();
            r[i] = IntValue.gen(s < 0 ? -l : l);
            a = a.shiftRight(LIMB);
        }
        return new TupleValue(r);
    }

    // ---- real arithmetic -------------------------------------------------
    static F add(F a, F b) {
        if (a == NAN || b == NAN) return NAN;
        if (a.m.signum() == 0) return b;
        if (b.m.signum() == 0) return a;
        int d = a.e - b.e;
        if (d >= 0) return new F(a.m.shiftLeft(d).add(b.m), b.e);
        return new F(b.m.shiftLeft(-d).add(a.m), a.e);
    }
    static F neg(F a) { return a == NAN ? NAN : a.m.signum() == 0 ? a : new F(a.m.negate(), a.e); }
    static F sub(F a, F b) { return add(a, neg(b)); }
    static F mul(F a, F b) {
        if (a == NAN || b == NAN) return NAN;
        if (a.m.signum() == 0 || b.m.signum() == 0) return ZERO;
        return new F(a.m.multiply(b.m), a.e + b.e);
    }
    static F div(F a, F b) {
        if (a == NAN || b == NAN || b.m.signum() == 0) return NAN;
        if (a.m.signum() == 0) return ZERO;
        int sh = 2 * PREC + 2;
        return new F(a.m.shiftLeft(sh).divide(b.m), a.e - b.e - sh);
    }
    static F sqrt(F a) {
        if (a == NAN || a.m.signum() < 0) return NAN;
        if (a.m.signum() == 0) return ZERO;
        int sh = 2 * PREC + 2 + (((a.e % 2) + 2) % 2);
        return new F(a.m.shiftLeft(sh).sqrt(), (a.e - sh) / 2);
    }
    static int cmp(F a, F b) {
        int sa = a.m.signum(), sb = b.m.signum();
        if (sa != sb) return Integer.compare(sa, sb);
        if (sa == 0) return 0;
        long ta = (long) a.m.abs().bitLength() + a.e, tb = (long) b.m.abs().bitLength() + b.e;
        if (ta != tb) return sa * Long.compare(ta, tb);
        return sub(a, b).m.signum();
    }
    static int floorLog2(F a) { return a.m.abs().bitLength() + a.e - 1; }

    // ln 2 by the same series as RLnDef
    static F LN2c = null;
    static F lnSeries(F m) {            // 2 * sum z^(2j+1)/(2j+1), z=(m-1)/(m+1)
        F z = div(sub(m, ONE), add(m, ONE));
        F z2 = mul(z, z), t = z, s = ZERO;
        for (int j = 0; j < 110; j++) {
            s = add(s, div(t, ofInt(2 * j + 1)));
            t = mul(t, z2);
            if (t.m.signum() == 0 || floorLog2(t) < -PREC - 10) break;
        }
        return add(s, s);
    }
    static F ln2() { if (LN2c == null) LN2c = lnSeries(ofInt(2)); return LN2c; }
    static F ln(F a) {
        if (a == NAN || a.m.signum() <= 0) return NAN;
        int k = floorLog2(a);
        F m = new F(a.m, a.e - k);      // in [1,2)
        return add(mul(ofInt(k), ln2()), lnSeries(m));
    }
    static F exp(F a) {
        if (a == NAN) return NAN;
        // exp(a) = exp(a/2^s)^(2^s), |a/2^s| < 2^-8
        if (a.m.signum() == 0) return ONE;
        int s = Math.max(0, floorLog2(a) + 9);
        if (s > 40) return NAN;
        F x = new F(a.m, a.e - s), t = ONE, r = ONE;
        for (int j = 1; j < 60; j++) {
            t = div(mul(t, x), ofInt(j));
            if (t.m.signum() == 0 || floorLog2(t) < -PREC - 10) break;
            r = add(r, t);
        }
        for (int i = 0; i < s; i++) r = mul(r, r);
        return r;
    }
    // pi by Machin's formula: 16 atan(1/5) - 4 atan(1/239)
    static F atanInv(int n) {
        F x = div(ONE, ofInt(n)), x2 = mul(x, x), t = x, s = ZERO;
        for (int j = 0; j < 80; j++) {
            F q = div(t, ofInt(2 * j + 1));
            s = (j % 2 == 0) ? add(s, q) : sub(s, q);
            t = mul(t, x2);
            if (t.m.signum() == 0 || floorLog2(t) < -PREC - 10) break;
        }
        return s;
    }
    static F PIc = null;
    static F pi() {
        if (PIc == null) PIc = sub(mul(ofInt(16), atanInv(5)), mul(ofInt(4), atanInv(239)));
        return PIc;
    }

    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    @TLAPlusOperator(identifier = "RAdd", module = "Real", warn = false)
    public static Value RAdd(Value a, Value b) { return enc(add(dec(a), dec(b))); }
    @TLAPlusOperator(identifier = "RSub", module = "Real", warn = false)
    public static Value RSub(Value a, Value b) { return enc(sub(dec(a), dec(b))); }
    @TLAPlusOperator(identifier = "RMul", module = "Real", warn = false)
    public static Value RMul(Value a, Value b) { return enc(mul(dec(a), dec(b))); }
    @TLAPlusOperator(identifier = "RDiv", module = "Real", warn = false)
    public static Value RDiv(Value a, Value b) { return enc(div(dec(a), dec(b))); }
    @TLAPlusOperator(identifier = "RNeg", module = "Real", warn = false)
    public static Value RNeg(Value a) { return enc(neg(dec(a))); }
    @TLAPlusOperator(identifier = "RAbs", module = "Real", warn = false)
    public static Value RAbs(Value a) { F x = dec(a); return enc(x.m.signum() < 0 ? neg(x) : x); }
    @TLAPlusOperator(identifier = "RLeq", module = "Real", warn = false)
    public static Value RLeq(Value a, Value b) {
        F x = dec(a), y = dec(b);
        return b(x != NAN && y != NAN && cmp(x, y) <= 0);
    }
    @TLAPlusOperator(identifier = "RLt", module = "Real", warn = false)
    public static Value RLt(Value a, Value b) {
        F x = dec(a), y = dec(b);
        return b(x != NAN && y != NAN && cmp(x, y) < 0);
    }
    @TLAPlusOperator(identifier = "RSqrt", module = "Real", warn = false)
    public static Value RSqrt(Value a) { return enc(sqrt(dec(a))); }
    @TLAPlusOperator(identifier = "RLn", module = "Real", warn = false)
    public static Value RLn(Value a) { return enc(ln(dec(a))); }
    @TLAPlusOperator(identifier = "RExp", module = "Real", warn = false)
    public static Value RExp(Value a) { return enc(exp(dec(a))); }
    @TLAPlusOperator(identifier = "RPi", module = "Real", warn = false)
    public static Value RPi() { return enc(pi()); }
    @TLAPlusOperator(identifier = "RInt", module = "Real", warn = false)
    public static Value RInt(Value n) { return enc(ofInt(((IntValue) n).val)); }

    // ---- complex numbers <<re, im>> and matrices -------------------------
    static final class C {
        final F r, i;
        C(F r, F i) { this.r = r; this.i = i; }
    }
    static final C CZ = new C(ZERO, ZERO);
    static final C C1 = new C(ONE, ZERO);
    static final C CNAN = new C(NAN, NAN);
    static C decC(Value v) { Value[] a = elems(v); return new C(dec(a[0]), dec(a[1])); }
    static Value encC(C c) { return new TupleValue(enc(c.r), enc(c.i)); }
    static C cadd(C a, C b) { return new C(add(a.r, b.r), add(a.i, b.i)); }
    static C csub(C a, C b) { return new C(sub(a.r, b.r), sub(a.i, b.i)); }
    static C cmul(C a, C b) {
        if (zero(a.i) && zero(b.i)) return new C(mul(a.r, b.r), ZERO);
        return new C(sub(mul(a.r, b.r), mul(a.i, b.i)), add(mul(a.r, b.i), mul(a.i, b.r)));
    }
    static boolean zero(F a) { return a != NAN && a.m.signum() == 0; }
    static C conj(C a) { return new C(a.r, neg(a.i)); }
    static F abs2(C a) { return add(mul(a.r, a.r), mul(a.i, a.i)); }
    static C cdiv(C a, C b) {
        if (zero(a.i) && zero(b.i)) return new C(div(a.r, b.r), ZERO);
        F d = abs2(b);
        C n = cmul(a, conj(b));
        return new C(div(n.r, d), div(n.i, d));
    }
    static C[][] decM(Value v) {
        Value[] rows = elems(v);
        C[][] m = new C[rows.length][];
        for (int i = 0; i < rows.length; i++) m[i] = decV(rows[i]);
        return m;
    }
    static C[] decV(Value v) {
        Value[] a = elems(v);
        C[] r = new C[a.length];
        for (int i = 0; i < a.length; i++) r[i] = decC(a[i]);
        return r;
    }
    static Value encV(C[] a) {
        Value[] r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = encC(a[i]);
        return new TupleValue(r);
    }
    static Value encM(C[][] m) {
        Value[] r = new Value[m.length];
        for (int i = 0; i < m.length; i++) r[i] = encV(m[i]);
        return new TupleValue(r);
    }
    static C[][] mmul(C[][] a, C[][] b) {
        int n = a.length, q = b.length, p = q == 0 ? 0 : b[0].length;
        C[][] r = new C[n][p];
        for (int i = 0; i < n; i++) {
            if (a[i].length != q) { java.util.Arrays.fill(r[i], CNAN); continue; }
            for (int j = 0; j < p; j++) {
                C s = CZ;
                for (int k = 0; k < q; k++) s = cadd(s, cmul(a[i][k], b[k][j]));
                r[i][j] = s;
            }
        }
        return r;
    }
    /** Gauss-Jordan with largest-modulus pivoting; null when singular. */
    static C[][] inv(C[][] a, C[] detOut) {
        int n = a.length;
        C[][] w = new C[n][2 * n];
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) { w[i][j] = a[i][j]; w[i][n + j] = i == j ? C1 : CZ; }
        C det = C1;
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c; i < n; i++) if (abs2(w[i][c]) == NAN) { detOut[0] = CNAN; return null; }
            for (int i = c + 1; i < n; i++) if (cmp(abs2(w[i][c]), abs2(w[p][c])) > 0) p = i;
            if (abs2(w[p][c]).m.signum() == 0) { detOut[0] = CZ; return null; }
            if (p != c) { C[] t = w[p]; w[p] = w[c]; w[c] = t; det = csub(CZ, det); }
            C pv = w[c][c];
            det = cmul(det, pv);
            C ip = cdiv(C1, pv);
            for (int j = 0; j < 2 * n; j++) w[c][j] = cmul(w[c][j], ip);
            for (int i = 0; i < n; i++) if (i != c) {
                C f = w[i][c];
                if (zero(f.r) && zero(f.i)) continue;
                for (int j = 0; j < 2 * n; j++) w[i][j] = csub(w[i][j], cmul(f, w[c][j]));
            }
        }
        detOut[0] = det;
        C[][] r = new C[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = w[i][n + j];
        return r;
    }

    @TLAPlusOperator(identifier = "CAdd", module = "LinAlg", warn = false)
    public static Value CAdd(Value a, Value b) { return encC(cadd(decC(a), decC(b))); }
    @TLAPlusOperator(identifier = "CSub", module = "LinAlg", warn = false)
    public static Value CSub(Value a, Value b) { return encC(csub(decC(a), decC(b))); }
    @TLAPlusOperator(identifier = "CMul", module = "LinAlg", warn = false)
    public static Value CMul(Value a, Value b) { return encC(cmul(decC(a), decC(b))); }
    @TLAPlusOperator(identifier = "CDiv", module = "LinAlg", warn = false)
    public static Value CDiv(Value a, Value b) { return encC(cdiv(decC(a), decC(b))); }
    @TLAPlusOperator(identifier = "CAbs2", module = "LinAlg", warn = false)
    public static Value CAbs2(Value a) { return enc(abs2(decC(a))); }
    @TLAPlusOperator(identifier = "VDot", module = "LinAlg", warn = false)
    public static Value VDot(Value a, Value b) {          // sum conj(a_i) b_i
        C[] x = decV(a), y = decV(b);
        C s = CZ;
        for (int i = 0; i < x.length; i++) s = cadd(s, cmul(conj(x[i]), y[i]));
        return encC(s);
    }
    @TLAPlusOperator(identifier = "MMul", module = "LinAlg", warn = false)
    public static Value MMul(Value a, Value b) { return encM(mmul(decM(a), decM(b))); }
    @TLAPlusOperator(identifier = "MInv", module = "LinAlg", warn = false)
    public static Value MInv(Value a) {
        C[][] A = decM(a), r = inv(A, new C[1]);
        if (r == null) {
            r = new C[A.length][A.length];
            for (C[] row : r) java.util.Arrays.fill(row, CNAN);
        }
        return encM(r);
    }
    @TLAPlusOperator(identifier = "MDet", module = "LinAlg", warn = false)
    public static Value MDet(Value a) {
        C[] d = new C[1];
        inv(decM(a), d);
        return encC(d[0]);
    }
    /** tuple of Re(x_i^H Q x_i) over the rows x_i of X. */
    @TLAPlusOperator(identifier = "QuadForms", module = "LinAlg", warn = false)
    public static Value QuadForms(Value q, Value x) {
        C[][] Q = decM(q), X = decM(x);
        Value[] r = new Value[X.length];
        for (int n = 0; n < X.length; n++) {
            F s = ZERO;
            for (int i = 0; i < Q.length; i++) {
                C t = CZ;
                for (int j = 0; j < Q.length; j++) t = cadd(t, cmul(Q[i][j], X[n][j]));
                C u = cmul(conj(X[n][i]), t);
                s = add(s, u.r);
            }
            r[n] = enc(s);
        }
        return new TupleValue(r);
    }
    /** sum_n w_n x_n x_n^H over the rows x_n of X. */
    @TLAPlusOperator(identifier = "WScatter", module = "LinAlg", warn = false)
    public static Value WScatter(Value wv, Value x) {
        Value[] we = elems(wv);
        C[][] X = decM(x);
        int p = X[0].length;
        C[][] r = new C[p][p];
        for (C[] row : r) java.util.Arrays.fill(row, CZ);
        for (int n = 0; n < X.length; n++) {
            F w = dec(we[n]);
            for (int i = 0; i < p; i++) {
                C wi = new C(mul(w, X[n][i].r), mul(w, X[n][i].i));
                for (int j = 0; j < p; j++) r[i][j] = cadd(r[i][j], cmul(wi, conj(X[n][j])));
            }
        }
        return encM(r);
    }
    @TLAPlusOperator(identifier = "FrobSq", module = "LinAlg", warn = false)
    public static Value FrobSq(Value a) {
        F s = ZERO;
        for (C[] row : decM(a)) for (C c : row) s = add(s, abs2(c));
        return enc(s);
    }
    @TLAPlusOperator(identifier = "MAdd", module = "LinAlg", warn = false)
    public static Value MAdd(Value a, Value b) {
        C[][] x = decM(a), y = decM(b);
        C[][] r = new C[x.length][];
        for (int i = 0; i < x.length; i++) {
            r[i] = new C[x[i].length];
            for (int j = 0; j < x[i].length; j++) r[i][j] = cadd(x[i][j], y[i][j]);
        }
        return encM(r);
    }
    @TLAPlusOperator(identifier = "MScale", module = "LinAlg", warn = false)
    public static Value MScale(Value c, Value a) {
        C k = decC(c);
        C[][] x = decM(a);
        for (int i = 0; i < x.length; i++) for (int j = 0; j < x[i].length; j++) x[i][j] = cmul(k, x[i][j]);
        return encM(x);
    }
}
