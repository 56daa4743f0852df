import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;
import java.util.concurrent.ConcurrentHashMap;

/** Evaluation of module FP: IEEE double arithmetic on numerals. */
public class FP {
    private static final ConcurrentHashMap<UniqueString, Double> CACHE = new ConcurrentHashMap<>();

    private static double parse(String s) {
        switch (s) {
            case "inf": case "Infinity": case "+inf": return Double.POSITIVE_INFINITY;
            case "-inf": case "-Infinity": return Double.NEGATIVE_INFINITY;
            case "nan": case "-nan": case "NaN": return Double.NaN;
            default: return Double.parseDouble(s);
        }
    }
    private static double d(Value v) {
        if (v instanceof StringValue) {
            UniqueString u = ((StringValue) v).getVal();
            Double x = CACHE.get(u);
            if (x == null) { x = parse(u.toString()); CACHE.put(u, x); }
            return x;
        }
        if (v instanceof IntValue) return ((IntValue) v).val;
        throw new RuntimeException("FP: not a number: " + v);
    }
    private static Value s(double x) {
        if (x == 0.0) x = 0.0; // -0.0 and 0.0 are one number
        if (Double.isNaN(x)) return new StringValue("nan");
        if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
        return new StringValue(Double.toString(x));
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static double[] vec(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("FP: not a vector: " + v);
        double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
        return r;
    }
    private static Value tup(double[] a) {
        Value[] e = new Value[a.length];
        for (int i = 0; i < a.length; i++) e[i] = s(a[i]);
        return new TupleValue(e);
    }

    public static Value F(Value a) { return s(d(a)); }
    public static Value FI(Value a) { return s(d(a)); }
    public static Value FInt(Value a) {
        double x = Math.floor(d(a));
        if (!(x >= Integer.MIN_VALUE && x <= Integer.MAX_VALUE)) throw new RuntimeException("FInt: range " + a);
        return IntValue.gen((int) x);
    }
    public static Value FAdd(Value a, Value b) { return s(d(a) + d(b)); }
    public static Value FSub(Value a, Value b) { return s(d(a) - d(b)); }
    public static Value FMul(Value a, Value b) { return s(d(a) * d(b)); }
    public static Value FDiv(Value a, Value b) { return s(d(a) / d(b)); }
    public static Value FNeg(Value a) { return s(-d(a)); }
    public static Value FAbs(Value a) { return s(Math.abs(d(a))); }
    public static Value FSqrt(Value a) { return s(Math.sqrt(d(a))); }
    public static Value FSin(Value a) { return s(Math.sin(d(a))); }
    public static Value FCos(Value a) { return s(Math.cos(d(a))); }
    public static Value FTan(Value a) { return s(Math.tan(d(a))); }
    public static Value FAsin(Value a) { return s(Math.asin(d(a))); }
    public static Value FAcos(Value a) { return s(Math.acos(d(a))); }
    public static Value FAtan2(Value a, Value b) { return s(Math.atan2(d(a), d(b))); }
    public static Value FTanh(Value a) { return s(Math.tanh(d(a))); }
    public static Value FExp(Value a) { return s(Math.exp(d(a))); }
    public static Value FLog(Value a) { return s(Math.log(d(a))); }
    public static Value FMax(Value a, Value b) { return s(Math.max(d(a), d(b))); }
    public static Value FMin(Value a, Value b) { return s(Math.min(d(a), d(b))); }
    public static Value FLt(Value a, Value b) { return b(d(a) < d(b)); }
    public static Value FLe(Value a, Value b) { return b(d(a) <= d(b)); }
    public static Value FEq(Value a, Value b) { return b(d(a) == d(b)); }
    public static Value FIsNum(Value a) {
        if (a instanceof IntValue) return BoolValue.ValTrue;
        if (!(a instanceof StringValue)) return BoolValue.ValFalse;
        try { parse(((StringValue) a).getVal().toString()); return BoolValue.ValTrue; }
        catch (NumberFormatException e) { return BoolValue.ValFalse; }
    }
    private static String str(Value a) { return ((StringValue) a).getVal().toString(); }
    public static Value SUpper(Value a) { return new StringValue(str(a).toUpperCase(java.util.Locale.ROOT)); }
    public static Value SHas(Value a, Value t) { return b(str(a).contains(str(t))); }
    public static Value FFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
    private static boolean close(double x, double y, double rtol, double atol, double scale) {
        return Math.abs(x - y) <= atol + rtol * scale; // false on NaN
    }
    public static Value FClose(Value a, Value b, Value r, Value t) {
        double x = d(a), y = d(b);
        if (Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
        return b(close(x, y, d(r), d(t), Math.max(Math.abs(x), Math.abs(y))));
    }
    public static Value VAdd(Value a, Value b) {
        double[] x = vec(a), y = vec(b); chk(x, y);
        for (int i = 0; i < x.length; i++) x[i] += y[i];
        return tup(x);
    }
    public static Value VSub(Value a, Value b) {
        double[] x = vec(a), y = vec(b); chk(x, y);
        for (int i = 0; i < x.length; i++) x[i] -= y[i];
        return tup(x);
    }
    private static void chk(double[] x, double[] y) {
        if (x.length != y.length) throw new RuntimeException("FP: vector lengths " + x.length + " " + y.length);
    }
    public static Value VScale(Value k, Value v) {
        double[] x = vec(v); double c = d(k);
        for (int i = 0; i < x.length; i++) x[i] *= c;
        return tup(x);
    }
    public static Value VDot(Value a, Value b) {
        double[] x = vec(a), y = vec(b); chk(x, y); double t = 0;
        for (int i = 0; i < x.length; i++) t += x[i] * y[i];
        return s(t);
    }
    public static Value VCross(Value a, Value b) {
        double[] x = vec(a), y = vec(b);
        return tup(new double[] { x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0] });
    }
    private static double norm(double[] x) { double t = 0; for (double e : x) t += e * e; return Math.sqrt(t); }
    public static Value VNorm(Value a) { return s(norm(vec(a))); }
    public static Value VUnit(Value a) {
        double[] x = vec(a); double n = norm(x);
        if (n != 0) for (int i = 0; i < x.length; i++) x[i] /= n;
        return tup(x);
    }
    private static double maxabs(double[] x) { double m = 0; for (double e : x) { if (Double.isNaN(e)) return e; m = Math.max(m, Math.abs(e)); } return m; }
    public static Value VMaxAbs(Value a) { return s(maxabs(vec(a))); }
    public static Value VSum(Value a) { double t = 0; for (double e : vec(a)) t += e; return s(t); }
    public static Value VClose(Value a, Value b, Value r, Value t) {
        double[] x = vec(a), y = vec(b);
        if (x.length != y.length) return BoolValue.ValFalse;
        double sc = Math.max(maxabs(x), maxabs(y));
        if (Double.isNaN(sc) || Double.isInfinite(sc)) return BoolValue.ValFalse;
        double rt = d(r), at = d(t);
        for (int i = 0; i < x.length; i++) if (!close(x[i], y[i], rt, at, sc)) return BoolValue.ValFalse;
        return BoolValue.ValTrue;
    }
    public static Value MVec(Value m, Value v) {
        double[] a = vec(m), x = vec(v); int n = x.length;
        if (a.length != n * n) throw new RuntimeException("FP: matrix size");
        double[] y = new double[n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) y[i] += a[n * i + j] * x[j];
        return tup(y);
    }
    private static int dim(double[] a) { int n = (int) Math.round(Math.sqrt(a.length)); if (n * n != a.length) throw new RuntimeException("FP: matrix size"); return n; }
    public static Value MMul(Value p, Value q) {
        double[] a = vec(p), b = vec(q); chk(a, b); int n = dim(a);
        double[] c = new double[n * n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) c[n * i + j] += a[n * i + k] * b[n * k + j];
        return tup(c);
    }
    public static Value MTrans(Value p) {
        double[] a = vec(p); int n = dim(a); double[] c = new double[n * n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[n * i + j] = a[n * j + i];
        return tup(c);
    }
    public static Value MSolve(Value m, Value v) {
        double[] a = vec(m).clone(), x = vec(v); int n = x.length;
        if (a.length != n * n) throw new RuntimeException("FP: matrix size");
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) if (Math.abs(a[n * i + c]) > Math.abs(a[n * p + c])) p = i;
            if (p != c) {
                for (int j = 0; j < n; j++) { double t = a[n * c + j]; a[n * c + j] = a[n * p + j]; a[n * p + j] = t; }
                double t = x[c]; x[c] = x[p]; x[p] = t;
            }
            for (int i = 0; i < n; i++) if (i != c) {
                double f = a[n * i + c] / a[n * c + c];
                if (f == 0) continue;
                for (int j = c; j < n; j++) a[n * i + j] -= f * a[n * c + j];
                x[i] -= f * x[c];
            }
        }
        for (int i = 0; i < n; i++) x[i] /= a[n * i + i];
        return tup(x);
    }
}
