import tlc2.value.impl.*;
import tlc2.tool.impl.Tool;
import tlc2.tool.TLCState;
import tlc2.util.Context;
import tlc2.tool.coverage.CostModel;
import tla2sany.semantic.ExprOrOpArgNode;
import tlc2.overrides.Evaluation;
import util.UniqueString;
import java.nio.file.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Java definitions of the operators declared in module RealNum. */
public final class RealNum {
    static double d(Value x) {
        if(x instanceof RealValue) return ((RealValue) x).v;
        if(x instanceof IntValue) return ((IntValue) x).val;
        throw new RuntimeException("not a number: " + x);
    }
    static Value r(double x) { return new RealValue(x); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static Value[] elems(Value s) {
        if(s instanceof TupleValue) return ((TupleValue) s).elems;
        Value t = s.toTuple();
        if(t != null) return ((TupleValue) t).elems;
        Value f = s.toFcnRcd();
        if(f != null) return ((FcnRcdValue) f).values;
        throw new RuntimeException("not a sequence or function: " + s);
    }
    public static Value RAdd(Value x, Value y) { return r(d(x) + d(y)); }
    public static Value RSub(Value x, Value y) { return r(d(x) - d(y)); }
    public static Value RMul(Value x, Value y) { return r(d(x) * d(y)); }
    public static Value RDiv(Value x, Value y) { return r(d(x) / d(y)); }
    public static Value RNeg(Value x) { return r(-d(x)); }
    public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value IsNaN(Value x) { return b(Double.isNaN(d(x))); }
    public static Value IsFin(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
    public static Value RNum(Value x, Value y) { return r(d(x) / d(y)); }
    public static Value RLit(Value s) { return r(Double.parseDouble(((StringValue) s).val.toString())); }
    public static Value RNaN() { return r(Double.NaN); }
    public static Value RAbs(Value x) { return r(Math.abs(d(x))); }
    public static Value RSqrt(Value x) { return r(Math.sqrt(d(x))); }
    public static Value RExp(Value x) { return r(Math.exp(d(x))); }
    public static Value RLog(Value x) { return r(Math.log(d(x))); }
    public static Value RPow(Value x, Value y) { return r(Math.pow(d(x), d(y))); }
    public static Value RSin(Value x) { return r(Math.sin(d(x))); }
    public static Value RCos(Value x) { return r(Math.cos(d(x))); }
    public static Value RAsin(Value x) { return r(Math.asin(d(x))); }
    public static Value RAcos(Value x) { return r(Math.acos(d(x))); }
    public static Value RAtan2(Value x, Value y) { return r(Math.atan2(d(x), d(y))); }
    public static Value RTanh(Value x) { return r(Math.tanh(d(x))); }
    public static Value RMax2(Value x, Value y) { return r(Math.max(d(x), d(y))); }
    public static Value RMin2(Value x, Value y) { return r(Math.min(d(x), d(y))); }
    public static Value RFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
    public static Value RCeil(Value x) { return IntValue.gen((int) Math.ceil(d(x))); }
    static double erfc(double x) {   // through the incomplete gamma function
        double p = gammaP(0.5, x * x);
        return x >= 0 ? gammaQ(0.5, x * x) : 1 + p;
    }
    public static Value RNormCdf(Value x) { return r(0.5 * erfc(-d(x) / Math.sqrt(2))); }
    public static Value RGammaP(Value a, Value x) { return r(gammaP(d(a), d(x))); }
    public static Value RStudentCdf(Value x, Value nu) { return r(studentCdf(d(x), d(nu))); }
    // the point where an increasing function of (lo, hi) reaches p, by halving
    interface Cdf { double at(double x); }
    static double halve(Cdf f, double p, double lo, double hi) {
        for(int i = 0; i < 200; i++) {
            double m = 0.5 * (lo + hi);
            if(m <= lo || m >= hi) break;
            if(f.at(m) < p) lo = m; else hi = m;
        }
        return 0.5 * (lo + hi);
    }
    public static Value RNormQuantile(Value p) {
        double q = d(p);
        if(!(q > 0 && q < 1)) return r(q <= 0 ? Double.NEGATIVE_INFINITY : q >= 1 ? Double.POSITIVE_INFINITY : Double.NaN);
        return r(halve(x -> 0.5 * erfc(-x / Math.sqrt(2)), q, -40, 40));
    }
    public static Value RGammaQuantile(Value p, Value shape) {
        double q = d(p), a = d(shape);
        if(!(q > 0 && q < 1)) return r(q <= 0 ? 0 : q >= 1 ? Double.POSITIVE_INFINITY : Double.NaN);
        return r(Math.exp(halve(x -> gammaP(a, Math.exp(x)), q, -700, 100)));
    }
    public static Value RStudentQuantile(Value p, Value nu) {
        double q = d(p), n = d(nu);
        if(!(q > 0 && q < 1)) return r(q <= 0 ? Double.NEGATIVE_INFINITY : q >= 1 ? Double.POSITIVE_INFINITY : Double.NaN);
        double u = Math.min(q, 1 - q);   // the upper tail, in logarithms
        double t = Math.exp(halve(x -> -upperT(Math.exp(x), n), -u, -700, 300));
        return r(q == 0.5 ? 0 : q < 0.5 ? -t : t);
    }
    static double upperT(double x, double n) {   // P(T > x), x >= 0
        return 0.5 * betaI(n / 2, 0.5, n / (n + x * x), x * x / (n + x * x));
    }
    static double studentCdf(double x, double n) {
        if(Double.isNaN(x)) return x;
        if(Double.isInfinite(x)) return x > 0 ? 1 : 0;
        return x >= 0 ? 1 - upperT(x, n) : upperT(-x, n);
    }
    static double betaI(double a, double b, double x, double y) {   // regularized incomplete beta at x = 1 - y
        if(x <= 0) return 0;
        if(y <= 0) return 1;
        double front = Math.exp(lgamma(a + b) - lgamma(a) - lgamma(b) + a * Math.log(x) + b * Math.log(y));
        return x < (a + 1) / (a + b + 2) ? front * betaFraction(a, b, x) / a : 1 - front * betaFraction(b, a, y) / b;
    }
    static double betaFraction(double a, double b, double x) {
        double c = 1, d = 1 - (a + b) * x / (a + 1); if(Math.abs(d) < 1e-300) d = 1e-300;
        d = 1 / d;
        double h = d;
        for(int m = 1; m < 100000; m++) {
            double an = m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m));
            d = 1 + an * d; if(Math.abs(d) < 1e-300) d = 1e-300; c = 1 + an / c; if(Math.abs(c) < 1e-300) c = 1e-300;
            d = 1 / d; h *= d * c;
            an = -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1));
            d = 1 + an * d; if(Math.abs(d) < 1e-300) d = 1e-300; c = 1 + an / c; if(Math.abs(c) < 1e-300) c = 1e-300;
            d = 1 / d;
            double e = d * c; h *= e;
            if(Math.abs(e - 1) < 1e-16) break;
        }
        return h;
    }
    static double lgamma(double x) {   // Stirling's series, shifted upwards
        double s = 0;
        while(x < 30) { s -= Math.log(x); x += 1; }
        double z = 1 / (x * x);
        return s + (x - 0.5) * Math.log(x) - x + 0.91893853320467274178 + (1 / 12.0 - z * (1 / 360.0 - z * (1 / 1260.0 - z * (1 / 1680.0 - z / 1188.0)))) / x;
    }
    static double gammaP(double a, double x) {
        if(x <= 0) return 0;
        return x < a + 1 ? series(a, x) : 1 - fraction(a, x);
    }
    static double gammaQ(double a, double x) {
        if(x <= 0) return 1;
        return x < a + 1 ? 1 - series(a, x) : fraction(a, x);
    }
    static double series(double a, double x) {
        double t = 1 / a, s = t;
        for(int n = 1; n < 1000000; n++) { t *= x / (a + n); s += t; if(t < s * 1e-17) break; }
        return s * Math.exp(-x + a * Math.log(x) - lgamma(a));
    }
    static double fraction(double a, double x) {   // Lentz
        double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
        for(int i = 1; i < 1000000; i++) {
            double an = -i * (i - a);
            b += 2;
            d = an * d + b; if(Math.abs(d) < 1e-300) d = 1e-300;
            c = b + an / c; if(Math.abs(c) < 1e-300) c = 1e-300;
            d = 1 / d;
            double e = d * c;
            h *= e;
            if(Math.abs(e - 1) < 1e-16) break;
        }
        return h * Math.exp(-x + a * Math.log(x) - lgamma(a));
    }
    public static Value RF32(Value x) { return r((double) (float) d(x)); }
    public static Value RSum(Value s) { double t = 0; for(Value e : elems(s)) t += d(e); return r(t); }
    public static Value RMaxOf(Value s) { double t = Double.NEGATIVE_INFINITY; for(Value e : elems(s)) t = Math.max(t, d(e)); return r(t); }
    public static Value RMinOf(Value s) { double t = Double.POSITIVE_INFINITY; for(Value e : elems(s)) t = Math.min(t, d(e)); return r(t); }
    public static Value RDot(Value s, Value t) {
        Value[] a = elems(s), c = elems(t);
        if(a.length != c.length) throw new RuntimeException("RDot: lengths differ");
        double u = 0; for(int i = 0; i < a.length; i++) u += d(a[i]) * d(c[i]); return r(u);
    }
    public static Value Tab(Value s) {
        Value[] a = elems(s);
        for(Value x : a) x.deepNormalize();
        return new TupleValue(a);
    }
    public static Value RDist(Value s, Value t) {
        Value[] a = elems(s), c = elems(t);
        double u = 0; for(int i = 0; i < a.length; i++) { double e = d(a[i]) - d(c[i]); u += e * e; } return r(Math.sqrt(u));
    }
    public static Value RSort(Value s) {
        Value[] a = elems(s); double[] x = new double[a.length];
        for(int i = 0; i < x.length; i++) x[i] = d(a[i]);
        Arrays.sort(x);
        Value[] o = new Value[x.length];
        for(int i = 0; i < x.length; i++) o[i] = r(x[i]);
        return new TupleValue(o);
    }
    static double[][] mat(Value a) {
        Value[] r = elems(a); double[][] m = new double[r.length][];
        for(int i = 0; i < r.length; i++) { Value[] c = elems(r[i]); m[i] = new double[c.length]; for(int j = 0; j < c.length; j++) m[i][j] = d(c[j]); }
        return m;
    }
    static Value mat(double[][] m) {
        Value[] o = new Value[m.length];
        for(int i = 0; i < m.length; i++) { Value[] c = new Value[m[i].length]; for(int j = 0; j < c.length; j++) c[j] = r(m[i][j]); o[i] = new TupleValue(c); }
        return new TupleValue(o);
    }
    /** Gauss-Jordan with partial pivoting. */
    public static Value RInv(Value a) {
        double[][] m = mat(a); int n = m.length; double[][] x = new double[n][n];
        for(int i = 0; i < n; i++) x[i][i] = 1;
        for(int k = 0; k < n; k++) {
            int p = k;
            for(int i = k + 1; i < n; i++) if(Math.abs(m[i][k]) > Math.abs(m[p][k])) p = i;
            if(!(Math.abs(m[p][k]) > 0)) { for(double[] row : x) Arrays.fill(row, Double.NaN); return mat(x); }
            double[] t = m[p]; m[p] = m[k]; m[k] = t; t = x[p]; x[p] = x[k]; x[k] = t;
            double v = m[k][k];
            for(int j = 0; j < n; j++) { m[k][j] /= v; x[k][j] /= v; }
            for(int i = 0; i < n; i++) if(i != k) {
                double f = m[i][k];
                if(f != 0) for(int j = 0; j < n; j++) { m[i][j] -= f * m[k][j]; x[i][j] -= f * x[k][j]; }
            }
        }
        return mat(x);
    }
    /** By the Jacobi method. */
    public static Value RSqrtm(Value a) {
        double[][] m = mat(a); int n = m.length; double[][] v = new double[n][n];
        for(int i = 0; i < n; i++) v[i][i] = 1;
        for(int sweep = 0; sweep < 60; sweep++) {
            double off = 0;
            for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) off += m[i][j] * m[i][j];
            if(!(off > 1e-300)) break;
            for(int p = 0; p < n; p++) for(int q = p + 1; q < n; q++) {
                if(m[p][q] == 0) continue;
                double th = (m[q][q] - m[p][p]) / (2 * m[p][q]);
                double t = (th >= 0 ? 1 : -1) / (Math.abs(th) + Math.sqrt(th * th + 1)), c = 1 / Math.sqrt(t * t + 1), s = t * c;
                for(int k = 0; k < n; k++) { double x = m[k][p], y = m[k][q]; m[k][p] = c * x - s * y; m[k][q] = s * x + c * y; }
                for(int k = 0; k < n; k++) { double x = m[p][k], y = m[q][k]; m[p][k] = c * x - s * y; m[q][k] = s * x + c * y; }
                for(int k = 0; k < n; k++) { double x = v[k][p], y = v[k][q]; v[k][p] = c * x - s * y; v[k][q] = s * x + c * y; }
            }
        }
        double[][] o = new double[n][n];
        for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) for(int k = 0; k < n; k++) o[i][j] += v[i][k] * Math.sqrt(Math.max(0, m[k][k])) * v[j][k];
        return mat(o);
    }
    /** |x-y| <= abs + rel*max(|x|,|y|), missing (NaN) close to missing only, equal infinities close. */
    static boolean close(Value x, Value y) {
        boolean nx = x instanceof RealValue || x instanceof IntValue, ny = y instanceof RealValue || y instanceof IntValue;
        if(nx || ny) {
            if(!nx || !ny) return false;
            double a = d(x), b = d(y);
            if(Double.isNaN(a) || Double.isNaN(b)) return Double.isNaN(a) && Double.isNaN(b);
            if(a == b) return true;
            if(x instanceof IntValue && y instanceof IntValue) return false;
            return Math.abs(a - b) <= 1e-6 + 1e-5 * Math.max(Math.abs(a), Math.abs(b));
        }
        if(x instanceof RecordValue && y instanceof RecordValue) {
            RecordValue a = (RecordValue) x, b = (RecordValue) y;
            a.normalize(); b.normalize();
            if(!Arrays.equals(a.names, b.names)) return false;
            for(int i = 0; i < a.values.length; i++) if(!close(a.values[i], b.values[i])) return false;
            return true;
        }
        if(x instanceof BoolValue || x instanceof StringValue) return x.getKind() == y.getKind() && x.equals(y);
        if(y instanceof BoolValue || y instanceof StringValue) return false;
        Value[] a = elems(x), b = elems(y);
        if(a.length != b.length) return false;
        for(int i = 0; i < a.length; i++) if(!close(a[i], b[i])) return false;
        return true;
    }
    public static Value RClose(Value x, Value y) { return b(close(x, y)); }
    public static Value RNear(Value x, Value y, Value abs, Value rel) {
        double p = d(x), q = d(y);
        if(Double.isNaN(p) || Double.isNaN(q)) return b(Double.isNaN(p) && Double.isNaN(q));
        if(p == q) return b(true);
        if(Double.isInfinite(p) || Double.isInfinite(q)) return b(false);
        return b(Math.abs(p - q) <= d(abs) + d(rel) * Math.max(Math.abs(p), Math.abs(q)));
    }

    /** Total(e): e, or FALSE where e has no value (an index outside a sequence, a field that is not there). */
    @Evaluation(definition = "Total", module = "RealNum", minLevel = 0, warn = false, silent = true)
    public static Value Total(final Tool tool, final ExprOrOpArgNode[] args, final Context c, final TLCState s0, final TLCState s1, final int control, final CostModel cm) {
        try { return tool.eval(args[0], c, s0, s1, control, cm); }
        catch(StackOverflowError | OutOfMemoryError e) { throw e; }
        catch(Throwable e) {
            if(System.getProperty("gridpp.total.debug") != null) {
                String m = String.valueOf(e.getMessage());
                System.out.println("TOTAL " + m.replace('\n', ' ').substring(0, Math.min(600, m.length())));
            }
            return BoolValue.ValFalse;
        }
    }

    // ---- traces -------------------------------------------------------------
    /** A file of JSON lines as a sequence; a number with a point or an exponent, or nan/inf, is a real. */
    public static Value ReadTraces(Value file) throws Exception {
        List<Value> out = new ArrayList<>();
        for(String line : Files.readAllLines(Paths.get(((StringValue) file).val.toString()), StandardCharsets.UTF_8)) {
            if(line.trim().isEmpty()) continue;
            P p = new P(line);
            out.add(p.value());
        }
        return new TupleValue(out.toArray(new Value[0]));
    }
    static final class P {
        final String s; int i = 0;
        P(String s) { this.s = s; }
        void ws() { while(i < s.length() && s.charAt(i) <= ' ') i++; }
        Value value() {
            ws();
            char c = s.charAt(i);
            if(c == '[') {
                i++; ArrayList<Value> l = new ArrayList<>();
                ws();
                if(s.charAt(i) == ']') { i++; return new TupleValue(new Value[0]); }
                while(true) {
                    l.add(value()); ws();
                    char e = s.charAt(i++);
                    if(e == ']') break;
                    if(e != ',') throw new RuntimeException("JSON: , expected at " + i);
                }
                return new TupleValue(l.toArray(new Value[0]));
            }
            if(c == '{') {
                i++; ArrayList<UniqueString> k = new ArrayList<>(); ArrayList<Value> l = new ArrayList<>();
                ws();
                if(s.charAt(i) == '}') { i++; return new RecordValue(new UniqueString[0], new Value[0], true); }
                while(true) {
                    ws(); String key = str(); ws();
                    if(s.charAt(i++) != ':') throw new RuntimeException("JSON: : expected at " + i);
                    k.add(UniqueString.uniqueStringOf(key)); l.add(value()); ws();
                    char e = s.charAt(i++);
                    if(e == '}') break;
                    if(e != ',') throw new RuntimeException("JSON: , expected at " + i);
                }
                return new RecordValue(k.toArray(new UniqueString[0]), l.toArray(new Value[0]), false);
            }
            if(c == '"') {
                String t = str();
                if(t.equals("nan")) return r(Double.NaN);
                if(t.equals("inf")) return r(Double.POSITIVE_INFINITY);
                if(t.equals("-inf")) return r(Double.NEGATIVE_INFINITY);
                return new StringValue(t);
            }
            if(s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
            if(s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
            if(s.startsWith("null", i)) { i += 4; return new StringValue("null"); }
            int j = i; boolean real = false;
            while(j < s.length()) {
                char e = s.charAt(j);
                if(e == '.' || e == 'e' || e == 'E') real = true;
                else if(!((e >= '0' && e <= '9') || e == '-' || e == '+')) break;
                j++;
            }
            String t = s.substring(i, j); i = j;
            if(real) return r(Double.parseDouble(t));
            return IntValue.gen(Integer.parseInt(t));
        }
        String str() {
            StringBuilder b = new StringBuilder();
            if(s.charAt(i) != '"') throw new RuntimeException("JSON: string expected at " + i);
            i++;
            while(s.charAt(i) != '"') {
                char c = s.charAt(i++);
                if(c == '\\') {
                    char e = s.charAt(i++);
                    if(e == 'n') b.append('\n'); else if(e == 't') b.append('\t');
                    else if(e == 'u') { b.append((char) Integer.parseInt(s.substring(i, i + 4), 16)); i += 4; }
                    else b.append(e);
                } else b.append(c);
            }
            i++;
            return b.toString();
        }
    }
}
