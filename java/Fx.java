import java.util.HashMap;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** Evaluation of the operators of spec/Fx.tla (TLC operator overrides).
 *  A real is an IEEE-754 double carried as <<hi32, lo32>> (two signed 32 bit ints). */
public class Fx {
  private static final ConcurrentHashMap<String, Value> CONST = new ConcurrentHashMap<>();

  static double d(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 2) throw new RuntimeException("Fx: not a real: " + v);
    long hi = ((IntValue) t.elems[0]).val;
    long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
    return Double.longBitsToDouble((hi << 32) | lo);
  }
  static Value v(double x) {
    long b = Double.doubleToLongBits(x);
    return new TupleValue(IntValue.gen((int) (b >> 32)), IntValue.gen((int) b));
  }
  static double[] a(Value v) {
    TupleValue t = (v instanceof TupleValue) ? (TupleValue) v : (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Fx: not a vector: " + v);
    double[] r = new double[t.elems.length];
    for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
    return r;
  }
  static Value va(double[] x) {
    Value[] r = new Value[x.length];
    for (int i = 0; i < r.length; i++) r[i] = v(x[i]);
    return new TupleValue(r);
  }
  static int n(Value v) { return ((IntValue) v).val; }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static void same(double[] x, double[] y) {
    if (x.length != y.length) throw new RuntimeException("Fx: vector lengths differ: " + x.length + " " + y.length);
  }

  public static Value F(Value s) {
    String k = ((StringValue) s).val.toString();
    Value r = CONST.get(k);
    if (r == null) { r = v(Double.parseDouble(k)); CONST.put(k, r); }
    return r;
  }
  public static Value FI(Value i) { return v(n(i)); }
  public static Value FStr(Value x) { return new StringValue(Double.toString(d(x))); }
  public static Value FAdd(Value x, Value y) { return v(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return v(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return v(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return v(d(x) / d(y)); }
  public static Value FNeg(Value x) { return v(-d(x)); }
  public static Value FAbs(Value x) { return v(Math.abs(d(x))); }
  public static Value FExp(Value x) { return v(Math.exp(d(x))); }
  public static Value FLog(Value x) { return v(Math.log(d(x))); }
  public static Value FSqrt(Value x) { return v(Math.sqrt(d(x))); }
  public static Value FPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }
  public static Value FMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }
  public static Value FMin(Value x, Value y) { return v(Math.min(d(x), d(y))); }
  public static Value FFloor(Value x) { return v(Math.floor(d(x))); }
  public static Value FToInt(Value x) { return IntValue.gen((int) d(x)); }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FFinite(Value x) { double q = d(x); return b(!Double.isNaN(q) && !Double.isInfinite(q)); }
  static boolean close(double x, double y, double rt, double at) {
    if (x == y) return true;
    if (Double.isNaN(x) && Double.isNaN(y)) return true;
    if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return false;
    return Math.abs(x - y) <= at + rt * Math.max(Math.abs(x), Math.abs(y));
  }
  public static Value FClose(Value x, Value y, Value rt, Value at) { return b(close(d(x), d(y), d(rt), d(at))); }

  public static Value V(Value f) {
    TupleValue t = (TupleValue) f.toTuple();
    if (t == null) throw new RuntimeException("Fx.V: not a sequence");
    t.deepNormalize();
    return t;
  }
  public static Value VConst(Value n, Value x) {
    Value[] r = new Value[n(n)];
    for (int i = 0; i < r.length; i++) r[i] = x;
    return new TupleValue(r);
  }
  public static Value VAdd(Value x, Value y) { double[] p = a(x), q = a(y); same(p, q); for (int i = 0; i < p.length; i++) p[i] += q[i]; return va(p); }
  public static Value VSub(Value x, Value y) { double[] p = a(x), q = a(y); same(p, q); for (int i = 0; i < p.length; i++) p[i] -= q[i]; return va(p); }
  public static Value VMul(Value x, Value y) { double[] p = a(x), q = a(y); same(p, q); for (int i = 0; i < p.length; i++) p[i] *= q[i]; return va(p); }
  public static Value VDiv(Value x, Value y) { double[] p = a(x), q = a(y); same(p, q); for (int i = 0; i < p.length; i++) p[i] /= q[i]; return va(p); }
  public static Value VScale(Value s, Value y) { double[] q = a(y); double k = d(s); for (int i = 0; i < q.length; i++) q[i] *= k; return va(q); }
  public static Value VSort(Value x) { double[] r = a(x).clone(); java.util.Arrays.sort(r); return va(r); }
  public static Value VSum(Value x) { double s = 0; for (double q : a(x)) s += q; return v(s); }
  public static Value VMean(Value x) { double s = 0; double[] p = a(x); for (double q : p) s += q; return v(s / p.length); }
  public static Value VMaxAbs(Value x) { double s = 0; for (double q : a(x)) s = Math.max(s, Math.abs(q)); return v(s); }
  public static Value VDot(Value x, Value y) { double[] p = a(x), q = a(y); same(p, q); double s = 0; for (int i = 0; i < p.length; i++) s += p[i] * q[i]; return v(s); }
  /** sum_{j=lo..hi} x[j] * y[k-j], 1-based */
  public static Value VConv(Value x, Value y, Value lo, Value hi, Value k) {
    Value[] p = ((TupleValue) x.toTuple()).elems, q = ((TupleValue) y.toTuple()).elems;
    double s = 0; int kk = n(k);
    for (int j = n(lo); j <= n(hi); j++) s += d(p[j - 1]) * d(q[kk - j - 1]);
    return v(s);
  }
  /** sum over the range of a function (any domain) */
  public static Value FSum(Value f) {
    double s = 0;
    if (f instanceof RecordValue) { for (Value q : ((RecordValue) f).values) s += d(q); return v(s); }
    FcnRcdValue r = (FcnRcdValue) f.toFcnRcd();
    if (r == null) throw new RuntimeException("Fx.FSum: not a function: " + f);
    for (Value q : r.values) s += d(q);
    return v(s);
  }
  public static Value VCumsum(Value x) { double[] p = a(x); for (int i = 1; i < p.length; i++) p[i] += p[i - 1]; return va(p); }
  /** index (1-based) of the first position where x and y differ, 0 if none, -1 if the lengths differ */
  public static Value VDiffer(Value x, Value y, Value rt, Value at) {
    double[] p = a(x), q = a(y);
    if (p.length != q.length) return IntValue.gen(-1);
    double r = d(rt), t = d(at);
    for (int i = 0; i < p.length; i++) if (!close(p[i], q[i], r, t)) return IntValue.gen(i + 1);
    return IntValue.gen(0);
  }
  /** solve the tridiagonal system  lo[i-1] t[i-1] + di[i] t[i] + up[i+1] t[i+1] = r[i]
   *  (lo, di, up, r of equal length; lo[last] and up[first] unused) */
  public static Value VTri(Value lo, Value di, Value up, Value rhs) {
    double[] a = a(lo), b = a(di), c = a(up), r = a(rhs);
    int m = b.length;
    for (int i = 1; i < m; i++) {
      double w = a[i - 1] / b[i - 1];
      b[i] -= w * c[i];
      r[i] -= w * r[i - 1];
    }
    double[] t = new double[m];
    t[m - 1] = r[m - 1] / b[m - 1];
    for (int i = m - 2; i >= 0; i--) t[i] = (r[i] - c[i + 1] * t[i + 1]) / b[i];
    return va(t);
  }
  /** number of equal leading elements of two sequences (elements: reals or anything) */
  public static Value VCommon(Value x, Value y) {
    Value[] p = ((TupleValue) x.toTuple()).elems, q = ((TupleValue) y.toTuple()).elems;
    int m = Math.min(p.length, q.length), i = 0;
    while (i < m && equal(p[i], q[i])) i++;
    return IntValue.gen(i);
  }
  static boolean isReal(Value v) {
    return v instanceof TupleValue && ((TupleValue) v).elems.length == 2
        && ((TupleValue) v).elems[0] instanceof IntValue && ((TupleValue) v).elems[1] instanceof IntValue;
  }
  static boolean equal(Value p, Value q) {
    if (isReal(p) && isReal(q)) { double a = d(p), b = d(q); return a == b || (Double.isNaN(a) && Double.isNaN(b)); }
    return p.equals(q);
  }
  /** as VDiffer for the first m elements; -1 if one is shorter than m */
  public static Value VDifferIn(Value x, Value y, Value m, Value rt, Value at) {
    Value[] p = ((TupleValue) x.toTuple()).elems, q = ((TupleValue) y.toTuple()).elems;
    int mm = n(m);
    if (p.length < mm || q.length < mm) return IntValue.gen(-1);
    double r = d(rt), t = d(at);
    for (int i = 0; i < mm; i++) if (!close(d(p[i]), d(q[i]), r, t)) return IntValue.gen(i + 1);
    return IntValue.gen(0);
  }
}
