package tlc2.module;
import tlc2.value.impl.*;
/** IEEE-754 double arithmetic for TLC. A real is the pair <<hi, lo>> of the 32-bit halves of its bits. */
public class Real64 {
  private static double d(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
    return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
  }
  private static Value r(double x) {
    if (x == 0.0) x = 0.0; // no negative zero
    long b = Double.doubleToLongBits(x);
    return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
  }
  private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  public static Value RInt(Value a) { return r(((IntValue) a).val); }
  public static Value RLit(Value a) { return r(Double.parseDouble(((StringValue) a).val.toString())); }
  public static Value RStr(Value a) { return new StringValue(Double.toString(d(a))); }
  public static Value RAdd(Value a, Value c) { return r(d(a) + d(c)); }
  public static Value RSub(Value a, Value c) { return r(d(a) - d(c)); }
  public static Value RMul(Value a, Value c) { return r(d(a) * d(c)); }
  public static Value RDiv(Value a, Value c) { return r(d(a) / d(c)); }
  public static Value RPow(Value a, Value c) { return r(Math.pow(d(a), d(c))); }
  public static Value RSqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value RSin(Value a) { return r(Math.sin(d(a))); }
  public static Value RCos(Value a) { return r(Math.cos(d(a))); }
  public static Value RExp(Value a) { return r(Math.exp(d(a))); }
  public static Value RLog(Value a) { return r(Math.log(d(a))); }
  public static Value RAtan2(Value a, Value c) { return r(Math.atan2(d(a), d(c))); }
  public static Value RAbs(Value a) { return r(Math.abs(d(a))); }
  public static Value RNeg(Value a) { return r(-d(a)); }
  public static Value RMax(Value a, Value c) { return r(Math.max(d(a), d(c))); }
  public static Value RMin(Value a, Value c) { return r(Math.min(d(a), d(c))); }
  public static Value RLt(Value a, Value c) { return b(d(a) < d(c)); }
  public static Value RLe(Value a, Value c) { return b(d(a) <= d(c)); }
  public static Value RFinite(Value a) { double x = d(a); return b(!Double.isNaN(x) && !Double.isInfinite(x)); }
  public static Value RFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
  public static Value RToF32(Value a) { return r((double) (float) d(a)); }
  /** |a-c| <= t */
  public static Value RNear(Value a, Value c, Value t) { return b(Math.abs(d(a) - d(c)) <= d(t)); }
  private static Value[] es(Value v) { return ((TupleValue) v.toTuple()).elems; }
  public static Value RSum(Value s) { double x = 0; for (Value e : es(s)) x += d(e); return r(x); }
  public static Value RMaxAbs(Value s) { double x = 0; for (Value e : es(s)) x = Math.max(x, Math.abs(d(e))); return r(x); }
  /** every |a[i]-c[i]| <= t, and the same length; a NaN is never near */
  public static Value RAllNear(Value a, Value c, Value t) {
    Value[] x = es(a), y = es(c); double tt = d(t);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++) if (!(Math.abs(d(x[i]) - d(y[i])) <= tt)) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  /** first index (1-based) where they are not near, 0 if none */
  public static Value RFirstFar(Value a, Value c, Value t) {
    Value[] x = es(a), y = es(c); double tt = d(t);
    for (int i = 0; i < Math.min(x.length, y.length); i++) if (!(Math.abs(d(x[i]) - d(y[i])) <= tt)) return IntValue.gen(i + 1);
    return IntValue.gen(x.length == y.length ? 0 : -1);
  }
  /** largest |a[i]-c[i]| */
  public static Value RMaxDiff(Value a, Value c) {
    Value[] x = es(a), y = es(c); double m = 0;
    if (x.length != y.length) return r(Double.NaN);
    for (int i = 0; i < x.length; i++) { double q = Math.abs(d(x[i]) - d(y[i])); if (!(q <= m)) m = q; }
    return r(m);
  }
  private static double[] read(Value path) {
    try {
      byte[] raw = java.nio.file.Files.readAllBytes(java.nio.file.Paths.get(((StringValue) path).val.toString()));
      java.nio.DoubleBuffer q = java.nio.ByteBuffer.wrap(raw).order(java.nio.ByteOrder.LITTLE_ENDIAN).asDoubleBuffer();
      double[] x = new double[q.remaining()];
      q.get(x);
      return x;
    } catch (java.io.IOException e) { throw new RuntimeException("Real64: cannot read " + path); }
  }
  /** the sequence of reals in a file of little-endian doubles */
  private static final java.util.LinkedHashMap<String, Value> files = new java.util.LinkedHashMap<>(32, 0.75f, true) {
    protected boolean removeEldestEntry(java.util.Map.Entry<String, Value> e) { return size() > 24; }
  };
  public static Value RFile(Value path) {
    String key = ((StringValue) path).val.toString();
    synchronized (files) {
      Value w = files.get(key);
      if (w == null) { w = load(path); files.put(key, w); }
      return w;
    }
  }
  private static Value load(Value path) {
    double[] x = read(path); Value[] v = new Value[x.length];
    for (int i = 0; i < x.length; i++) v[i] = r(x[i]);
    return new TupleValue(v);
  }
  /** the same, as integers; a value that is no 31-bit integer becomes -2147483647 */
  public static Value IFile(Value path) {
    double[] x = read(path); Value[] v = new Value[x.length];
    for (int i = 0; i < x.length; i++)
      v[i] = IntValue.gen(x[i] == Math.rint(x[i]) && Math.abs(x[i]) < 2e9 ? (int) x[i] : -2147483647);
    return new TupleValue(v);
  }
  /** nearest integer */
  public static Value RRint(Value a) { return IntValue.gen((int) Math.rint(d(a))); }
  public static Value RIsInt(Value a) { return b(d(a) == Math.rint(d(a))); }
  /** discrete Fourier transform of a complex lattice of n*n*m sites (x fastest, real and imaginary parts alternating):
      the sum of c[x] exp(i s 2 pi k.x/N), s = +1 or -1, without normalisation */
  public static Value RDFT(Value c, Value vn, Value vm, Value vs) {
    Value[] in = es(c);
    int n = ((IntValue) vn).val, m = ((IntValue) vm).val, s = ((IntValue) vs).val;
    if (in.length != 2*n*n*m) throw new RuntimeException("RDFT: " + in.length + " numbers for " + n + "*" + n + "*" + m + " sites");
    double[] a = new double[in.length], o = new double[in.length];
    for (int i = 0; i < in.length; i++) a[i] = d(in[i]);
    int[] len = {n, n, m}, str = {1, n, n*n};
    for (int ax = 0; ax < 3; ax++) {
      int L = len[ax], S = str[ax];
      double[] co = new double[L], si = new double[L];
      for (int i = 0; i < L; i++) { co[i] = Math.cos(2*Math.PI*i/L); si[i] = s*Math.sin(2*Math.PI*i/L); }
      for (int b = 0; b < n*n*m; b++) {
        if ((b/S) % L != 0) continue;
        for (int k = 0; k < L; k++) {
          double re = 0, im = 0;
          for (int x = 0; x < L; x++) {
            int t = (int) ((long) k*x % L), j = 2*(b + x*S);
            re += a[j]*co[t] - a[j+1]*si[t];
            im += a[j]*si[t] + a[j+1]*co[t];
          }
          o[2*(b + k*S)] = re; o[2*(b + k*S) + 1] = im;
        }
      }
      double[] w = a; a = o; o = w;
    }
    Value[] v = new Value[a.length];
    for (int i = 0; i < a.length; i++) v[i] = r(a[i]);
    return new TupleValue(v);
  }
  /** the n sums of the vals[i] with idx[i] = 0, 1, ..., n-1; others are left out */
  public static Value RSumBy(Value idx, Value vals, Value vn) {
    Value[] i = es(idx), v = es(vals);
    double[] o = new double[((IntValue) vn).val];
    for (int j = 0; j < i.length; j++) { int q = ((IntValue) i[j]).val; if (q >= 0 && q < o.length) o[q] += d(v[j]); }
    Value[] w = new Value[o.length];
    for (int j = 0; j < o.length; j++) w[j] = r(o[j]);
    return new TupleValue(w);
  }
  public static Value RCumSum(Value vals) {
    Value[] v = es(vals), w = new Value[v.length];
    double t = 0;
    for (int j = 0; j < v.length; j++) { t += d(v[j]); w[j] = r(t); }
    return new TupleValue(w);
  }
  public static Value RMaxOf(Value vals) { Value[] v = es(vals); double t = Double.NEGATIVE_INFINITY; for (Value x : v) t = Math.max(t, d(x)); return r(t); }
  public static Value RMinOf(Value vals) { Value[] v = es(vals); double t = Double.POSITIVE_INFINITY; for (Value x : v) t = Math.min(t, d(x)); return r(t); }
}
