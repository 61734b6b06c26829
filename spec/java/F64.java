import tlc2.value.impl.*;

/** TLC module override: IEEE double arithmetic on numbers held as strings (see F64.tla). */
public class F64 {
  private static double d(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).val.toString();
    if (s.equals("nan") || s.equals("-nan")) return Double.NaN;
    if (s.equals("inf")) return Double.POSITIVE_INFINITY;
    if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
    return Double.parseDouble(s);
  }
  private static Value s(double x) {
    if (Double.isNaN(x)) return new StringValue("nan");
    if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
    return new StringValue(Double.toString(x));
  }
  private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value F(Value i) { return s(d(i)); }
  public static Value Q(Value p, Value q) { return s(d(p) / d(q)); }
  public static Value FAdd(Value x, Value y) { return s(d(x) + d(y)); }
  public static Value FSub(Value x, Value y) { return s(d(x) - d(y)); }
  public static Value FMul(Value x, Value y) { return s(d(x) * d(y)); }
  public static Value FDiv(Value x, Value y) { return s(d(x) / d(y)); }
  public static Value FPow(Value x, Value y) { return s(Math.pow(d(x), d(y))); }
  public static Value FNeg(Value x) { return s(-d(x)); }
  public static Value FAbs(Value x) { return s(Math.abs(d(x))); }
  public static Value FSqrt(Value x) { return s(Math.sqrt(d(x))); }
  public static Value FExp(Value x) { return s(Math.exp(d(x))); }
  public static Value FLog(Value x) { return s(Math.log(d(x))); }
  public static Value FTanh(Value x) { return s(Math.tanh(d(x))); }
  public static Value FMin(Value x, Value y) { return s(Math.min(d(x), d(y))); }
  public static Value FMax(Value x, Value y) { return s(Math.max(d(x), d(y))); }
  public static Value FFloor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
  public static Value FLt(Value x, Value y) { return b(d(x) < d(y)); }
  public static Value FLe(Value x, Value y) { return b(d(x) <= d(y)); }
  public static Value FEq(Value x, Value y) { return b(d(x) == d(y)); }
  public static Value FFinite(Value x) { double v = d(x); return b(!Double.isNaN(v) && !Double.isInfinite(v)); }
  public static Value FNaN(Value x) { return b(Double.isNaN(d(x))); }
  private static boolean fin(double x) { return !Double.isNaN(x) && !Double.isInfinite(x); }
  public static Value FNear(Value x, Value y, Value r) {
    double p = d(x), q = d(y);
    return b(fin(p) && fin(q) && Math.abs(p - q) <= d(r) * Math.max(Math.abs(p), Math.abs(q)));
  }
  public static Value FClose(Value x, Value y, Value r) {
    double p = d(x), q = d(y);
    return b(fin(p) && fin(q) && Math.abs(p - q) <= d(r));
  }
  private static Value[] seq(Value v) { return ((TupleValue) v.toTuple()).elems; }
  public static Value FSum(Value v) {
    double t = 0;
    for (Value e : seq(v)) t += d(e);
    return s(t);
  }
  public static Value FDot(Value v, Value w) {
    double t = 0;
    Value[] a = seq(v), c = seq(w);
    for (int i = 0; i < a.length; i++) t += d(a[i]) * d(c[i]);
    return s(t);
  }
  public static Value FUlp32(Value x) { return s(Math.ulp((float) d(x))); }
  public static Value FSingle(Value x) { return s((double) (float) d(x)); }

  // ---- special functions, by quadratures of their integral representations (nothing shared with the code under test) ----
  /** K_nu(x) exp-sinh style: the trapezoidal rule on the integral of exp(-x cosh t) cosh(nu t), doubly exponentially convergent. */
  private static double kInt(double nu, double x, boolean tail) {
    // tail: the integral of K_nu from x to infinity, exp(-x cosh t) cosh(nu t) / cosh t
    if (x > 740) return 0;
    double h = 1.0 / 32, t = 0, sum = 0;
    for (int i = 0; i < 4000; i++, t += h) {
      double c = Math.cosh(t), e = Math.exp(-x * c) * Math.cosh(nu * t);
      if (tail) e /= c;
      sum += i == 0 ? e / 2 : e;
      if (e < 1e-18 * sum && x * c > 1) break;
      if (sum == 0) break;
    }
    return sum * h;
  }
  private interface Fn { double at(double f, double g); }  // f, and g = 1 - f, both accurate
  /** tanh-sinh quadrature of fn over [0, F], F <= 1. */
  private static double ts(Fn fn, double F) {
    double h = 1.0 / 64, sum = 0;
    for (int i = -320; i <= 320; i++) {
      double t = i * h, u = Math.PI / 2 * Math.sinh(t);
      double lo = 1 / (1 + Math.exp(-2 * u));           // in (0,1)
      double hi = 1 / (1 + Math.exp(2 * u));
      double w = Math.PI * Math.cosh(t) * lo * hi;
      if (w == 0 || Double.isNaN(w)) continue;
      double f = F * lo, g = F == 1 ? hi : 1 - f;
      if (f <= 0 || g <= 0) continue;
      double v = fn.at(f, g);
      if (v == 0 || Double.isNaN(v) || Double.isInfinite(v)) continue;
      sum += w * v;
    }
    return sum * h * F;
  }
  private static double bw(double chi, double F) {
    return chi * ts((f, g) -> {
      double u = 2 / (3 * chi * f * g);
      return kInt(1.0 / 3, u, true) - (2 - 1.5 * chi * u) * kInt(2.0 / 3, u, false);
    }, F) / (Math.PI * Math.sqrt(3));
  }
  private static double qs(double chi, double F) {
    return ts((f, g) -> {
      double y = 2 * f / (3 * chi * g);
      return kInt(5.0 / 3, y, true) + 1.5 * chi * f * y * kInt(2.0 / 3, y, false);
    }, F) / (Math.PI * Math.sqrt(3));
  }
  private static final java.util.concurrent.ConcurrentHashMap<String, Double> memo = new java.util.concurrent.ConcurrentHashMap<>();
  private static double mem(String k, double chi, double F) {
    return memo.computeIfAbsent(k + chi + "," + F, z -> k.equals("b") ? bw(chi, F) : qs(chi, F));
  }
  /** sum of the probabilities up to k, relative to the sum of all: only the ratios to the most likely number are needed */
  public static Value PoisCdf(Value k, Value m) {
    double lam = d(m), in = 0, out = 0, p = 1;
    long n = (long) d(k), top = (long) lam;
    for (long i = top; p > 1e-30; p *= lam / ++i)
      if (i <= n) in += p; else out += p;
    p = top / Math.max(lam, 1e-300);
    for (long i = top - 1; i >= 0 && p > 1e-30; p *= i-- / lam)
      if (i <= n) in += p; else out += p;
    return s(in / (in + out));
  }
  public static Value KNu(Value nu, Value x) { return s(kInt(d(nu), d(x), false)); }
  public static Value BWT(Value chi) { return s(mem("b", d(chi), 1)); }
  public static Value QSK(Value chi) { return s(mem("q", d(chi), 1)); }
  public static Value BWCum(Value chi, Value f) { return s(mem("b", d(chi), d(f)) / mem("b", d(chi), 1)); }
  public static Value QSCum(Value chi, Value f) { return s(mem("q", d(chi), d(f)) / mem("q", d(chi), 1)); }
  public static void main(String[] a) {
    for (double c : new double[] {0.02, 0.05, 0.1, 0.3, 1, 10, 100, 500, 1000, 10000})
      System.out.println(c + " T " + bw(c, 1) + " K " + qs(c, 1) + " cum " + bw(c, .5) / bw(c, 1) + " " + qs(c, .5) / qs(c, 1) + " k13 " + kInt(1. / 3, c, false));
  }
}
