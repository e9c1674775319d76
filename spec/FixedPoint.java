import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Java evaluation of the operators declared in FixedPoint.tla (TLC's own
 *  integers are 32 bit, so products would overflow).  Results that do not fit
 *  are an evaluation error, never silently wrapped. */
public class FixedPoint {
  private static int fit(double d) {
    double r = Math.rint(d);
    if (!(r >= -2147483647.0 && r <= 2147483647.0)) throw new RuntimeException("FixedPoint overflow " + d);
    return (int) r;
  }
  private static double i(Value v) { return ((IntValue) v).val; }
  private static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("FixedPoint: sequence expected, got " + v);
    return ((TupleValue) t).elems;
  }
  /** round(x*y/s) */
  public static Value Mul(Value x, Value y, Value s) { return IntValue.gen(fit(i(x) * i(y) / i(s))); }
  /** round(sum f[i]*g[i] / s) */
  public static Value Dot(Value f, Value g, Value s) {
    Value[] a = seq(f), b = seq(g);
    if (a.length != b.length) throw new RuntimeException("FixedPoint: Dot of lengths " + a.length + "," + b.length);
    double t = 0;
    for (int k = 0; k < a.length; k++) t += i(a[k]) * i(b[k]);
    return IntValue.gen(fit(t / i(s)));
  }
  /** <<round(f[i]*g[i]/s)>> */
  public static Value EMul(Value f, Value g, Value s) {
    Value[] a = seq(f), b = seq(g), r = new Value[a.length];
    for (int k = 0; k < a.length; k++) r[k] = IntValue.gen(fit(i(a[k]) * i(b[k]) / i(s)));
    return new TupleValue(r);
  }
  /** sum of a sequence */
  public static Value SumSeq(Value f) {
    double t = 0;
    for (Value v : seq(f)) t += i(v);
    return IntValue.gen(fit(t));
  }
}
