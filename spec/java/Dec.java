import java.math.BigDecimal;
import java.math.MathContext;
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;

/** TLC override of Dec.tla: decimal strings as extended reals (34 significant digits, "inf", "-inf", "nan"). */
public class Dec {
  private static final MathContext MC = MathContext.DECIMAL128;

  private static Object num(IValue v) {
    if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
    if (v instanceof StringValue) {
      String s = ((StringValue) v).val.toString();
      switch (s) {
        case "inf": return Double.POSITIVE_INFINITY;
        case "-inf": return Double.NEGATIVE_INFINITY;
        case "nan": return Double.NaN;
        default: return new BigDecimal(s);
      }
    }
    throw new RuntimeException("Dec: not a number: " + v);
  }
  private static double dbl(Object o) { return o instanceof BigDecimal ? ((BigDecimal) o).doubleValue() : (Double) o; }
  private static Value out(Object o) {
    if (o instanceof BigDecimal) {
      BigDecimal b = (BigDecimal) o;
      return new StringValue(b.signum() == 0 ? "0" : b.toString());
    }
    double d = (Double) o;
    if (Double.isNaN(d)) return new StringValue("nan");
    if (Double.isInfinite(d)) return new StringValue(d > 0 ? "inf" : "-inf");
    return out(new BigDecimal(d));
  }
  private static boolean fin(Object a) { return a instanceof BigDecimal; }
  private static Object add(Object a, Object b) {
    if (fin(a) && fin(b)) return ((BigDecimal) a).add((BigDecimal) b, MC);
    return dbl(a) + dbl(b);
  }
  private static Object neg(Object a) { return fin(a) ? ((BigDecimal) a).negate() : (Object) (-(Double) a); }
  private static Object mul(Object a, Object b) {
    if (fin(a) && fin(b)) return ((BigDecimal) a).multiply((BigDecimal) b, MC);
    return dbl(a) * dbl(b);
  }
  private static Object div(Object a, Object b) {
    if (fin(a) && fin(b) && ((BigDecimal) b).signum() != 0) return ((BigDecimal) a).divide((BigDecimal) b, MC);
    if (fin(a) && !fin(b) && !Double.isNaN(dbl(b))) return BigDecimal.ZERO;
    return dbl(a) / dbl(b);
  }
  /** -1,0,1 or 2 for unordered */
  private static int cmp(Object a, Object b) {
    if (fin(a) && fin(b)) return ((BigDecimal) a).compareTo((BigDecimal) b);
    double x = fin(a) ? 0 : dbl(a), y = fin(b) ? 0 : dbl(b);
    if (Double.isNaN(x) || Double.isNaN(y)) return 2;
    return Double.compare(x, y);
  }
  private static Object abs(Object a) { return fin(a) ? ((BigDecimal) a).abs() : (Object) Math.abs((Double) a); }
  private static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Dec: not a sequence: " + v);
    return t.elems;
  }
  private static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value DAdd(Value a, Value b) { return out(add(num(a), num(b))); }
  public static Value DSub(Value a, Value b) { return out(add(num(a), neg(num(b)))); }
  public static Value DMul(Value a, Value b) { return out(mul(num(a), num(b))); }
  public static Value DDiv(Value a, Value b) { return out(div(num(a), num(b))); }
  public static Value DNeg(Value a) { return out(neg(num(a))); }
  public static Value DAbs(Value a) { return out(abs(num(a))); }
  public static Value DLt(Value a, Value b) { return bool(cmp(num(a), num(b)) == -1); }
  public static Value DLe(Value a, Value b) { int c = cmp(num(a), num(b)); return bool(c == -1 || c == 0); }
  public static Value DEq(Value a, Value b) { return bool(cmp(num(a), num(b)) == 0); }
  public static Value DFinite(Value a) { return bool(fin(num(a))); }
  public static Value DNan(Value a) { Object o = num(a); return bool(!fin(o) && Double.isNaN((Double) o)); }
  public static Value DSqrt(Value a) {
    Object o = num(a);
    if (fin(o) && ((BigDecimal) o).signum() >= 0) return out(((BigDecimal) o).sqrt(MC));
    return out((Object) Math.sqrt(dbl(o)));
  }
  private static final MathContext MX = new MathContext(44);
  private static final BigDecimal PI2 = new BigDecimal("6.28318530717958647692528676655900576839433879875021164194989");
  /** sine (k=1) or cosine (k=0) by Taylor series after reduction to [-pi, pi] */
  private static Object trig(Object o, int k) {
    if (!(o instanceof BigDecimal)) return Double.NaN;
    BigDecimal x = (BigDecimal) o;
    BigDecimal q = x.divide(PI2, MX).setScale(0, java.math.RoundingMode.HALF_EVEN);
    x = x.subtract(q.multiply(PI2));
    BigDecimal x2 = x.multiply(x, MX), term = k == 1 ? x : BigDecimal.ONE, sum = term;
    BigDecimal eps = new BigDecimal("1e-40");
    for (int n = k + 1; n < 200 && term.abs().compareTo(eps) > 0; n += 2) {
      term = term.multiply(x2, MX).divide(BigDecimal.valueOf((long) n * (n + 1)), MX).negate();
      sum = sum.add(term, MX);
    }
    return sum.round(MC);
  }
  public static Value DSin(Value a) { return out(trig(num(a), 1)); }
  public static Value DCos(Value a) { return out(trig(num(a), 0)); }
  public static Value DSum(Value s) {
    Object r = BigDecimal.ZERO;
    for (Value v : seq(s)) r = add(r, num(v));
    return out(r);
  }
  public static Value DDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    if (x.length != y.length) throw new RuntimeException("Dec: DDot lengths differ");
    Object r = BigDecimal.ZERO;
    for (int i = 0; i < x.length; i++) r = add(r, mul(num(x[i]), num(y[i])));
    return out(r);
  }
  /** |a-b| <= tol * max(1,|a|,|b|); equal infinities are close; nan is close to nothing */
  public static Value DClose(Value a, Value b, Value tol) {
    Object x = num(a), y = num(b);
    if (!fin(x) || !fin(y)) return bool(cmp(x, y) == 0);
    BigDecimal m = BigDecimal.ONE.max(((BigDecimal) x).abs()).max(((BigDecimal) y).abs());
    BigDecimal d = ((BigDecimal) x).subtract((BigDecimal) y).abs();
    return bool(d.compareTo(((BigDecimal) num(tol)).multiply(m)) <= 0);
  }
  /** componentwise DClose of two sequences (FALSE when lengths differ) */
  public static Value DCloseSeq(Value s, Value t, Value tol) {
    Value[] x = seq(s), y = seq(t);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++)
      if (DClose(x[i], y[i], tol) == BoolValue.ValFalse) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  /** numeric equality, or both nan */
  private static boolean same(Value a, Value b) {
    Object x = num(a), y = num(b);
    int c = cmp(x, y);
    if (c == 2) return !fin(x) && !fin(y) && Double.isNaN((Double) x) && Double.isNaN((Double) y);
    return c == 0;
  }
  public static Value DSame(Value a, Value b) { return bool(same(a, b)); }
  public static Value DSameSeq(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++) if (!same(x[i], y[i])) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value DSameMat(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    if (x.length != y.length) return BoolValue.ValFalse;
    for (int i = 0; i < x.length; i++) if (DSameSeq(x[i], y[i]) == BoolValue.ValFalse) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  /** integer part of a decimal that is an integer (a bus number, a status, a count) */
  public static Value DInt(Value a) {
    Object o = num(a);
    if (!fin(o)) return IntValue.gen(-2147483647);
    return IntValue.gen(((BigDecimal) o).intValue());
  }
  public static Value DIsInt(Value a) {
    Object o = num(a);
    return bool(fin(o) && ((BigDecimal) o).remainder(BigDecimal.ONE).signum() == 0);
  }
  // complex numbers <<re, im>>
  private static Value cpx(Object re, Object im) { return new TupleValue(out(re), out(im)); }
  public static Value CAdd(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    return cpx(add(num(x[0]), num(y[0])), add(num(x[1]), num(y[1])));
  }
  public static Value CSub(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    return cpx(add(num(x[0]), neg(num(y[0]))), add(num(x[1]), neg(num(y[1]))));
  }
  public static Value CMul(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    Object p = num(x[0]), q = num(x[1]), r = num(y[0]), s = num(y[1]);
    return cpx(add(mul(p, r), neg(mul(q, s))), add(mul(p, s), mul(q, r)));
  }
  public static Value CDiv(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    Object p = num(x[0]), q = num(x[1]), r = num(y[0]), s = num(y[1]);
    Object d = add(mul(r, r), mul(s, s));
    return cpx(div(add(mul(p, r), mul(q, s)), d), div(add(mul(q, r), neg(mul(p, s))), d));
  }
  public static Value CConj(Value a) { Value[] x = seq(a); return cpx(num(x[0]), neg(num(x[1]))); }
  public static Value CSum(Value s) {
    Object re = BigDecimal.ZERO, im = BigDecimal.ZERO;
    for (Value v : seq(s)) { Value[] x = seq(v); re = add(re, num(x[0])); im = add(im, num(x[1])); }
    return cpx(re, im);
  }
}
