// TLC module override for specs/Dec.tla: decimal arithmetic on arbitrary-precision
// numbers.  A number is a decimal string ("0.1", "1e-7", "nan", "inf", "-inf"),
// a TLC integer, or the result of another Dec operator.  Everything is total:
// nan propagates, comparisons with nan are FALSE.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.*;

public final class Dec {
  static final MathContext MC = new MathContext(50, RoundingMode.HALF_EVEN);
  // kind: 0 finite, 1 nan, 2 +inf, 3 -inf
  static final class D extends UserObj {
    final int k; final BigDecimal v;
    D(BigDecimal v) { this.k = 0; this.v = v; }
    D(int k) { this.k = k; this.v = null; }
    public int compareTo(Value other) {
      D o = d(other);
      if (k != 0 || o.k != 0) return Integer.compare(k, o.k);
      return v.compareTo(o.v);
    }
    public boolean member(Value v) { return false; }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append(str()); }
    String str() {
      if (k == 1) return "nan"; if (k == 2) return "inf"; if (k == 3) return "-inf";
      return v.round(new MathContext(20)).toString();
    }
  }
  static final D NAN = new D(1), PINF = new D(2), NINF = new D(3);
  static D d(Value a) {
    if (a instanceof UserValue) return (D) ((UserValue) a).userObj;
    if (a instanceof IntValue) return new D(BigDecimal.valueOf(((IntValue) a).val));
    if (a instanceof StringValue) return parse(((StringValue) a).val.toString());
    throw new RuntimeException("Dec: not a number: " + a);
  }
  static D parse(String s) {
    s = s.trim();
    switch (s) {
      case "nan": case "NaN": case "-nan": return NAN;
      case "inf": case "Infinity": return PINF;
      case "-inf": case "-Infinity": return NINF;
    }
    try { return new D(new BigDecimal(s)); }
    catch (NumberFormatException e) { throw new RuntimeException("Dec: cannot read \"" + s + "\""); }
  }
  static Value V(D x) { return new UserValue(x); }
  static Value V(BigDecimal x) { return new UserValue(new D(x)); }
  static Value B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static double dbl(D x) { return x.k == 1 ? Double.NaN : x.k == 2 ? Double.POSITIVE_INFINITY : x.k == 3 ? Double.NEGATIVE_INFINITY : x.v.doubleValue(); }
  static D fromDbl(double r) {
    if (Double.isNaN(r)) return NAN;
    if (Double.isInfinite(r)) return r > 0 ? PINF : NINF;
    return new D(new BigDecimal(r));
  }
  static boolean fin(D a, D b) { return a.k == 0 && b.k == 0; }

  public static Value DNum(Value a) { return V(d(a)); }
  public static Value DAdd(Value a, Value b) { D x = d(a), y = d(b); return fin(x, y) ? V(x.v.add(y.v, MC)) : V(fromDbl(sg(x) + sg(y))); }
  public static Value DSub(Value a, Value b) { D x = d(a), y = d(b); return fin(x, y) ? V(x.v.subtract(y.v, MC)) : V(fromDbl(sg(x) - sg(y))); }
  public static Value DMul(Value a, Value b) { D x = d(a), y = d(b); return fin(x, y) ? V(x.v.multiply(y.v, MC)) : V(fromDbl(sg(x) * sg(y))); }
  // sign-magnitude stand-in used only when one side is not finite
  static double sg(D x) { return x.k == 0 ? x.v.signum() : dbl(x); }
  public static Value DDiv(Value a, Value b) {
    D x = d(a), y = d(b);
    if (fin(x, y)) {
      if (y.v.signum() == 0) return V(NAN);
      return V(x.v.divide(y.v, MC));
    }
    return V(fromDbl(sg(x) / sg(y)));
  }
  public static Value DNeg(Value a) { D x = d(a); return x.k == 0 ? V(x.v.negate()) : V(x.k == 2 ? NINF : x.k == 3 ? PINF : NAN); }
  public static Value DAbs(Value a) { D x = d(a); return x.k == 0 ? V(x.v.abs()) : V(x.k == 1 ? NAN : PINF); }
  public static Value DSqrt(Value a) {
    D x = d(a);
    if (x.k == 0) { if (x.v.signum() < 0) return V(NAN); if (x.v.signum() == 0) return V(BigDecimal.ZERO); return V(x.v.sqrt(MC)); }
    return V(x.k == 2 ? PINF : NAN);
  }
  public static Value DPowI(Value a, Value n) {
    D x = d(a); int e = ((IntValue) n).val;
    if (x.k != 0) return V(e == 0 ? new D(BigDecimal.ONE) : NAN);
    if (e < 0) { if (x.v.signum() == 0) return V(NAN); return V(BigDecimal.ONE.divide(x.v.pow(-e, MC), MC)); }
    return V(x.v.pow(e, MC));
  }
  public static Value DLt(Value a, Value b) { D x = d(a), y = d(b); return B(fin(x, y) ? x.v.compareTo(y.v) < 0 : dbl2(x) < dbl2(y)); }
  public static Value DLe(Value a, Value b) { D x = d(a), y = d(b); return B(fin(x, y) ? x.v.compareTo(y.v) <= 0 : dbl2(x) <= dbl2(y)); }
  public static Value DEq(Value a, Value b) { D x = d(a), y = d(b); return B(fin(x, y) ? x.v.compareTo(y.v) == 0 : dbl2(x) == dbl2(y)); }
  static double dbl2(D x) { return x.k == 0 ? x.v.signum() : dbl(x); }
  public static Value DIsNan(Value a) { return B(d(a).k == 1); }
  public static Value DIsFin(Value a) { return B(d(a).k == 0); }
  public static Value DFloor(Value a) { // to a TLC integer; saturates
    D x = d(a); if (x.k != 0) return IntValue.gen(Integer.MIN_VALUE);
    BigInteger i = x.v.setScale(0, RoundingMode.FLOOR).toBigInteger();
    return IntValue.gen(i.bitLength() < 31 ? i.intValue() : (i.signum() < 0 ? Integer.MIN_VALUE : Integer.MAX_VALUE));
  }
  public static Value DStr(Value a) { return new StringValue(d(a).str()); }

  // ---- elementary functions (series on BigDecimal, ~40 digits)
  static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459230781640628620899");
  public static Value DPi() { return V(PI); }
  static BigDecimal[] sincos(BigDecimal a) {
    BigDecimal tp = PI.multiply(BigDecimal.valueOf(2));
    MathContext wide = new MathContext(75);
    BigDecimal q = a.divide(tp, wide).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal r = a.subtract(q.multiply(tp), wide);       // |r| <= pi
    r = r.divide(BigDecimal.valueOf(8), wide);             // |r| < 0.4
    BigDecimal r2 = r.multiply(r, wide), s = r, c = BigDecimal.ONE, ts = r, tc = BigDecimal.ONE;
    for (int n = 1; n < 26; n++) {
      tc = tc.multiply(r2, wide).divide(BigDecimal.valueOf((long) (2*n-1)*(2*n)), wide).negate();
      ts = ts.multiply(r2, wide).divide(BigDecimal.valueOf((long) (2*n)*(2*n+1)), wide).negate();
      c = c.add(tc, wide); s = s.add(ts, wide);
    }
    for (int i = 0; i < 3; i++) {
      BigDecimal s2 = s.multiply(c, wide).multiply(BigDecimal.valueOf(2), wide);
      BigDecimal c2 = c.multiply(c, wide).subtract(s.multiply(s, wide), wide);
      s = s2; c = c2;
    }
    return new BigDecimal[]{s.round(MC), c.round(MC)};
  }
  public static Value DSin(Value a) { D x = d(a); return x.k != 0 ? V(NAN) : V(sincos(x.v)[0]); }
  public static Value DCos(Value a) { D x = d(a); return x.k != 0 ? V(NAN) : V(sincos(x.v)[1]); }

  // ---- bulk helpers over sequences of numbers (same meaning as the TLA+ bodies)
  static Value[] elems(Value s) {
    TupleValue t = (TupleValue) s.toTuple();
    if (t == null) throw new RuntimeException("Dec: not a sequence: " + s);
    return t.elems;
  }
  public static Value DSumSeq(Value s) {
    BigDecimal acc = BigDecimal.ZERO; boolean bad = false;
    for (Value e : elems(s)) { D x = d(e); if (x.k != 0) bad = true; else acc = acc.add(x.v, MC); }
    return bad ? V(NAN) : V(acc);
  }
  public static Value DDot(Value s, Value t) {
    Value[] a = elems(s), b = elems(t);
    if (a.length != b.length) return V(NAN);
    BigDecimal acc = BigDecimal.ZERO;
    for (int i = 0; i < a.length; i++) {
      D x = d(a[i]), y = d(b[i]);
      if (!fin(x, y)) return V(NAN);
      acc = acc.add(x.v.multiply(y.v, MC), MC);
    }
    return V(acc);
  }
  public static Value DMax(Value a, Value b) { D x = d(a), y = d(b); if (x.k == 1 || y.k == 1) return V(NAN); if (fin(x,y)) return x.v.compareTo(y.v) >= 0 ? V(x) : V(y); return dbl2(x) >= dbl2(y) ? V(x) : V(y); }
  public static Value DMin(Value a, Value b) { D x = d(a), y = d(b); if (x.k == 1 || y.k == 1) return V(NAN); if (fin(x,y)) return x.v.compareTo(y.v) <= 0 ? V(x) : V(y); return dbl2(x) <= dbl2(y) ? V(x) : V(y); }
}
