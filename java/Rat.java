import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC overrides of the operators of Rat.tla: exact extended-rational arithmetic. */
public class Rat {
  static RatValue c(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof StringValue) return RatValue.parse(((StringValue) v).val.toString());
    if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
    throw new RuntimeException("not a rational: " + v);
  }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value[] seq(Value v) {
    Value t = v.toTuple();
    if (t == null) throw new RuntimeException("not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  static RatValue add(RatValue x, RatValue y) {
    if (x.fin() && y.fin()) {
      if (x.d.equals(y.d)) return RatValue.make(x.n.add(y.n), x.d);
      return RatValue.make(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    if (x.isNaN() || y.isNaN()) return RatValue.NAN;
    if (x.fin()) return y;
    if (y.fin()) return x;
    return x.n.equals(y.n) ? x : RatValue.NAN;
  }
  static RatValue neg(RatValue x) {
    if (!x.fin()) return x.isNaN() ? x : x.n.signum() > 0 ? RatValue.NINF : RatValue.PINF;
    return RatValue.make(x.n.negate(), x.d);
  }
  static RatValue mul(RatValue x, RatValue y) {
    if (x.fin() && y.fin()) return RatValue.make(x.n.multiply(y.n), x.d.multiply(y.d));
    int s = x.n.signum() * y.n.signum();
    if (x.isNaN() || y.isNaN() || s == 0) return RatValue.NAN;
    return s > 0 ? RatValue.PINF : RatValue.NINF;
  }
  static RatValue div(RatValue x, RatValue y) {
    if (!y.fin()) return x.fin() && !y.isNaN() ? RatValue.ZERO : RatValue.NAN;
    if (y.n.signum() == 0) return RatValue.NAN;
    return mul(x, RatValue.make(y.d, y.n));
  }
  static RatValue abs(RatValue x) { return x.n.signum() < 0 ? neg(x) : x; }
  static boolean le(RatValue x, RatValue y) { return !x.isNaN() && !y.isNaN() && x.compareTo(y) <= 0; }

  public static Value R(Value a) { return c(a); }
  public static Value RStr(Value a) { return new StringValue(c(a).str()); }
  public static Value RAdd(Value a, Value b) { return add(c(a), c(b)); }
  public static Value RSub(Value a, Value b) { return add(c(a), neg(c(b))); }
  public static Value RMul(Value a, Value b) { return mul(c(a), c(b)); }
  public static Value RDiv(Value a, Value b) { return div(c(a), c(b)); }
  public static Value RNeg(Value a) { return neg(c(a)); }
  public static Value RAbs(Value a) { return abs(c(a)); }
  public static Value RLe(Value a, Value b) { return b(le(c(a), c(b))); }
  public static Value RLt(Value a, Value b) {
    RatValue x = c(a), y = c(b);
    return b(le(x, y) && x.compareTo(y) != 0);
  }
  public static Value REq(Value a, Value b) { RatValue x = c(a), y = c(b); return b(le(x, y) && x.compareTo(y) == 0); }
  public static Value RFin(Value a) { return b(c(a).fin()); }
  public static Value RMin(Value a, Value b) { RatValue x = c(a), y = c(b); return x.isNaN() || y.isNaN() ? RatValue.NAN : le(x, y) ? x : y; }
  public static Value RMax(Value a, Value b) { RatValue x = c(a), y = c(b); return x.isNaN() || y.isNaN() ? RatValue.NAN : le(x, y) ? y : x; }
  public static Value RPow(Value a, Value k) {
    RatValue x = c(a); int e = ((IntValue) k).val;
    if (e == 0) return RatValue.ONE;
    if (!x.fin()) return RatValue.NAN;
    return RatValue.make(x.n.pow(e), x.d.pow(e));
  }
  public static Value RSum(Value s) {
    RatValue r = RatValue.ZERO;
    for (Value v : seq(s)) r = add(r, c(v));
    return r;
  }
  public static Value RProd(Value s) {
    RatValue r = RatValue.ONE;
    for (Value v : seq(s)) r = mul(r, c(v));
    return r;
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = seq(s), y = seq(t);
    if (x.length != y.length) throw new RuntimeException("RDot: lengths " + x.length + ", " + y.length);
    RatValue r = RatValue.ZERO;
    for (int i = 0; i < x.length; i++) r = add(r, mul(c(x[i]), c(y[i])));
    return r;
  }
  public static Value RMaxOf(Value s) {
    Value[] x = seq(s);
    Value r = RatValue.NINF;
    for (Value v : x) r = RMax(r, v);
    return r;
  }
  /** The value with every function inside it evaluated. */
  public static Value Force(Value v) {
    if (v instanceof FcnLambdaValue) {
      Value t = v.toTuple();
      v = t != null ? t : v.toFcnRcd();
    }
    Value[] e = v instanceof TupleValue ? ((TupleValue) v).elems
              : v instanceof RecordValue ? ((RecordValue) v).values
              : v instanceof FcnRcdValue ? ((FcnRcdValue) v).values : null;
    if (e != null)
      for (int i = 0; i < e.length; i++) {
        Value f = Force(e[i]);
        if (f != e[i]) e[i] = f;
      }
    return v;
  }
  /** The same with numbers as strings: what states hold, as states written to disk come back so. */
  public static Value Store(Value v) {
    v = Force(v);
    if (v instanceof RatValue) return new StringValue(((RatValue) v).str());
    if (v instanceof TupleValue) {
      Value[] e = ((TupleValue) v).elems, r = new Value[e.length];
      for (int i = 0; i < e.length; i++) r[i] = Store(e[i]);
      return new TupleValue(r);
    }
    return v;
  }
  static final int BITS = 128;
  public static Value RRnd(Value a) {
    RatValue x = c(a);
    if (!x.fin() || x.d.bitLength() <= BITS) return x;
    BigInteger[] q = x.n.shiftLeft(BITS + 1).divideAndRemainder(x.d);
    BigInteger h = q[0].add(BigInteger.valueOf(x.n.signum() < 0 ? -1 : 1)).divide(BigInteger.valueOf(2));
    return RatValue.make(h, BigInteger.ONE.shiftLeft(BITS));
  }
  public static Value RSqrt(Value a) {
    RatValue x = c(a);
    if (!x.fin() || x.n.signum() < 0) return RatValue.NAN;
    return RatValue.make(x.n.shiftLeft(2 * BITS).divide(x.d).sqrt(), BigInteger.ONE.shiftLeft(BITS));
  }
  public static Value RFloor(Value a) {
    RatValue x = c(a);
    BigInteger[] q = x.n.divideAndRemainder(x.d);
    BigInteger f = x.n.signum() < 0 && q[1].signum() != 0 ? q[0].subtract(BigInteger.ONE) : q[0];
    return IntValue.gen(f.intValueExact());
  }
  /** |a - b| <= tol * max(1, |a|, |b|); infinities only equal themselves; NaN equals nothing. */
  static boolean near(RatValue x, RatValue y, RatValue tol) {
    if (!x.fin() || !y.fin()) return !x.isNaN() && x.equals(y);
    RatValue m = RatValue.ONE, ax = abs(x), ay = abs(y);
    if (le(m, ax)) m = ax;
    if (le(m, ay)) m = ay;
    return le(abs(add(x, neg(y))), mul(tol, m));
  }
  public static Value RNear(Value a, Value b, Value tol) { return b(near(c(a), c(b), c(tol))); }
  public static Value RNearSeq(Value a, Value b, Value tol) {
    Value[] x = seq(a), y = seq(b);
    if (x.length != y.length) return b(false);
    RatValue t = c(tol);
    for (int i = 0; i < x.length; i++) if (!near(c(x[i]), c(y[i]), t)) return b(false);
    return b(true);
  }
  /** Convert a sequence of numbers. */
  public static Value RSeq(Value s) {
    Value[] x = seq(s), r = new Value[x.length];
    for (int i = 0; i < x.length; i++) r[i] = c(x[i]);
    return new TupleValue(r);
  }
  /** Short decimal rendering for messages. */
  public static Value RShow(Value a) {
    RatValue x = c(a);
    if (!x.fin()) return new StringValue(x.str());
    return new StringValue(new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), new java.math.MathContext(12)).toString());
  }
}
