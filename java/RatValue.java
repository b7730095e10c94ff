import java.io.IOException;
import java.math.BigInteger;
import tlc2.value.*;
import tlc2.value.impl.*;
import tlc2.util.FP64;

/** An extended rational: n/d with d > 0 and gcd 1; d = 0 stands for +oo (n=1), -oo (n=-1), NaN (n=0). */
public class RatValue extends Value {
  private static final long serialVersionUID = 1L;
  public final BigInteger n, d;
  static final RatValue NAN = new RatValue(BigInteger.ZERO, BigInteger.ZERO);
  static final RatValue PINF = new RatValue(BigInteger.ONE, BigInteger.ZERO);
  static final RatValue NINF = new RatValue(BigInteger.ONE.negate(), BigInteger.ZERO);
  static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE);
  static final RatValue ONE = new RatValue(BigInteger.ONE, BigInteger.ONE);

  private RatValue(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

  static RatValue make(BigInteger n, BigInteger d) {
    int s = d.signum();
    if (s == 0) return NAN;
    if (s < 0) { n = n.negate(); d = d.negate(); }
    if (d.equals(BigInteger.ONE)) return new RatValue(n, d);
    int k = d.getLowestSetBit();
    if (k == d.bitLength() - 1) {  // a power of two
      if (n.signum() == 0) return ZERO;
      int m = Math.min(k, n.getLowestSetBit());
      return m == 0 ? new RatValue(n, d) : new RatValue(n.shiftRight(m), d.shiftRight(m));
    } else {
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new RatValue(n, d);
  }
  static RatValue of(long k) { return new RatValue(BigInteger.valueOf(k), BigInteger.ONE); }
  static RatValue parse(String s) {
    if (s.equals("inf")) return PINF;
    if (s.equals("-inf")) return NINF;
    if (s.equals("nan")) return NAN;
    int i = s.indexOf('/');
    if (i < 0) return new RatValue(new BigInteger(s), BigInteger.ONE);
    return make(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
  }
  boolean fin() { return d.signum() != 0; }
  boolean isNaN() { return d.signum() == 0 && n.signum() == 0; }

  public byte getKind() { return STRINGVALUE; }
  public int compareTo(Object o) {
    RatValue b = Rat.c((Value) o);
    if (!fin() || !b.fin()) {
      double x = fin() ? 0 : isNaN() ? Double.NaN : n.signum() / 0.0;
      double y = b.fin() ? 0 : b.isNaN() ? Double.NaN : b.n.signum() / 0.0;
      return Double.compare(x, y);
    }
    return n.multiply(b.d).compareTo(b.n.multiply(d));
  }
  @Override public boolean equals(Object o) {
    if (o instanceof StringValue) return o.toString().equals("\"" + str() + "\"");
    if (!(o instanceof RatValue)) return false;
    RatValue b = (RatValue) o;
    return n.equals(b.n) && d.equals(b.d);
  }
  public boolean member(Value v) { throw new RuntimeException("RatValue is not a set"); }
  public boolean isFinite() { return true; }
  public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) throw new RuntimeException("RatValue is not a function"); return ex.value; }
  public Value takeExcept(ValueExcept[] exs) { throw new RuntimeException("RatValue is not a function"); }
  public int size() { throw new RuntimeException("RatValue has no size"); }
  public boolean mutates() { return false; }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public void write(IValueOutputStream vos) throws IOException { new StringValue(str()).write(vos); }
  // states written to disk come back with strings, so both must look alike
  public long fingerPrint(long fp) { return new StringValue(str()).fingerPrint(fp); }
  public IValue permute(IMVPerm p) { return this; }
  String str() {
    if (!fin()) return isNaN() ? "nan" : n.signum() > 0 ? "inf" : "-inf";
    return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
  }
  public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append(str()); }
}
