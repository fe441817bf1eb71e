import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import tlc2.tool.FingerprintException;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.*;
import util.Assert;

/** An exact rational number (or the undefined number NaN) as a TLC value. */
public final class RatValue extends Value {
  static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE);
  static final RatValue ONE = new RatValue(BigInteger.ONE, BigInteger.ONE);
  static final RatValue NAN = new RatValue(null, null);
  final BigInteger num, den; // lowest terms, den > 0; both null for NaN

  private RatValue(BigInteger n, BigInteger d) { num = n; den = d; }

  static boolean pow2(BigInteger d) { return d.bitLength() - 1 == d.getLowestSetBit(); }

  static RatValue of(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return NAN;
    if (n.signum() == 0) return ZERO;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (pow2(d)) {
      int s = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
      if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
    } else {
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    }
    return new RatValue(n, d);
  }
  static RatValue of(long n) { return of(BigInteger.valueOf(n), BigInteger.ONE); }
  static RatValue of(double x) {
    if (Double.isNaN(x) || Double.isInfinite(x)) return NAN;
    return of(new BigDecimal(x));
  }
  static RatValue of(BigDecimal x) {
    BigInteger u = x.unscaledValue();
    int s = x.scale();
    return s >= 0 ? of(u, BigInteger.TEN.pow(s)) : of(u.multiply(BigInteger.TEN.pow(-s)), BigInteger.ONE);
  }
  boolean nan() { return num == null; }
  RatValue add(RatValue o) {
    if (nan() || o.nan()) return NAN;
    if (num.signum() == 0) return o;
    if (o.num.signum() == 0) return this;
    if (den.equals(o.den)) return of(num.add(o.num), den);
    if (pow2(den) && pow2(o.den)) {
      int a = den.getLowestSetBit(), b = o.den.getLowestSetBit();
      return a > b ? of(num.add(o.num.shiftLeft(a - b)), den) : of(num.shiftLeft(b - a).add(o.num), o.den);
    }
    return of(num.multiply(o.den).add(o.num.multiply(den)), den.multiply(o.den));
  }
  RatValue neg() { return nan() ? NAN : new RatValue(num.negate(), den); }
  RatValue sub(RatValue o) { return add(o.neg()); }
  RatValue mul(RatValue o) {
    if (nan() || o.nan()) return NAN;
    if (num.signum() == 0 || o.num.signum() == 0) return ZERO;
    return of(num.multiply(o.num), den.multiply(o.den));
  }
  RatValue div(RatValue o) {
    if (nan() || o.nan() || o.num.signum() == 0) return NAN;
    return of(num.multiply(o.den), den.multiply(o.num));
  }
  RatValue abs() { return nan() ? NAN : num.signum() < 0 ? neg() : this; }
  int cmp(RatValue o) { // not for NaN
    return den.equals(o.den) ? num.compareTo(o.num) : num.multiply(o.den).compareTo(o.num.multiply(den));
  }
  BigInteger floor() {
    BigInteger[] qr = num.divideAndRemainder(den);
    return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
  }
  BigDecimal dec(MathContext mc) { return new BigDecimal(num).divide(new BigDecimal(den), mc); }
  /** nearest number with the given number of significant bits (a power-of-two denominator). */
  RatValue round(int bits) {
    if (nan() || num.signum() == 0) return this;
    int e = num.bitLength() - den.bitLength(); // |x| ~ 2^e
    int s = bits - e;
    BigInteger n = s >= 0 ? num.shiftLeft(s) : num, d = s >= 0 ? den : den.shiftLeft(-s);
    BigInteger q = n.shiftLeft(1).add(d).divide(d.shiftLeft(1));
    return s >= 0 ? of(q, BigInteger.ONE.shiftLeft(s)) : of(q.shiftLeft(-s), BigInteger.ONE);
  }
  double dbl() { return nan() ? Double.NaN : dec(new MathContext(20)).doubleValue(); }

  @Override public byte getKind() { return MODELVALUE; }
  @Override public String getKindString() { return "a rational"; }
  @Override public int compareTo(Object o) {
    if (o instanceof RatValue) {
      RatValue r = (RatValue) o;
      if (nan() || r.nan()) return nan() ? (r.nan() ? 0 : -1) : 1;
      return cmp(r);
    }
    if (o instanceof IntValue) return nan() ? -1 : cmp(of(((IntValue) o).val));
    if (o instanceof ModelValue) return ((ModelValue) o).modelValueCompareTo(this);
    return -1;
  }
  @Override public boolean equals(Object o) {
    if (o instanceof RatValue) {
      RatValue r = (RatValue) o;
      if (nan() || r.nan()) return nan() && r.nan();
      return num.equals(r.num) && den.equals(r.den);
    }
    if (o instanceof IntValue) return !nan() && equals(of(((IntValue) o).val));
    if (o instanceof ModelValue) return ((ModelValue) o).modelValueEquals(this);
    return false;
  }
  @Override public boolean member(Value v) { Assert.fail("A rational is not a set."); return false; }
  @Override public boolean isFinite() { Assert.fail("A rational is not a set."); return false; }
  @Override public int size() { Assert.fail("A rational is not a set."); return 0; }
  @Override public Value takeExcept(ValueExcept ex) { if (ex.idx < ex.path.length) Assert.fail("EXCEPT on a rational."); return ex.value; }
  @Override public Value takeExcept(ValueExcept[] ex) { if (ex.length != 0) Assert.fail("EXCEPT on a rational."); return this; }
  @Override public boolean mutates() { return false; }
  @Override public boolean isNormalized() { return true; }
  @Override public Value normalize() { return this; }
  @Override public boolean isDefined() { return true; }
  @Override public IValue deepCopy() { return this; }
  @Override public void write(IValueOutputStream vos) throws IOException {
    throw new IOException("rationals cannot be spilled to disk: run with MemStateQueue");
  }
  @Override public long fingerPrint(long fp) {
    if (nan()) return StringFP(fp, "NaN");
    if (den.equals(BigInteger.ONE) && num.bitLength() < 32) return IntValue.gen(num.intValue()).fingerPrint(fp);
    return StringFP(fp, num.toString(36) + "/" + den.toString(36));
  }
  static long StringFP(long fp, String s) {
    return tlc2.util.FP64.Extend(tlc2.util.FP64.Extend(fp, 99), s);
  }
  @Override public IValue permute(IMVPerm perm) { return this; }
  @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
    return sb.append(text());
  }
  String text() {
    if (nan()) return "NaN";
    if (den.equals(BigInteger.ONE) && num.bitLength() < 64) return num.toString();
    if (num.bitLength() + den.bitLength() < 48) return num + "/" + den;
    double d = dbl();
    return Double.toString(d);
  }
}
