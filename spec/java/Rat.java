import com.google.gson.*;
import com.google.gson.stream.JsonReader;
import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.Map.Entry;
import tlc2.value.impl.*;
import util.UniqueString;
import util.Assert;

/** Evaluation of the operators of module Rat by TLC (exact rational arithmetic). */
public class Rat {
  static RatValue r(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return RatValue.of(((IntValue) v).val);
    Assert.fail("not a number: " + v.toString());
    return null;
  }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RAdd(Value a, Value b) { return r(a).add(r(b)); }
  public static Value RSub(Value a, Value b) { return r(a).sub(r(b)); }
  public static Value RMul(Value a, Value b) { return r(a).mul(r(b)); }
  public static Value RDiv(Value a, Value b) { return r(a).div(r(b)); }
  public static Value RNeg(Value a) { return r(a).neg(); }
  public static Value RAbs(Value a) { return r(a).abs(); }
  public static Value RLt(Value a, Value b) { RatValue x = r(a), y = r(b); return b(!x.nan() && !y.nan() && x.cmp(y) < 0); }
  public static Value RLe(Value a, Value b) { RatValue x = r(a), y = r(b); return b(!x.nan() && !y.nan() && x.cmp(y) <= 0); }
  public static Value REq(Value a, Value b) { RatValue x = r(a), y = r(b); return b(!x.nan() && !y.nan() && x.cmp(y) == 0); }
  public static Value RFloor(Value a) {
    RatValue x = r(a);
    BigInteger f = x.nan() ? BigInteger.valueOf(Integer.MIN_VALUE) : x.floor();
    return f.bitLength() < 32 ? IntValue.gen(f.intValue()) : IntValue.gen(f.signum() < 0 ? Integer.MIN_VALUE : Integer.MAX_VALUE);
  }
  public static Value RIsNum(Value a) { return b(a instanceof IntValue || a instanceof RatValue && !((RatValue) a).nan()); }
  public static Value RRound(Value a, Value bits) { return r(a).round(i(bits)); }
  public static Value RStr(Value a) { RatValue x = r(a); return new StringValue(x.nan() ? "NaN" : String.format("%.9g", x.dbl())); }

  // sums and products of sequences (definitions in Rat.tla and LinAlg.tla)
  static Value[] seq(Value v) {
    if (v instanceof TupleValue) return ((TupleValue) v).elems;
    Value t = v.toTuple();
    if (t == null) Assert.fail("not a sequence: " + v.toString());
    return ((TupleValue) t).elems;
  }
  public static Value Flatten(Value ss) {
    List<Value> out = new ArrayList<>();
    for (Value s : seq(ss)) out.addAll(Arrays.asList(seq(s)));
    return new TupleValue(out.toArray(new Value[0]));
  }
  public static Value RSum(Value s) { RatValue x = RatValue.ZERO; for (Value v : seq(s)) x = x.add(r(v)); return x; }
  public static Value RSumAbs(Value s) { RatValue x = RatValue.ZERO; for (Value v : seq(s)) x = x.add(r(v).abs()); return x; }
  public static Value RDot(Value s, Value t) {
    Value[] a = seq(s), b = seq(t);
    if (a.length != b.length) Assert.fail("RDot of sequences of different lengths");
    RatValue x = RatValue.ZERO;
    for (int k = 0; k < a.length; k++) x = x.add(r(a[k]).mul(r(b[k])));
    return x;
  }
  public static Value RDotAbs(Value s, Value t) {
    Value[] a = seq(s), b = seq(t);
    if (a.length != b.length) Assert.fail("RDotAbs of sequences of different lengths");
    RatValue x = RatValue.ZERO;
    for (int k = 0; k < a.length; k++) x = x.add(r(a[k]).mul(r(b[k])).abs());
    return x;
  }

  public static Value RPow(Value a, Value n) {
    RatValue x = r(a); int k = i(n);
    if (x.nan()) return x;
    if (k < 0) return RatValue.ONE.div(RatValue.of(x.num.pow(-k), x.den.pow(-k)));
    return RatValue.of(x.num.pow(k), x.den.pow(k));
  }
  public static Value RMaxSeq(Value s) { RatValue m = null; for (Value v : seq(s)) { RatValue x = r(v); if (x.nan()) return x; if (m == null || m.cmp(x) < 0) m = x; } return m; }
  public static Value RMinSeq(Value s) { RatValue m = null; for (Value v : seq(s)) { RatValue x = r(v); if (x.nan()) return x; if (m == null || m.cmp(x) > 0) m = x; } return m; }

  // transcendental functions, correct to about the requested number of significant bits
  static MathContext mc(int bits) { return new MathContext((int) (bits * 0.30103) + 12); }
  public static Value RSqrt(Value a, Value bits) {
    RatValue x = r(a);
    if (x.nan() || x.num.signum() < 0) return RatValue.NAN;
    return RatValue.of(x.dec(mc(i(bits))).sqrt(mc(i(bits)))).round(i(bits));
  }
  static BigDecimal expDec(BigDecimal x, MathContext m) {
    // reduce to |y| < 2^-8, Taylor, square back
    int k = 0;
    BigDecimal y = x;
    while (y.abs().compareTo(new BigDecimal("0.00390625")) > 0) { y = y.divide(BigDecimal.valueOf(2)); k++; }
    MathContext w = new MathContext(m.getPrecision() + 10 + k);
    y = y.round(w);
    BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
    for (int n = 1; n < 400; n++) {
      t = t.multiply(y, w).divide(BigDecimal.valueOf(n), w);
      s = s.add(t, w);
      if (t.signum() == 0 || t.abs().compareTo(BigDecimal.ONE.movePointLeft(w.getPrecision() + 1)) < 0) break;
    }
    for (int n = 0; n < k; n++) s = s.multiply(s, w);
    return s;
  }
  public static Value RExp(Value a, Value bits) {
    RatValue x = r(a);
    if (x.nan()) return x;
    if (x.cmp(RatValue.of(-3000)) < 0) return RatValue.ZERO;
    if (x.cmp(RatValue.of(3000)) > 0) return RatValue.NAN;
    MathContext m = mc(i(bits));
    return RatValue.of(expDec(x.dec(new MathContext(m.getPrecision() + 10)), m).round(m)).round(i(bits));
  }
  static BigDecimal pi(MathContext m) { // Machin
    MathContext w = new MathContext(m.getPrecision() + 10);
    return atanInv(5, w).multiply(BigDecimal.valueOf(16)).subtract(atanInv(239, w).multiply(BigDecimal.valueOf(4))).round(m);
  }
  static BigDecimal atanInv(int q, MathContext w) {
    BigDecimal x = BigDecimal.ONE.divide(BigDecimal.valueOf(q), w), x2 = x.multiply(x, w), t = x, s = x;
    for (int n = 3; n < 4000; n += 2) {
      t = t.multiply(x2, w).negate();
      BigDecimal d = t.divide(BigDecimal.valueOf(n), w);
      s = s.add(d, w);
      if (d.abs().compareTo(BigDecimal.ONE.movePointLeft(w.getPrecision() + 2)) < 0) break;
    }
    return s;
  }
  static BigDecimal sinDec(BigDecimal x, MathContext m, boolean cos) {
    MathContext w = new MathContext(m.getPrecision() + 20 + Math.max(0, x.precision() - x.scale()));
    BigDecimal twopi = pi(w).multiply(BigDecimal.valueOf(2));
    BigDecimal n = x.divide(twopi, w).setScale(0, RoundingMode.HALF_EVEN);
    BigDecimal y = x.subtract(n.multiply(twopi), w), y2 = y.multiply(y, w).negate();
    BigDecimal t = cos ? BigDecimal.ONE : y, s = t;
    for (int k = cos ? 1 : 2; k < 400; k += 2) {
      t = t.multiply(y2, w).divide(BigDecimal.valueOf((long) k * (k + 1)), w);
      s = s.add(t, w);
      if (t.abs().compareTo(BigDecimal.ONE.movePointLeft(w.getPrecision() + 1)) < 0) break;
    }
    return s;
  }
  public static Value RSin(Value a, Value bits) {
    RatValue x = r(a); MathContext m = mc(i(bits));
    return x.nan() ? x : RatValue.of(sinDec(x.dec(new MathContext(m.getPrecision() + 30)), m, false)).round(i(bits));
  }
  public static Value RCos(Value a, Value bits) {
    RatValue x = r(a); MathContext m = mc(i(bits));
    return x.nan() ? x : RatValue.of(sinDec(x.dec(new MathContext(m.getPrecision() + 30)), m, true)).round(i(bits));
  }
  public static Value RPi(Value bits) { return RatValue.of(pi(mc(i(bits)))).round(i(bits)); }

  // input: JSON where integers are TLC integers and numbers with a fraction or exponent are the
  // exact values of the doubles they denote; strings NaN/Infinity/-Infinity are the undefined number
  public static Value RLoad(Value path) {
    String p = ((StringValue) path).val.toString();
    try (Reader in = new InputStreamReader(new FileInputStream(p), StandardCharsets.UTF_8)) {
      return conv(JsonParser.parseReader(in));
    } catch (IOException e) { Assert.fail("cannot read " + p + ": " + e); return null; }
  }
  static Value conv(JsonElement e) {
    if (e.isJsonNull()) return new StringValue("null");
    if (e.isJsonArray()) {
      JsonArray a = e.getAsJsonArray();
      Value[] vs = new Value[a.size()];
      for (int k = 0; k < vs.length; k++) vs[k] = conv(a.get(k));
      return new TupleValue(vs);
    }
    if (e.isJsonObject()) {
      List<UniqueString> ks = new ArrayList<>(); List<Value> vs = new ArrayList<>();
      for (Entry<String, JsonElement> x : e.getAsJsonObject().entrySet()) { ks.add(UniqueString.uniqueStringOf(x.getKey())); vs.add(conv(x.getValue())); }
      Value rec = new RecordValue(ks.toArray(new UniqueString[0]), vs.toArray(new Value[0]), false);
      return rec.normalize();
    }
    JsonPrimitive q = e.getAsJsonPrimitive();
    if (q.isBoolean()) return b(q.getAsBoolean());
    if (q.isString()) {
      String s = q.getAsString();
      if (s.equals("#NaN")) return RatValue.NAN;
      if (s.startsWith("#r")) { // exact rational literal "#rN/D"
        String[] nd = s.substring(2).split("/");
        return RatValue.of(new BigInteger(nd[0]), nd.length > 1 ? new BigInteger(nd[1]) : BigInteger.ONE);
      }
      return new StringValue(s);
    }
    String s = q.getAsString();
    if (s.matches("-?[0-9]{1,9}")) return IntValue.gen(Integer.parseInt(s));
    return RatValue.of(Double.parseDouble(s));
  }

  // output: one line of JSON per report, appended atomically to the file
  public static synchronized Value REmit(Value path, Value v) {
    try (Writer w = new OutputStreamWriter(new FileOutputStream(((StringValue) path).val.toString(), true), StandardCharsets.UTF_8)) {
      w.write(json(v) + "\n");
    } catch (IOException e) { Assert.fail("cannot write: " + e); }
    return BoolValue.ValTrue;
  }
  static String json(Value v) {
    if (v instanceof IntValue || v instanceof BoolValue) return v.toString().toLowerCase();
    if (v instanceof RatValue) { RatValue x = (RatValue) v; return x.nan() ? "\"#NaN\"" : "\"#r" + x.num + "/" + x.den + "\""; }
    if (v instanceof StringValue) return new JsonPrimitive(((StringValue) v).val.toString()).toString();
    if (v instanceof RecordValue) {
      RecordValue q = (RecordValue) v; StringBuilder sb = new StringBuilder("{");
      for (int k = 0; k < q.names.length; k++) sb.append(k > 0 ? "," : "").append(new JsonPrimitive(q.names[k].toString())).append(":").append(json(q.values[k]));
      return sb.append("}").toString();
    }
    if (v instanceof TupleValue) return arr(((TupleValue) v).elems);
    if (v instanceof FcnRcdValue || v instanceof FcnLambdaValue) {
      Value t = v.toTuple();
      if (t != null) return arr(((TupleValue) t).elems);
      FcnRcdValue f = (FcnRcdValue) v.toFcnRcd(); StringBuilder sb = new StringBuilder("{");
      Value[] dom = f.getDomainAsValues();
      for (int k = 0; k < dom.length; k++) sb.append(k > 0 ? "," : "").append(new JsonPrimitive(unq(dom[k]))).append(":").append(json(f.values[k]));
      return sb.append("}").toString();
    }
    Value s = v.toSetEnum();
    if (s instanceof SetEnumValue) { s.normalize(); ValueVec el = ((SetEnumValue) s).elems; Value[] xs = new Value[el.size()]; for (int k = 0; k < xs.length; k++) xs[k] = el.elementAt(k); return arr(xs); }
    return new JsonPrimitive(v.toString()).toString();
  }
  static String unq(Value v) { return v instanceof StringValue ? ((StringValue) v).val.toString() : v.toString(); }
  static String arr(Value[] xs) {
    StringBuilder sb = new StringBuilder("[");
    for (int k = 0; k < xs.length; k++) sb.append(k > 0 ? "," : "").append(json(xs[k]));
    return sb.append("]").toString();
  }
}
