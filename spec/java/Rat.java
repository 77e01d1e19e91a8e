// TLC evaluation of the operators of Rat.tla: exact rational arithmetic extended
// with the three non-finite IEEE values. TLC's own integers are 32 bit, a C++ double has
// a 53 bit significand and an 11 bit exponent, so the specification needs this.
//
// A rational is the TLA+ tuple << sgn, k, n_1..n_k, d_1..d_m >> with the numerator's and the
// denominator's magnitudes as base 2^30 limbs in lowest terms, zero is <<0>>, NaN is <<2>>,
// +infinity is <<3>> and -infinity is <<-3>>. The form is canonical: TLA+ equality is
// equality of values.
import java.io.BufferedReader;
import java.io.FileReader;
import java.math.BigInteger;
import java.util.ArrayList;
import java.util.HashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
  static final int FIN = 0, NAN = 2, PINF = 3, NINF = -3;
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  static final BigInteger MASK = BigInteger.valueOf((1L << 30) - 1);

  public static final class RV extends TupleValue {
    final int kind;
    final BigInteger n, d;
    RV(int kind, BigInteger n, BigInteger d, Value[] e) { super(e); this.kind = kind; this.n = n; this.d = d; }
  }
  static final RV NaN = new RV(NAN, null, null, new Value[] {IntValue.gen(2)});
  static final RV Inf = new RV(PINF, null, null, new Value[] {IntValue.gen(3)});
  static final RV NInf = new RV(NINF, null, null, new Value[] {IntValue.gen(-3)});
  static final RV Zero = new RV(FIN, ZERO, ONE, new Value[] {IntValue.gen(0)});

  static void limbs(BigInteger x, ArrayList<Value> out) {
    x = x.abs();
    while (x.signum() != 0) {
      out.add(IntValue.gen(x.and(MASK).intValue()));
      x = x.shiftRight(30);
    }
  }
  static boolean pow2(BigInteger x) { return x.bitCount() == 1; }
  static RV mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: zero denominator");
    if (n.signum() == 0) return Zero;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!d.equals(ONE)) {
      if (pow2(d)) {
        int s = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (s > 0) { n = n.shiftRight(s); d = d.shiftRight(s); }
      } else {
        BigInteger g = n.gcd(d);
        if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
      }
    }
    ArrayList<Value> e = new ArrayList<>(6);
    e.add(IntValue.gen(n.signum()));
    e.add(null);
    limbs(n, e);
    e.set(1, IntValue.gen(e.size() - 2));
    limbs(d, e);
    return new RV(FIN, n, d, e.toArray(new Value[0]));
  }
  static int iv(Value v) { return ((IntValue) v).val; }
  static RV rv(Value v) {
    if (v instanceof RV) return (RV) v;
    if (v instanceof IntValue) return mk(BigInteger.valueOf(((IntValue) v).val), ONE);
    Value t = v instanceof TupleValue ? v : (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a rational: " + v);
    Value[] e = ((TupleValue) t).elems;
    if (e.length == 1) {
      switch (iv(e[0])) {
        case 0: return Zero;
        case 2: return NaN;
        case 3: return Inf;
        case -3: return NInf;
      }
      throw new RuntimeException("Rat: not a rational: " + v);
    }
    int k = iv(e[1]);
    BigInteger n = ZERO, d = ZERO;
    for (int i = k + 1; i >= 2; i--) n = n.shiftLeft(30).or(BigInteger.valueOf(iv(e[i])));
    for (int i = e.length - 1; i >= k + 2; i--) d = d.shiftLeft(30).or(BigInteger.valueOf(iv(e[i])));
    if (iv(e[0]) < 0) n = n.negate();
    return new RV(FIN, n, d, e);
  }
  static int sgn(RV a) { return a.kind == FIN ? a.n.signum() : a.kind == PINF ? 1 : -1; }

  public static Value RInt(Value a) { return mk(BigInteger.valueOf(iv(a)), ONE); }
  public static Value RFrac(Value a, Value b) { return mk(BigInteger.valueOf(iv(a)), BigInteger.valueOf(iv(b))); }
  public static Value RPow2(Value a) {
    int e = iv(a);
    return e >= 0 ? mk(ONE.shiftLeft(e), ONE) : mk(ONE, ONE.shiftLeft(-e));
  }
  public static Value RPow10(Value a) {
    int e = iv(a);
    return e >= 0 ? mk(BigInteger.TEN.pow(e), ONE) : mk(ONE, BigInteger.TEN.pow(-e));
  }
  public static Value RNum(Value s) { return parse(((StringValue) s).val.toString()); }

  static RV neg(RV a) {
    switch (a.kind) { case NAN: return NaN; case PINF: return NInf; case NINF: return Inf; }
    return mk(a.n.negate(), a.d);
  }
  static RV add(RV a, RV b) {
    if (a.kind == FIN && b.kind == FIN) {
      if (a.n.signum() == 0) return b;
      if (b.n.signum() == 0) return a;
      if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
      return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    if (a.kind == NAN || b.kind == NAN) return NaN;
    if (a.kind != FIN && b.kind != FIN) return a.kind == b.kind ? a : NaN;
    return a.kind != FIN ? a : b;
  }
  static RV mul(RV a, RV b) {
    if (a.kind == FIN && b.kind == FIN) {
      if (a.n.signum() == 0 || b.n.signum() == 0) return Zero;
      return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    if (a.kind == NAN || b.kind == NAN) return NaN;
    int s = sgn(a) * sgn(b);
    return s == 0 ? NaN : s > 0 ? Inf : NInf;
  }
  static RV div(RV a, RV b) {
    if (a.kind == NAN || b.kind == NAN) return NaN;
    if (b.kind != FIN) return a.kind != FIN ? NaN : Zero;
    if (a.kind != FIN) return sgn(b) == 0 ? a : sgn(a) * sgn(b) > 0 ? Inf : NInf;
    if (b.n.signum() == 0) return a.n.signum() == 0 ? NaN : a.n.signum() > 0 ? Inf : NInf;
    return mk(a.n.multiply(b.d), a.d.multiply(b.n));
  }
  /** three-way comparison; 2 when unordered */
  static int cmp(RV a, RV b) {
    if (a.kind == NAN || b.kind == NAN) return 2;
    if (a.kind == FIN && b.kind == FIN) {
      int sa = a.n.signum(), sb = b.n.signum();
      if (sa != sb) return Integer.compare(sa, sb);
      if (a.d.equals(b.d)) return a.n.compareTo(b.n);
      return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }
    int ra = a.kind == PINF ? 1 : a.kind == NINF ? -1 : 0, rb = b.kind == PINF ? 1 : b.kind == NINF ? -1 : 0;
    return Integer.compare(ra, rb);
  }
  static BoolValue B(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  public static Value RAdd(Value a, Value b) { return add(rv(a), rv(b)); }
  public static Value RSub(Value a, Value b) { return add(rv(a), neg(rv(b))); }
  public static Value RMul(Value a, Value b) { return mul(rv(a), rv(b)); }
  public static Value RDiv(Value a, Value b) { return div(rv(a), rv(b)); }
  public static Value RNeg(Value a) { return neg(rv(a)); }
  public static Value RAbs(Value a) { RV x = rv(a); return x.kind == NAN ? NaN : sgn(x) < 0 ? neg(x) : x; }
  public static Value RSgn(Value a) { RV x = rv(a); return IntValue.gen(x.kind == NAN ? 2 : sgn(x)); }
  public static Value RLt(Value a, Value b) { return B(cmp(rv(a), rv(b)) == -1); }
  public static Value RLe(Value a, Value b) { int c = cmp(rv(a), rv(b)); return B(c == -1 || c == 0); }
  public static Value REq(Value a, Value b) { return B(cmp(rv(a), rv(b)) == 0); }
  public static Value RIsNaN(Value a) { return B(rv(a).kind == NAN); }
  public static Value RIsFin(Value a) { return B(rv(a).kind == FIN); }
  public static Value RMin(Value a, Value b) { RV x = rv(a), y = rv(b); return cmp(y, x) == -1 ? y : x; }
  public static Value RMax(Value a, Value b) { RV x = rv(a), y = rv(b); return cmp(x, y) == -1 ? y : x; }
  public static Value RFloor(Value a) {
    RV x = rv(a);
    if (x.kind != FIN) return x;
    BigInteger[] qr = x.n.divideAndRemainder(x.d);
    return mk(qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0], ONE);
  }
  public static Value RToInt(Value a) {
    RV x = rv(a);
    if (x.kind != FIN || !x.d.equals(ONE)) throw new RuntimeException("Rat: not an integer " + a);
    return IntValue.gen(x.n.intValueExact());
  }
  /** floor(log2 |a|) of a finite nonzero number */
  public static Value RLog2(Value a) {
    RV x = rv(a);
    BigInteger n = x.n.abs();
    int e = n.bitLength() - x.d.bitLength();
    boolean ge = e >= 0 ? n.compareTo(x.d.shiftLeft(e)) >= 0 : n.shiftLeft(-e).compareTo(x.d) >= 0;
    return IntValue.gen(ge ? e : e - 1);
  }
  /** rounds to b significant bits, half away from zero */
  public static Value RRnd(Value a, Value bits) {
    RV x = rv(a);
    if (x.kind != FIN || x.n.signum() == 0) return x;
    int b = iv(bits);
    int e = x.n.abs().bitLength() - x.d.bitLength(); // magnitude in [2^(e-1), 2^(e+1))
    BigInteger num = x.n.abs(), den = x.d;
    if ((e >= 0 ? num : num.shiftLeft(-e)).compareTo(e >= 0 ? den.shiftLeft(e) : den) >= 0) e++; // in [2^(e-1), 2^e)
    int sh = b - e;
    if (sh >= 0) num = num.shiftLeft(sh); else den = den.shiftLeft(-sh);
    BigInteger[] qr = num.divideAndRemainder(den);
    BigInteger q = qr[0];
    int c = qr[1].shiftLeft(1).compareTo(den);
    if (c > 0 || (c == 0 && q.testBit(0))) q = q.add(ONE); // to nearest, halves to even
    if (x.n.signum() < 0) q = q.negate();
    return sh >= 0 ? mk(q, ONE.shiftLeft(sh)) : mk(q.shiftLeft(-sh), ONE);
  }
  /** largest dyadic r with about b significant bits and r*r <= a */
  public static Value RSqrt(Value a, Value bits) {
    RV x = rv(a);
    if (x.kind != FIN) return x.kind == PINF ? Inf : NaN;
    if (x.n.signum() < 0) return NaN;
    if (x.n.signum() == 0) return Zero;
    int b = iv(bits);
    int e = x.n.bitLength() - x.d.bitLength();
    int sh = 2 * b - e;
    if ((sh & 1) != 0) sh++;
    BigInteger num = x.n, den = x.d;
    if (sh >= 0) num = num.shiftLeft(sh); else den = den.shiftLeft(-sh);
    BigInteger q = num.divide(den).sqrt();
    int h = sh / 2;
    return h >= 0 ? mk(q, ONE.shiftLeft(h)) : mk(q.shiftLeft(-h), ONE);
  }
  static Value[] seq(Value v) {
    Value t = v instanceof TupleValue ? v : (Value) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
    return ((TupleValue) t).elems;
  }
  public static Value RSum(Value s) {
    RV r = Zero;
    for (Value v : seq(s)) r = add(r, rv(v));
    return r;
  }
  public static Value RDot(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
    RV r = Zero;
    for (int i = 0; i < x.length; i++) r = add(r, mul(rv(x[i]), rv(y[i])));
    return r;
  }
  static RV rabs(RV x) { return x.kind == NAN ? NaN : sgn(x) < 0 ? neg(x) : x; }
  /** sum of |a_i * b_i|: the scale of the rounding error of a dot product */
  public static Value RDotAbs(Value a, Value b) {
    Value[] x = seq(a), y = seq(b);
    RV r = Zero;
    for (int i = 0; i < x.length; i++) r = add(r, rabs(mul(rv(x[i]), rv(y[i]))));
    return r;
  }
  public static Value RMaxAbs(Value s) {
    RV r = Zero;
    for (Value v : seq(s)) {
      RV x = rabs(rv(v));
      if (x.kind == NAN) return NaN;
      if (cmp(r, x) == -1) r = x;
    }
    return r;
  }

  // ------------------------------------------------------------------ decimal / hex literals
  static RV parse(String s) {
    String t = s;
    boolean ng = false;
    if (t.startsWith("-")) { ng = true; t = t.substring(1); }
    else if (t.startsWith("+")) t = t.substring(1);
    RV r;
    if (t.equals("nan")) return NaN;
    if (t.equals("inf")) r = Inf;
    else if (t.startsWith("0x")) {
      int p = t.indexOf('p');
      String m = p < 0 ? t.substring(2) : t.substring(2, p);
      int e = p < 0 ? 0 : Integer.parseInt(t.substring(p + 1).replace("+", ""));
      int dot = m.indexOf('.');
      if (dot >= 0) { e -= 4 * (m.length() - dot - 1); m = m.substring(0, dot) + m.substring(dot + 1); }
      BigInteger n = new BigInteger(m, 16);
      r = e >= 0 ? mk(n.shiftLeft(e), ONE) : mk(n, ONE.shiftLeft(-e));
    } else {
      java.math.BigDecimal d = new java.math.BigDecimal(t);
      r = d.scale() > 0 ? mk(d.unscaledValue(), BigInteger.TEN.pow(d.scale()))
                        : mk(d.unscaledValue().multiply(BigInteger.TEN.pow(-d.scale())), ONE);
    }
    return ng ? neg(r) : r;
  }

  // ------------------------------------------------------------------ trace files
  // One JSON value per line; "#..." strings are rationals, other strings TLA+ strings, bare
  // integers TLA+ integers, arrays sequences, objects records.
  static final class P {
    final String s; int i = 0;
    P(String s) { this.s = s; }
    void ws() { while (i < s.length() && s.charAt(i) <= ' ') i++; }
    Value val() {
      ws();
      char c = s.charAt(i);
      if (c == '{') {
        i++;
        ArrayList<UniqueString> k = new ArrayList<>();
        ArrayList<Value> v = new ArrayList<>();
        ws();
        if (s.charAt(i) == '}') i++;
        else while (true) {
          ws();
          k.add(UniqueString.uniqueStringOf(str()));
          ws();
          if (s.charAt(i++) != ':') throw new RuntimeException("trace: ':' expected: " + s);
          v.add(val());
          ws();
          char x = s.charAt(i++);
          if (x == '}') break;
          if (x != ',') throw new RuntimeException("trace: bad object: " + s);
        }
        RecordValue rec = new RecordValue(k.toArray(new UniqueString[0]), v.toArray(new Value[0]), false);
        rec.deepNormalize();
        return rec;
      }
      if (c == '[') {
        i++;
        ArrayList<Value> v = new ArrayList<>();
        ws();
        if (s.charAt(i) == ']') i++;
        else while (true) {
          v.add(val());
          ws();
          char x = s.charAt(i++);
          if (x == ']') break;
          if (x != ',') throw new RuntimeException("trace: bad array: " + s);
        }
        return new TupleValue(v.toArray(new Value[0]));
      }
      if (c == '"') {
        String t = str();
        if (t.startsWith("#")) return parse(t.substring(1));
        return new StringValue(UniqueString.uniqueStringOf(t));
      }
      if (s.startsWith("true", i)) { i += 4; return BoolValue.ValTrue; }
      if (s.startsWith("false", i)) { i += 5; return BoolValue.ValFalse; }
      int j = i;
      while (i < s.length() && "+-0123456789".indexOf(s.charAt(i)) >= 0) i++;
      java.math.BigInteger lim = java.math.BigInteger.valueOf(1000000000L);   // clipped: no valid count or index is larger
      return IntValue.gen(new java.math.BigInteger(s.substring(j, i)).min(lim).max(lim.negate()).intValue());
    }
    String str() {
      if (s.charAt(i++) != '"') throw new RuntimeException("trace: '\"' expected: " + s);
      StringBuilder b = new StringBuilder();
      while (true) {
        char c = s.charAt(i++);
        if (c == '"') return b.toString();
        if (c == '\\') {
          c = s.charAt(i++);
          if (c == 'n') c = '\n'; else if (c == 't') c = '\t'; else if (c == 'r') c = '\r';
        }
        b.append(c);
      }
    }
  }
  static final HashMap<String, Value> loaded = new HashMap<>();
  public static synchronized Value RLoad(Value file) throws Exception {
    String f = ((StringValue) file).val.toString();
    Value r = loaded.get(f);
    if (r != null) return r;
    ArrayList<Value> v = new ArrayList<>();
    try (BufferedReader in = new BufferedReader(new FileReader(f))) {
      for (String l; (l = in.readLine()) != null; ) if (!l.isEmpty()) v.add(new P(l).val());
    }
    r = new TupleValue(v.toArray(new Value[0]));
    loaded.put(f, r);
    return r;
  }
  // ------------------------------------------------------------------ behaviours for replay
  static final HashMap<String, java.io.PrintWriter> outs = new HashMap<>();
  static boolean encoded(Value v) {
    if (!(v instanceof TupleValue) || ((TupleValue) v).elems.length == 0) return false;
    for (Value e : ((TupleValue) v).elems) if (!(e instanceof IntValue)) return false;
    return true;
  }
  /** rat: a tuple of integers is a rational (TLC forgets the class when it writes states to disk) */
  static void flat(Value v, StringBuilder b, boolean rat) {
    if (rat && !(v instanceof RV) && encoded(v)) v = rv(v);
    if (v instanceof IntValue) b.append(iv(v)).append(' ');
    else if (v instanceof BoolValue) b.append(((BoolValue) v).val ? 1 : 0).append(' ');
    else if (v instanceof StringValue) b.append(((StringValue) v).val.toString()).append(' ');
    else if (v instanceof RV) {
      RV r = (RV) v;
      if (r.kind == NAN) b.append("nan "); else if (r.kind == PINF) b.append("inf "); else if (r.kind == NINF) b.append("-inf ");
      else if (r.d.equals(ONE)) b.append(r.n).append(' ');
      else b.append(r.n).append('/').append(r.d).append(' ');
    } else for (Value e : seq(v)) flat(e, b, rat);
  }
  /** appends the leaves of a (nested) sequence to a file, as one line of tokens; always TRUE */
  public static Value REmit(Value file, Value v) throws Exception { return emit(file, v, false); }
  public static Value REmitR(Value file, Value v) throws Exception { return emit(file, v, true); }
  static synchronized Value emit(Value file, Value v, boolean rat) throws Exception {
    String f = ((StringValue) file).val.toString();
    java.io.PrintWriter w = outs.get(f);
    if (w == null) {
      final java.io.PrintWriter nw = new java.io.PrintWriter(new java.io.BufferedWriter(new java.io.FileWriter(f)));
      outs.put(f, nw);
      Runtime.getRuntime().addShutdownHook(new Thread(nw::close));
      w = nw;
    }
    StringBuilder b = new StringBuilder();
    flat(v, b, rat);
    w.println(b.toString().trim());
    return BoolValue.ValTrue;
  }
  /** decimal approximation for messages and replay files */
  public static Value RShow(Value a) {
    RV x = rv(a);
    String s = x.kind == NAN ? "nan" : x.kind == PINF ? "inf" : x.kind == NINF ? "-inf"
      : new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d), java.math.MathContext.DECIMAL64).toString();
    return new StringValue(UniqueString.uniqueStringOf(s));
  }
}
