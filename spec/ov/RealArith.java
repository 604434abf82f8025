// Java meaning of the operators of RealArith.tla (a TLC "module override": the class
// has the name of the module and static methods with the names of its operators).
// Reals are IEEE doubles held in UserValues; integers stay TLC integers under + - *.
import tlc2.tool.impl.TLARegistry;
import tlc2.value.impl.*;
import util.UniqueString;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

public class RealArith {
  static final class D extends UserObj {
    final double v;
    D(double v) { this.v = v; }
    public int compareTo(Value o) { return Double.compare(v, d(o)); }
    public boolean member(Value x) { return false; }
    public boolean isFinite() { return true; }
    public StringBuffer toString(StringBuffer sb, int i, boolean b) { return sb.append(v); }
  }
  static {
    put("Plus", "+"); put("Minus", "-"); put("Times", "*"); put("Div", "/"); put("Power", "^");
    put("LT", "<"); put("GT", ">"); put("LE", "\\leq"); put("GE", "\\geq"); put("Neg", "-.");
    put("DotDot", ".."); put("Mod", "%");
  }
  static void put(String a, String b) { TLARegistry.put(a, b); }

  static final ConcurrentHashMap<Integer, Double> cache = new ConcurrentHashMap<>();
  static final Double NAN = Double.NaN;
  // The number denoted by a value: NaN if it denotes none, so that verdicts stay total.
  static double d(Value v) {
    if (v instanceof UserValue) return ((D) ((UserValue) v).userObj).v;
    if (v instanceof IntValue) return ((IntValue) v).val;
    if (v instanceof StringValue) {
      UniqueString u = ((StringValue) v).val;
      Double c = cache.get(u.getTok());
      if (c == null) {
        try { c = Double.parseDouble(u.toString()); } catch (NumberFormatException e) { c = NAN; }
        cache.put(u.getTok(), c);
      }
      return c;
    }
    return Double.NaN;
  }
  static boolean num(Value v) {
    if (v instanceof UserValue || v instanceof IntValue) return true;
    return v instanceof StringValue && ((StringValue) v).val.toString().matches("[-+]?([0-9].*|\\.[0-9].*|NaN|Infinity)");
  }
  static Value r(double x) { return new UserValue(new D(x)); }
  static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static Value i(long x) { return x == (int) x ? IntValue.gen((int) x) : r((double) x); }
  static boolean ii(Value a, Value b) { return a instanceof IntValue && b instanceof IntValue; }
  static long l(Value a) { return ((IntValue) a).val; }
  static String s(Value v) { return v instanceof StringValue ? ((StringValue) v).val.toString() : v.toString(); }

  public static Value Plus(Value a, Value b) { return ii(a, b) ? i(l(a) + l(b)) : r(d(a) + d(b)); }
  public static Value Minus(Value a, Value b) { return ii(a, b) ? i(l(a) - l(b)) : r(d(a) - d(b)); }
  public static Value Times(Value a, Value b) { return ii(a, b) ? i(l(a) * l(b)) : r(d(a) * d(b)); }
  public static Value Div(Value a, Value b) { return r(d(a) / d(b)); }
  public static Value Power(Value a, Value b) { return r(Math.pow(d(a), d(b))); }
  public static Value LT(Value a, Value b) { return b(d(a) < d(b)); }
  public static Value GT(Value a, Value b) { return b(d(a) > d(b)); }
  public static Value LE(Value a, Value b) { return b(d(a) <= d(b)); }
  public static Value GE(Value a, Value b) { return b(d(a) >= d(b)); }
  public static Value Neg(Value a) { return a instanceof IntValue ? i(-l(a)) : r(-d(a)); }
  public static Value Mod(Value a, Value b) { return i(Math.floorMod(l(a), l(b))); }
  public static Value DotDot(Value a, Value b) { return new IntervalValue((int) d(a), (int) d(b)); }
  public static Value Exp(Value a) { return r(Math.exp(d(a))); }
  public static Value Ln(Value a) { return r(Math.log(d(a))); }
  public static Value Log10(Value a) { return r(Math.log10(d(a))); }
  public static Value Sqrt(Value a) { return r(Math.sqrt(d(a))); }
  public static Value Sin(Value a) { return r(Math.sin(d(a))); }
  public static Value Cos(Value a) { return r(Math.cos(d(a))); }
  public static Value Tan(Value a) { return r(Math.tan(d(a))); }
  public static Value Tanh(Value a) { return r(Math.tanh(d(a))); }
  public static Value Cosh(Value a) { return r(Math.cosh(d(a))); }
  public static Value Radians(Value a) { return r(d(a) * (Math.PI / 180.0)); }
  public static Value AbsR(Value a) { return r(Math.abs(d(a))); }
  // as Python: the first unless the second is smaller/larger (a NaN second argument is ignored)
  public static Value MinR(Value a, Value b) { return d(b) < d(a) ? b : a; }
  public static Value MaxR(Value a, Value b) { return d(b) > d(a) ? b : a; }
  public static Value Clip(Value x, Value lo, Value hi) {
    double v = d(x); return v < d(lo) ? lo : (v > d(hi) ? hi : x);
  }
  public static Value RealV(Value a) { return r(d(a)); }
  public static Value FloorI(Value a) { return i((long) Math.floor(d(a))); }
  public static Value NaN() { return r(Double.NaN); }
  public static Value PiR() { return r(Math.PI); }

  public static Value Eq(Value a, Value b) { return b(num(a) && num(b) && (d(a) == d(b) || (Double.isNaN(d(a)) && Double.isNaN(d(b))))); }
  public static Value IsNaN(Value a) { return b(num(a) && Double.isNaN(d(a))); }
  public static Value IsNum(Value a) { return b(num(a)); }
  public static Value IsFinite(Value a) { return b(num(a) && !Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
  public static Value IsNone(Value a) { return b(a instanceof StringValue && s(a).equals("None")); }
  public static Value IsStr(Value a) { return b(a instanceof StringValue); }
  public static Value IsSeq(Value a) { return b(a instanceof TupleValue); }
  // |a-b| <= tol * max(1, |b|); NaN only matches NaN, infinities only themselves.
  public static Value Near(Value a, Value b, Value tol) {
    if (!num(a) || !num(b)) return BoolValue.ValFalse;
    return b(near(d(a), d(b), d(tol)));
  }
  static boolean near(double x, double y, double tol) {
    if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
    if (Double.isInfinite(x) || Double.isInfinite(y)) return x == y;
    return Math.abs(x - y) <= tol * Math.max(1.0, Math.abs(y));
  }
  // total equality of any two values (numbers by value, structures recursively)
  public static Value Same(Value a, Value b) { return b(same(a, b)); }
  static boolean same(Value a, Value b) {
    if (a instanceof StringValue && b instanceof StringValue) return a.equals(b);
    boolean na = a instanceof UserValue || a instanceof IntValue, nb = b instanceof UserValue || b instanceof IntValue;
    if (na || nb) return na && nb && (d(a) == d(b) || (Double.isNaN(d(a)) && Double.isNaN(d(b))));
    if (a instanceof BoolValue || b instanceof BoolValue) return a instanceof BoolValue && b instanceof BoolValue && a.equals(b);
    if (a instanceof RecordValue && b instanceof RecordValue) {
      RecordValue x = (RecordValue) a, y = (RecordValue) b;
      if (x.names.length != y.names.length) return false;
      for (int k = 0; k < x.names.length; k++) {
        if (!HasKey(y, new StringValue(x.names[k])).equals(BoolValue.ValTrue)) return false;
        if (!same(x.values[k], y.apply(new StringValue(x.names[k]), 0))) return false;
      }
      return true;
    }
    Value x = a.toTuple(), y = b.toTuple();
    if (x == null || y == null) return false;
    Value[] p = ((TupleValue) x).elems, q = ((TupleValue) y).elems;
    if (p.length != q.length) return false;
    for (int k = 0; k < p.length; k++) if (!same(p[k], q[k])) return false;
    return true;
  }

  static Value[] el(Value f) { Value t = f.toTuple(); return t == null ? new Value[0] : ((TupleValue) t).elems; }
  // Eagerly evaluated sequence
  public static Value Vec(Value f) { Value t = f.toTuple(); return t == null ? f : t; }
  public static Value SumR(Value f) { double t = 0; for (Value v : el(f)) t += d(v); return r(t); }
  public static Value DotR(Value f, Value g) {
    Value[] a = el(f), c = el(g); double t = 0;
    for (int k = 0; k < a.length; k++) t += d(a[k]) * d(c[k]);
    return r(t);
  }
  // Piecewise-linear interpolation holding the end values (xs increasing)
  public static Value Interp(Value x, Value xs, Value ys) {
    Value[] p = el(xs), q = el(ys); double v = d(x); int n = p.length;
    if (Double.isNaN(v)) return r(Double.NaN);
    if (v <= d(p[0])) return r(d(q[0]));
    if (v >= d(p[n - 1])) return r(d(q[n - 1]));
    int k = 0; while (v >= d(p[k + 1])) k++;
    return r(d(q[k]) + (d(q[k + 1]) - d(q[k])) * ((v - d(p[k])) / (d(p[k + 1]) - d(p[k]))));
  }
  // Solution x of the symmetric system A x = b by Gaussian elimination with pivoting
  public static Value SolveR(Value A, Value B) {
    Value[] rows = el(A); int n = rows.length; double[][] m = new double[n][n + 1]; Value[] bb = el(B);
    for (int a = 0; a < n; a++) { Value[] w = el(rows[a]); for (int c = 0; c < n; c++) m[a][c] = d(w[c]); m[a][n] = d(bb[a]); }
    for (int c = 0; c < n; c++) {
      int p = c; for (int a = c + 1; a < n; a++) if (Math.abs(m[a][c]) > Math.abs(m[p][c])) p = a;
      double[] t = m[c]; m[c] = m[p]; m[p] = t;
      for (int a = 0; a < n; a++) if (a != c) { double f = m[a][c] / m[c][c]; for (int k = c; k <= n; k++) m[a][k] -= f * m[c][k]; }
    }
    Value[] o = new Value[n]; for (int a = 0; a < n; a++) o[a] = r(m[a][n] / m[a][a]);
    return new TupleValue(o);
  }
  // first index (1-based) of the smallest value
  public static Value ArgMin(Value f) {
    Value[] a = el(f); int k = 0;
    for (int j = 1; j < a.length; j++) if (d(a[j]) < d(a[k])) k = j;
    return i(k + 1);
  }
  // indices (1-based) at which a sequence of booleans holds
  public static Value SelectIdx(Value f) {
    Value[] a = el(f); ArrayList<Value> o = new ArrayList<>();
    for (int j = 0; j < a.length; j++) if (a[j] instanceof BoolValue && ((BoolValue) a[j]).val) o.add(i(j + 1));
    return new TupleValue(o.toArray(new Value[0]));
  }
  // a sequence without repetitions (of the same value: numbers are not compared across spellings)
  public static Value Uniq(Value f) {
    ArrayList<Value> o = new ArrayList<>(); LinkedHashSet<String> seen = new LinkedHashSet<>();
    for (Value v : el(f)) { StringBuilder k = new StringBuilder(); js(k, v); if (seen.add(k.toString())) o.add(v); }
    return new TupleValue(o.toArray(new Value[0]));
  }
  // concatenation of a sequence of sequences
  public static Value Flat(Value f) {
    ArrayList<Value> o = new ArrayList<>(); for (Value v : el(f)) o.addAll(Arrays.asList(el(v)));
    return new TupleValue(o.toArray(new Value[0]));
  }
  // exact sum of two decimal strings, as a decimal string
  public static Value DecAdd(Value a, Value b) {
    return new StringValue(new java.math.BigDecimal(s(a)).add(new java.math.BigDecimal(s(b))).stripTrailingZeros().toPlainString());
  }
  // Deterministic pseudo-random integer in 0..n-1 from (seed, a, b)
  public static Value Hash(Value seed, Value a, Value b, Value n) {
    long h = 0x9E3779B97F4A7C15L * (l(seed) + 1);
    h = mix(h ^ (h2(a) + 0x632BE59BD9B4E019L)); h = mix(h ^ (h2(b) * 0xD1B54A32D192ED03L + 1));
    return i(Long.remainderUnsigned(h, Math.max(1, l(n))));
  }
  static long h2(Value v) { if (v instanceof IntValue) return l(v) * 0x2545F4914F6CDD1DL + 7; long h = 1125899906842597L; for (char c : s(v).toCharArray()) h = 31 * h + c; return h; }
  static long mix(long z) { z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L; z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL; return z ^ (z >>> 31); }
  // Decimal literal k / 10^places as a string
  public static Value Dec(Value k, Value places) {
    return new StringValue(java.math.BigDecimal.valueOf(l(k), (int) l(places)).toPlainString());
  }
  public static Value IntOf(Value v) { return i((long) Math.rint(d(v))); }
  public static Value Str(Value v) { return new StringValue(v instanceof StringValue ? s(v) : (v instanceof UserValue ? Double.toString(d(v)) : v.toString())); }
  public static Value HasKey(Value rec, Value k) {
    if (!(rec instanceof RecordValue)) return BoolValue.ValFalse;
    String key = s(k); for (UniqueString u : ((RecordValue) rec).names) if (u.toString().equals(key)) return BoolValue.ValTrue;
    return BoolValue.ValFalse;
  }
  // field of a record, or the default
  public static Value Get(Value rec, Value k, Value dflt) {
    if (!(rec instanceof RecordValue)) return dflt;
    RecordValue x = (RecordValue) rec; String key = s(k);
    for (int j = 0; j < x.names.length; j++) if (x.names[j].toString().equals(key)) return x.values[j];
    return dflt;
  }
  // element of a sequence, or the string "missing"
  public static Value At(Value f, Value k) {
    Value[] a = el(f); int n = (int) d(k);
    return n >= 1 && n <= a.length ? a[n - 1] : new StringValue("missing");
  }
  // text contains the word (identifier)
  public static Value Mentions(Value t, Value w) {
    return b(java.util.regex.Pattern.compile("(?<![A-Za-z0-9_])" + java.util.regex.Pattern.quote(s(w)) + "(?![A-Za-z0-9_])").matcher(s(t)).find());
  }
  // text contains a number of this value
  public static Value MentionsNum(Value t, Value x) {
    java.util.regex.Matcher m = java.util.regex.Pattern.compile("-?[0-9]+(\\.[0-9]*)?([eE][-+]?[0-9]+)?").matcher(s(t));
    while (m.find()) try { if (Double.parseDouble(m.group()) == d(x)) return BoolValue.ValTrue; } catch (NumberFormatException e) { }
    return BoolValue.ValFalse;
  }
  public static Value LenR(Value f) { return i(f.toTuple() == null ? -1 : el(f).length); }
  // a function from strings as a record, evaluated now
  public static Value ToRec(Value f) {
    if (f instanceof RecordValue) return f;
    FcnRcdValue g = (FcnRcdValue) f.toFcnRcd(); g.normalize(); Value[] dom = g.getDomainAsValues();
    TreeMap<String, Value> m = new TreeMap<>();
    for (int k = 0; k < dom.length; k++) m.put(s(dom[k]), g.values[k]);
    return rec(m);
  }
  // record with one field replaced or added
  public static Value With(Value rec, Value k, Value v) {
    RecordValue x = (RecordValue) rec; UniqueString key = UniqueString.uniqueStringOf(s(k));
    TreeMap<String, Value> m = new TreeMap<>();
    for (int j = 0; j < x.names.length; j++) m.put(x.names[j].toString(), x.values[j]);
    m.put(key.toString(), v);
    return rec(m);
  }
  static Value rec(Map<String, Value> m) {
    UniqueString[] n = new UniqueString[m.size()]; Value[] v = new Value[m.size()]; int k = 0;
    for (Map.Entry<String, Value> e : m.entrySet()) { n[k] = UniqueString.uniqueStringOf(e.getKey()); v[k++] = e.getValue(); }
    RecordValue r = new RecordValue(n, v, false); r.deepNormalize(); return r;
  }
  public static Value Env(Value k, Value dflt) {
    String v = System.getenv(s(k)); return v == null || v.isEmpty() ? dflt : new StringValue(v);
  }
  public static Value EnvInt(Value k, Value dflt) {
    String v = System.getenv(s(k)); return v == null || v.isEmpty() ? dflt : IntValue.gen(Integer.parseInt(v));
  }
  public static Value EnvSeq(Value k) {
    String v = System.getenv(s(k)); if (v == null || v.isEmpty()) return new TupleValue(new Value[0]);
    String[] p = v.split(","); Value[] o = new Value[p.length];
    for (int j = 0; j < p.length; j++) o[j] = new StringValue(p[j]);
    return new TupleValue(o);
  }
  public static Value EmptyRec() { return rec(new TreeMap<>()); }

  // ---- JSON in / out -------------------------------------------------------
  static final Map<String, Value> loaded = new HashMap<>();
  public static Value LoadJson(Value f) { synchronized (loaded) { Value v = loaded.get(s(f)); if (v == null) loaded.put(s(f), v = json(f)); return v; } }
  static Value json(Value f) { try { return new P(read(s(f))).value(); } catch (IOException e) { throw new RuntimeException(e); } }
  public static Value LoadNd(Value f) { synchronized (loaded) { Value v = loaded.get(s(f)); if (v == null) loaded.put(s(f), v = nd(f)); return v; } }
  static Value nd(Value f) {
    try (BufferedReader in = new BufferedReader(new InputStreamReader(new FileInputStream(s(f)), StandardCharsets.UTF_8))) {
      ArrayList<Value> o = new ArrayList<>(); String ln;
      while ((ln = in.readLine()) != null) if (!ln.isEmpty()) o.add(new P(ln).value());
      return new TupleValue(o.toArray(new Value[0]));
    } catch (IOException e) { throw new RuntimeException(e); }
  }
  static String read(String f) throws IOException { return new String(java.nio.file.Files.readAllBytes(java.nio.file.Paths.get(f)), StandardCharsets.UTF_8); }
  static final class P {
    final String t; int p = 0;
    P(String t) { this.t = t; }
    void ws() { while (p < t.length() && t.charAt(p) <= ' ') p++; }
    Value value() {
      ws(); char c = t.charAt(p);
      if (c == '{') {
        p++; TreeMap<String, Value> m = new TreeMap<>(); ws();
        if (t.charAt(p) == '}') { p++; return rec(m); }
        while (true) { ws(); String k = str(); ws(); p++; m.put(k, value()); ws(); if (t.charAt(p++) == '}') break; }
        return rec(m);
      }
      if (c == '[') {
        p++; ArrayList<Value> o = new ArrayList<>(); ws();
        if (t.charAt(p) == ']') { p++; return new TupleValue(new Value[0]); }
        while (true) { o.add(value()); ws(); if (t.charAt(p++) == ']') break; }
        return new TupleValue(o.toArray(new Value[0]));
      }
      if (c == '"') return new StringValue(str());
      if (t.startsWith("true", p)) { p += 4; return BoolValue.ValTrue; }
      if (t.startsWith("false", p)) { p += 5; return BoolValue.ValFalse; }
      if (t.startsWith("null", p)) { p += 4; return new StringValue("None"); }
      if (t.startsWith("NaN", p)) { p += 3; return r(Double.NaN); }
      if (t.startsWith("Infinity", p)) { p += 8; return r(Double.POSITIVE_INFINITY); }
      if (t.startsWith("-Infinity", p)) { p += 9; return r(Double.NEGATIVE_INFINITY); }
      int q = p; while (p < t.length() && "+-0123456789.eE".indexOf(t.charAt(p)) >= 0) p++;
      String n = t.substring(q, p);
      if (n.matches("-?[0-9]{1,9}")) return IntValue.gen(Integer.parseInt(n));
      return r(Double.parseDouble(n));
    }
    String str() {
      p++; StringBuilder sb = new StringBuilder();
      while (true) {
        char c = t.charAt(p++);
        if (c == '"') return sb.toString();
        if (c == '\\') { c = t.charAt(p++); switch (c) { case 'n': c = '\n'; break; case 't': c = '\t'; break; case 'u': c = (char) Integer.parseInt(t.substring(p, p + 4), 16); p += 4; } }
        sb.append(c);
      }
    }
  }
  static void js(StringBuilder o, Value v) {
    if (v instanceof UserValue) { double x = d(v); o.append(Double.isNaN(x) ? "NaN" : Double.isInfinite(x) ? (x > 0 ? "Infinity" : "-Infinity") : Double.toString(x)); return; }
    if (v instanceof IntValue) { o.append(l(v)); return; }
    if (v instanceof BoolValue) { o.append(((BoolValue) v).val); return; }
    if (v instanceof StringValue) { q(o, s(v)); return; }
    if (v instanceof RecordValue) {
      RecordValue x = (RecordValue) v; o.append('{');
      for (int k = 0; k < x.names.length; k++) { if (k > 0) o.append(','); q(o, x.names[k].toString()); o.append(':'); js(o, x.values[k]); }
      o.append('}'); return;
    }
    if (v instanceof FcnLambdaValue || v instanceof FcnRcdValue) {
      Value t = v.toTuple(); if (t != null) { js(o, t); return; }
      FcnRcdValue f = (FcnRcdValue) v.toFcnRcd(); f.normalize(); Value[] dom = f.getDomainAsValues(); o.append('{');
      for (int k = 0; k < dom.length; k++) { if (k > 0) o.append(','); q(o, s(dom[k])); o.append(':'); js(o, f.values[k]); }
      o.append('}'); return;
    }
    if (v instanceof TupleValue) { o.append('['); Value[] e = ((TupleValue) v).elems; for (int k = 0; k < e.length; k++) { if (k > 0) o.append(','); js(o, e[k]); } o.append(']'); return; }
    Value t = v.toSetEnum();
    if (t != null) { SetEnumValue se = (SetEnumValue) t; se.normalize(); o.append('['); for (int k = 0; k < se.elems.size(); k++) { if (k > 0) o.append(','); js(o, se.elems.elementAt(k)); } o.append(']'); return; }
    q(o, v.toString());
  }
  static void q(StringBuilder o, String x) {
    o.append('"');
    for (char c : x.toCharArray()) { if (c == '"' || c == '\\') o.append('\\').append(c); else if (c < ' ') o.append(String.format("\\u%04x", (int) c)); else o.append(c); }
    o.append('"');
  }
  static final Map<String, PrintStream> out = new HashMap<>();
  public static Value Emit(Value f, Value v) {
    StringBuilder o = new StringBuilder(); js(o, v); o.append('\n');
    synchronized (out) {
      PrintStream w = out.get(s(f));
      try { if (w == null) { w = new PrintStream(new BufferedOutputStream(new FileOutputStream(s(f)), 1 << 16), false, "UTF-8"); out.put(s(f), w);
            final PrintStream ww = w; Runtime.getRuntime().addShutdownHook(new Thread(() -> { synchronized (out) { ww.flush(); } })); } }
      catch (IOException e) { throw new RuntimeException(e); }
      w.print(o);
    }
    return BoolValue.ValTrue;
  }
}
