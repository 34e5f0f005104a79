package symx;

import java.math.BigInteger;
import java.util.*;

/** The harness interface sym.Sym, and contracts that replace library internals. */
final class SymNatives {
  private SymNatives() {}

  static final String LS = "Ljava/lang/String;";

  /** text that is an unknown function of its key, the same for the same key on a path */
  static Obj opaque(Engine e, String kind, int len, Object... key) {
    List<Object> k = new ArrayList<>();
    k.add(kind);
    k.addAll(Arrays.asList(key));
    Rope r = e.opaques.get(k);
    if (r == null) {
      e.validate = false;
      String nm = e.fresh(kind);
      Object[] c = new Object[len];
      for (int i = 0; i < len; i++) c[i] = e.tf.var(nm + "." + i, 32, 33, 126);
      r = Rope.units(c);
      e.opaques.put(k, r);
    }
    return e.str(r);
  }

  static Obj doubleText(Engine e, Term v) {
    return opaque(e, "doubleText", 6, v);
  }

  static Term input(Engine e, Object name, int w, long lo, long hi) {
    String n = e.fresh(e.host(name));
    Term t = e.tf.var(n, w, lo, hi);
    e.inputs.put(n, t);
    return t;
  }

  static void register(HashMap<String, Native> m) {
    String p = "sym/Sym.";
    m.put(p + "<clinit>()V", (e, a) -> null);
    m.put(p + "intIn(" + LS + "II)I", (e, a) -> e.I(input(e, a[0], 32, (Integer) a[1], (Integer) a[2])));
    m.put(p + "longIn(" + LS + "JJ)J", (e, a) -> e.I(input(e, a[0], 64, (Long) a[1], (Long) a[2])));
    m.put(p + "bool(" + LS + ")Z", (e, a) -> input(e, a[0], 32, 0, 1));
    m.put(p + "ch(" + LS + "CC)C", (e, a) -> e.I(input(e, a[0], 32, (Integer) a[1], (Integer) a[2])));
    m.put(p + "choose(" + LS + "I)I", (e, a) -> e.choose(e.host(a[0]), e.concretize(a[1], "choices")));
    m.put(p + "str(" + LS + "ICC)" + LS, (e, a) -> {
      String n = e.fresh(e.host(a[0]));
      int len = e.concretize(a[1], "length");
      Object[] c = new Object[len];
      for (int i = 0; i < len; i++) {
        Term t = e.tf.var(n + "." + i, 32, (Integer) a[2], (Integer) a[3]);
        e.inputs.put(n + "." + i, t);
        c[i] = e.I(t);
      }
      return e.str(Rope.units(c));
    });
    m.put(p + "doubleBits(" + LS + ")D", (e, a) -> input(e, a[0], 64, Long.MIN_VALUE, Long.MAX_VALUE));
    m.put(p + "floatBits(" + LS + ")F", (e, a) -> input(e, a[0], 32, Integer.MIN_VALUE, Integer.MAX_VALUE));
    // a positive finite double given by its shortest decimal f * 10^e with exactly n digits
    m.put(p + "decimalDouble(" + LS + "III)D", (e, a) -> {
      String n = e.fresh(e.host(a[0]));
      int digits = e.concretize(a[1], "digits");
      Term f = e.tf.var(n + ".f", 64, TF.P10[digits - 1], digits == 18 ? 999999999999999999L : TF.P10[digits] - 1);
      int elo = (Integer) a[2], ehi = (Integer) a[3];
      Term x = elo == ehi ? e.tf.cst(32, elo) : e.tf.var(n + ".e", 32, elo, ehi);
      e.inputs.put(n + ".f", f);
      e.inputs.put(n + ".e", e.I(x));
      Term d = e.tf.var(n + ".bits", 64, 1, 0x7FEFFFFFFFFFFFFFL);
      e.decimals.put(d, new Term[] {f, x, e.tf.cst(32, digits)});
      return d;
    });
    // the same with a given binary length of f
    m.put(p + "decimalOf(" + LS + "III)D", (e, a) -> {
      String n = e.fresh(e.host(a[0]));
      int digits = e.concretize(a[1], "digits"), bits = e.concretize(a[2], "bits"), x = e.concretize(a[3], "exponent");
      long lo = Math.max(TF.P10[digits - 1], 1L << bits - 1), hi = Math.min(TF.P10[digits] - 1, (1L << bits) - 1);
      Term f = e.tf.var(n + ".f", 64, lo, hi);
      e.inputs.put(n + ".f", f);
      e.inputs.put(n + ".e", x);
      e.solver.hints.put(f, () -> multiples(lo, hi));
      Term d = e.tf.var(n + ".bits", 64, 1, 0x7FEFFFFFFFFFFFFFL);
      e.decimals.put(d, new Term[] {f, e.tf.cst(32, x), e.tf.cst(32, digits)});
      return d;
    });
    m.put(p + "decimalDigits(" + LS + ")J", (e, a) -> {
      String last = null, n = e.host(a[0]);
      for (String k : e.inputs.keySet()) if (k.equals(n + ".f") || k.startsWith(n + "#") && k.endsWith(".f")) last = k;
      return e.inputs.get(last);
    });
    m.put(p + "bigDigits(" + LS + "I)Ljava/math/BigInteger;", (e, a) -> {
      String n = e.fresh(e.host(a[0]));
      int len = e.concretize(a[1], "digits");
      Object[] c = new Object[len];
      for (int i = 0; i < len; i++) {
        Term t = e.tf.var(n + "." + i, 32, i == 0 ? '1' : '0', '9');
        e.inputs.put(n + "." + i, t);
        c[i] = t;
      }
      return Natives.mkBig(e, new Natives.Big(1, new Object[] {10, Rope.units(c)}));
    });
    m.put(p + "unsignedBig(J)Ljava/math/BigInteger;", (e, a) -> Natives.mkBig(e, Natives.unsigned(e, a[0] instanceof Term ? (Term) a[0] : e.tf.cst(64, (Long) a[0]))));
    for (int radix : new int[] {8, 16})
      m.put(p + (radix == 8 ? "bigOct(" : "bigHex(") + LS + "I)Ljava/math/BigInteger;", (e, a) -> {
        String n = e.fresh(e.host(a[0]));
        int len = e.concretize(a[1], "digits");
        Object[] c = new Object[len];
        long[] hex = new long[radix];
        for (int i = 0; i < radix; i++) hex[i] = "0123456789abcdef".charAt(i);
        for (int i = 0; i < len; i++) {
          Term t = e.tf.var(n + "." + i, 32, i == 0 ? 1 : 0, radix - 1);
          e.inputs.put(n + "." + i, t);
          c[i] = e.I(e.tf.select(32, e.tf.internTable(hex), t));
        }
        return Natives.mkBig(e, new Natives.Big(1, new Object[] {radix, Rope.units(c)}));
      });
    m.put(p + "assume(Z)V", (e, a) -> {
      e.assume(e.truth(a[0]));
      return null;
    });
    m.put(p + "check(Z" + LS + ")V", (e, a) -> {
      e.check(e.truth(a[0]), e.host(a[1]));
      return null;
    });
    m.put(p + "checkEq(" + LS + LS + LS + ")V", (e, a) -> {
      String msg = e.host(a[2]);
      if (a[0] == null || a[1] == null) {
        e.check(e.tf.bool(a[0] == a[1]), msg);
        return null;
      }
      Rope x = e.rope(a[0]), y = e.rope(a[1]);
      if (e.explorer.debug) System.err.println("checkEq " + x + " vs " + y);
      e.check(Rope.eq(e, x, y), msg);
      return null;
    });
    m.put(p + "fail(" + LS + ")V", (e, a) -> {
      e.check(e.tf.F, e.host(a[0]));
      return null;
    });
    m.put(p + "cover(" + LS + ")V", (e, a) -> {
      e.covers.add(e.host(a[0]));
      return null;
    });
    m.put(p + "out(" + LS + ")V", (e, a) -> {
      e.outs.add(a[0] == null ? Rope.of("<null>") : e.rope(a[0]));
      return null;
    });
    m.put(p + "rep(Ljava/lang/StringBuilder;CI)V", (e, a) -> {
      Object n = e.simp(a[2]);
      if (!e.decide(e.ile(n, 0))) Natives.append(e, a[0], Rope.run(a[1], n));
      return null;
    });
    m.put(p + "thorough()Z", (e, a) -> e.explorer.thorough ? 1 : 0);
    m.put(p + "isNative()Z", (e, a) -> 0);
    m.put(p + "resetDepth()V", (e, a) -> {
      e.maxDepth = e.depth;
      return null;
    });
    m.put(p + "maxDepth()I", (e, a) -> e.maxDepth - e.depth);
    m.put(p + "share()V", (e, a) -> {
      e.shareMark = e.nextId - 1;
      e.sharedWrite = null;
      return null;
    });
    m.put(p + "sharedWrite()" + LS, (e, a) -> e.sharedWrite == null ? null : e.str(e.sharedWrite));
    m.put(p + "unshare()V", (e, a) -> {
      e.shareMark = -1;
      return null;
    });
    m.put(p + "interleave(Lsym/Sym$Setup;)[" + LS, (e, a) -> e.interleave((Obj) a[0]));
    m.put(p + "thread(I)V", (e, a) -> {
      e.thread = (Integer) a[0];
      return null;
    });
    m.put(p + "abstractDecimals()V", (e, a) -> {
      e.abstractDecimals = true;
      return null;
    });
    m.put(p + "patient()V", (e, a) -> {
      e.solver.timeoutMs = 60000;
      return null;
    });
    m.put(p + "opaqueProducts()V", (e, a) -> {
      e.opaque = true;
      return null;
    });
    m.put(p + "shortest(D)" + LS, (e, a) -> {
      Klass k = e.klass("jdk/internal/math/FormattedFPDecimal");
      e.init(k);
      hints(e, a[0]);
      e.reference = true;
      Obj fd = (Obj) e.body(k.methods.get("valueOf(DIC)Ljdk/internal/math/FormattedFPDecimal;"), a[0], 17, (int) 'e');
      e.reference = false;
      Arr m17 = (Arr) e.getField(fd, "digits"), x = (Arr) e.getField(fd, "exp");
      ArrayList<Object> c = new ArrayList<>(Arrays.asList(e.elems(m17)));
      while (c.size() < 19) c.add((int) '0');
      c.add((int) 'e');
      c.addAll(Arrays.asList(e.elems(x)));
      return e.str(Rope.units(c.toArray()));
    });
    m.put(p + "javaText(D)" + LS, (e, a) -> {
      Klass k = e.klass("jdk/internal/math/DoubleToDecimal");
      e.init(k);
      hints(e, a[0]);
      e.reference = true;
      Object t = e.body(k.methods.get("toString(D)" + LS), a[0]);
      e.reference = false;
      return t;
    });
    m.put(p + "libraryMultiplyHigh(JJ)J", (e, a) -> {
      Klass k;
      try {
        k = e.klass("io/fastprintf/util/internal/MultiplyHigh");
      } catch (RuntimeException x) {
        throw new Unsupported("no multiply-high helper");
      }
      Meth f = k.methods.get("multiplyHigh(JJ)J");
      if (f == null) throw new Unsupported("no multiply-high helper");
      e.init(k);
      return e.body(f, a);
    });
    m.put(p + "upper(" + LS + ")" + LS, (e, a) -> {
      Rope r = e.rope(a[0]);
      Object[] c = r.ch.clone();
      for (int i = 0; i < c.length; i++) {
        if (c[i] instanceof Integer) {
          int x = (Integer) c[i];
          c[i] = x >= 'a' && x <= 'z' ? x - 32 : x;
        } else {
          Term t = (Term) c[i];
          c[i] = e.I(e.tf.ite(e.tf.band(e.ile('a', t), e.ile(t, 'z')), e.tf.sub(t, e.tf.cst(32, 32)), t));
        }
      }
      return e.str(new Rope(c, r.cnt, r.len));
    });
    m.put(p + "concrete(I)I", (e, a) -> e.concretize(e.simp(a[0]), "harness"));
    m.put(p + "trace(" + LS + ")V", (e, a) -> {
      if (e.explorer.debug) System.err.println("trace " + a[0]);
      return null;
    });

    // contract for the portable high product: established separately
    String smh = "io/fastprintf/util/internal/MultiplyHigh.slowMultiplyHigh(JJ)J";
    m.put(smh, (e, a) -> {
      if (e.opaque) return Natives.mulh(e, a[0], a[1]);
      return e.body(e.klass("io/fastprintf/util/internal/MultiplyHigh").methods.get("slowMultiplyHigh(JJ)J"), a);
    });

    // contract for shortest decimals: established separately against the JDK's own algorithm
    String dtd = "io/fastprintf/util/internal/DoubleToDecimal.split(DLio/fastprintf/util/internal/FormattedFPDecimal;)V";
    m.put(dtd, (e, a) -> {
      Term[] d = a[0] instanceof Term ? e.decimals.get(a[0]) : null;
      if (d == null && a[0] instanceof Term && e.abstractDecimals) {
        e.validate = false;
        d = new Term[] {e.tf.var(e.fresh("decimal"), 64, 10, 99), e.tf.cst(32, -1), e.tf.cst(32, 2)};
        e.decimals.put((Term) a[0], d);
      }
      if (d == null) {
        Klass k = e.klass("io/fastprintf/util/internal/DoubleToDecimal");
        return e.body(k.methods.get("split(DLio/fastprintf/util/internal/FormattedFPDecimal;)V"), a);
      }
      return e.callVirtual(a[1], "set(JII)V", e.I(d[0]), e.I(d[1]), e.I(d[2]));
    });
    // the texts of such doubles: only the layout of the decimal is followed
    for (String c : new String[] {"io/fastprintf/util/internal/", "jdk/internal/math/"}) {
      String own = c + "DoubleToDecimal", sig = "toDecimal(DL" + c + "FormattedFPDecimal;)I";
      m.put(own + "." + sig, (e, a) -> {
        Term[] d = a[1] instanceof Term ? e.decimals.get(a[1]) : null;
        Meth chars = e.klass(own).methods.get("toChars(JIL" + c + "FormattedFPDecimal;)I");
        if (d == null || chars == null) return e.body(e.klass(own).methods.get(sig), a);
        e.setField((Obj) a[0], "index", -1);
        return e.body(chars, a[0], e.I(d[0]), e.I(d[1]), a[2]);
      });
    }
  }

  /** numbers of the range with runs of zeros at the end and before the last digit */
  private static long[] multiples(long lo, long hi) {
    java.util.Random rnd = new java.util.Random(lo);
    java.util.TreeSet<Long> r = new java.util.TreeSet<>();
    for (int j = 0; j < 17; j++)
      for (int i = 0; i < 40; i++) {
        long x = lo + (long) (rnd.nextDouble() * (hi - lo)), y = x / TF.P10[j] * TF.P10[j];
        if (y >= lo && y <= hi) r.add(y);
        y += 1 + rnd.nextInt(9);
        if (y >= lo && y <= hi) r.add(y);
      }
    return r.stream().mapToLong(x -> x).toArray();
  }

  /** doubles of one binade where roundings are exact, tie or change length */
  private static void hints(Engine e, Object v) {
    if (!(v instanceof Term)) return;
    Term b = (Term) v;
    if (b.op != Term.Op.LIN || b.a.length != 1 || b.k[1] != 1 || b.a[0].op != Term.Op.VAR) return;
    e.solver.hints.put(b.a[0], () -> values(b));
  }

  private static long[] values(Term b) {
    long base = b.k[0], max = (1L << 52) - 1;
    java.util.Random rnd = new java.util.Random(base);
    java.util.TreeSet<Long> r = new java.util.TreeSet<>();
    for (int i = 0; i <= 52; i++)
      for (int j = 0; j < 40; j++) r.add((2 * (rnd.nextLong() & max) + 1 << i) & max);
    for (int i = 0; i < 52; i++)
      for (int j = -2; j <= 2; j++) {
        r.add((1L << i) + j & max);
        r.add(max + 1 - (1L << i) + j & max);
      }
    for (long i = 0; i < 64; i++) r.add(i);
    double lo = Double.longBitsToDouble(base);
    int p = (int) Math.floor(Math.log10(lo == 0 ? Double.MIN_VALUE : lo));
    for (int w = p - 3; w <= p + 1; w++)
      for (int d = 1; d < 1100; d++) {
        double x = Double.parseDouble(d + "E" + w);
        long t = Double.doubleToRawLongBits(x) - base;
        for (long u = t - 1; u <= t + 1; u++) if (u >= 0 && u <= max) r.add(u);
      }
    long[] h = new long[r.size()];
    int n = 0;
    for (long x : r) if (x >= b.a[0].lo && x <= b.a[0].hi) h[n++] = x;
    return java.util.Arrays.copyOf(h, n);
  }
}
