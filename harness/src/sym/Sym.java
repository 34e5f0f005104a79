package sym;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/**
 * Symbolic inputs and obligations. The checker intercepts these methods; the bodies below give the
 * same harness a concrete meaning, so that a path or counterexample can be replayed on the real code.
 */
public final class Sym {
  static Map<String, Long> values = new HashMap<>();
  static Map<String, Integer> used = new HashMap<>();
  static List<String> outs = new ArrayList<>();

  private Sym() {}

  public static final class Failed extends Error {
    Failed(String m) {
      super(m);
    }
  }

  public static final class Skip extends Error {
    Skip(String m) {
      super(m);
    }
  }

  static boolean lenient;

  static void reset(Map<String, Long> v, boolean len) {
    values = v;
    lenient = len;
    used = new HashMap<>();
    outs = new ArrayList<>();
    other = null;
  }

  private static String fresh(String n) {
    Integer k = used.get(n);
    k = k == null ? 1 : k + 1;
    used.put(n, k);
    return k == 1 ? n : n + "#" + k;
  }

  private static long get(String n) {
    return get(n, 0);
  }

  private static long get(String n, long dflt) {
    Long v = values.get(n);
    if (v == null && lenient) return dflt;
    if (v == null) throw new Skip("no value for " + n);
    return v;
  }

  public static int intIn(String name, int lo, int hi) {
    return (int) longIn(name, lo, hi);
  }

  public static long longIn(String name, long lo, long hi) {
    long v = get(fresh(name), lo > 0 || hi < 0 ? lo : 0);
    if (v < lo || v > hi) throw new Skip("out of range " + name);
    return v;
  }

  public static boolean bool(String name) {
    return get(fresh(name)) != 0;
  }

  public static char ch(String name, char lo, char hi) {
    return (char) longIn(name, lo, hi);
  }

  /** explicit case split */
  public static int choose(String name, int n) {
    return (int) get(fresh(name));
  }

  public static String str(String name, int len, char lo, char hi) {
    String n = fresh(name);
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < len; i++) sb.append((char) get(n + "." + i, lo));
    return sb.toString();
  }

  public static double doubleBits(String name) {
    return Double.longBitsToDouble(get(fresh(name)));
  }

  public static float floatBits(String name) {
    return Float.intBitsToFloat((int) get(fresh(name)));
  }

  /** a positive finite double whose shortest decimal is f * 10^e, f having the given number of digits */
  public static double decimalDouble(String name, int digits, int elo, int ehi) {
    String n = fresh(name);
    BigDecimal d = BigDecimal.valueOf(get(n + ".f", BigDecimal.ONE.movePointRight(digits - 1).longValue()), (int) -get(n + ".e", elo));
    double v = d.doubleValue();
    if (v == 0 || Double.isInfinite(v) || new BigDecimal(Double.toString(v)).compareTo(d) != 0)
      throw new Skip("not a shortest decimal: " + d);
    return v;
  }

  /** a positive finite double whose shortest decimal is f * 10^e, f having the given numbers of decimal and binary digits */
  public static double decimalOf(String name, int digits, int bits, int e) {
    return decimalDouble(name, digits, e, e);
  }

  /** the digits of the latest decimalDouble of that name */
  public static long decimalDigits(String name) {
    Integer k = used.get(name);
    return get((k == 1 ? name : name + "#" + k) + ".f");
  }

  public static BigInteger bigDigits(String name, int n) {
    return new BigInteger(str(name, n, '0', '9'));
  }

  /** the value of the 64 bits read as an unsigned number */
  public static BigInteger unsignedBig(long v) {
    return new BigInteger(Long.toUnsignedString(v));
  }

  public static BigInteger bigHex(String name, int n) {
    return bigPow2(name, n, 4);
  }

  public static BigInteger bigOct(String name, int n) {
    return bigPow2(name, n, 3);
  }

  private static BigInteger bigPow2(String name, int n, int bits) {
    String m = fresh(name);
    BigInteger v = BigInteger.ZERO;
    for (int i = 0; i < n; i++) v = v.shiftLeft(bits).add(BigInteger.valueOf(get(m + "." + i)));
    return v;
  }

  public static void assume(boolean c) {
    if (!c) throw new Skip("assumption");
  }

  public static void check(boolean c, String msg) {
    if (!c) throw new Failed(msg);
  }

  public static void checkEq(String a, String b, String msg) {
    if (a == null ? b != null : !a.equals(b)) throw new Failed(msg + ": <" + a + "> expected <" + b + ">");
  }

  public static void fail(String msg) {
    throw new Failed(msg);
  }

  public static void cover(String what) {}

  public static void out(String s) {
    outs.add(s == null ? "<null>" : s);
  }

  public static void rep(StringBuilder sb, char c, int n) {
    for (int i = 0; i < n; i++) sb.append(c);
  }

  /** the text with a-z replaced by A-Z */
  public static String upper(String s) {
    char[] c = s.toCharArray();
    for (int i = 0; i < c.length; i++) if (c[i] >= 'a' && c[i] <= 'z') c[i] -= 32;
    return new String(c);
  }

  public static boolean thorough() {
    return Boolean.getBoolean("sym.thorough");
  }

  /** true when running on a real virtual machine */
  public static boolean isNative() {
    return true;
  }

  public static void resetDepth() {}

  /** deepest interpreted call chain since resetDepth, relative to the caller */
  public static int maxDepth() {
    return 0;
  }

  /** from here on, everything allocated so far counts as shared between threads */
  public static void share() {}

  /** description of the first write to shared state since share(), or null */
  public static String sharedWrite() {
    return null;
  }

  public static void unshare() {}

  /** switches the thread whose thread-local values are visible */
  public static void thread(int id) {}

  /** case split on the value */
  public static int concrete(int v) {
    return v;
  }

  public static void trace(String s) {}

  /** from here on the shortest decimal of a double not given by its decimal is some decimal */
  public static void abstractDecimals() {}

  /** from here on the checker does not decide whether a branch on a product of variables can be taken */
  public static void opaqueProducts() {}

  /** from here on the solver gets more time for a query */
  public static void patient() {}

  /** the decimal that JDK 21's Double.toString selects for v > 0, as d.ddddddddddddddddde+xx */
  public static String shortest(double v) {
    BigDecimal x = new BigDecimal(v);
    for (int n = 1; n <= 17; n++) {
      if (near(x, n, v) == null) continue;
      BigDecimal d = near(x, Math.max(n, 2), v);
      StringBuilder t = new StringBuilder(d.unscaledValue().toString());
      int e = t.length() - 1 - d.scale();
      t.insert(1, '.');
      while (t.length() < 19) t.append('0');
      return t + (e < 0 ? "e-" : "e+") + (Math.abs(e) < 10 ? "0" : "") + Math.abs(e);
    }
    throw new IllegalStateException();
  }

  /** what JDK 21's Double.toString gives */
  public static String javaText(double v) {
    if (v != v) return "NaN";
    String sign = Double.doubleToRawLongBits(v) < 0 ? "-" : "";
    if (Double.isInfinite(v)) return sign + "Infinity";
    if (v == 0) return sign + "0.0";
    String s = shortest(Math.abs(v));
    int x = Integer.parseInt(s.substring(s.indexOf('e') + 1));
    StringBuilder d = new StringBuilder(s.substring(0, 1) + s.substring(2, s.indexOf('e')));
    while (d.length() > 2 && d.charAt(d.length() - 1) == '0') d.setLength(d.length() - 1);
    if (x < -3 || x >= 7) return sign + d.insert(1, '.') + "E" + x;
    while (d.length() < x + 2) d.append('0');
    if (x >= 0) {
      d.insert(x + 1, '.');
    } else {
      while (d.length() > 1 && d.charAt(d.length() - 1) == '0') d.setLength(d.length() - 1);
      for (int i = -1; i > x; i--) d.insert(0, '0');
      d.insert(0, "0.");
    }
    // at least one digit behind the point
    while (d.charAt(d.length() - 1) == '0' && d.charAt(d.length() - 2) != '.') d.setLength(d.length() - 1);
    return sign + d;
  }

  /** the decimal of n digits closest to x among those that round to v; on a tie the one with an even last digit */
  private static BigDecimal near(BigDecimal x, int n, double v) {
    BigDecimal a = digits(x.round(new MathContext(n, RoundingMode.DOWN)), n), b = digits(x.round(new MathContext(n, RoundingMode.UP)), n);
    boolean p = Double.parseDouble(a.toString()) == v, q = Double.parseDouble(b.toString()) == v;
    if (!p || !q) return p ? a : q ? b : null;
    int c = x.subtract(a).compareTo(b.subtract(x));
    return c < 0 || c == 0 && !a.unscaledValue().testBit(0) ? a : b;
  }

  private static BigDecimal digits(BigDecimal x, int n) {
    return x.setScale(x.scale() + n - x.precision());
  }

  /** the library's own high 64 bits of the product */
  public static long libraryMultiplyHigh(long x, long y) {
    try {
      java.lang.reflect.Method m = Class.forName("io.fastprintf.util.internal.MultiplyHigh").getDeclaredMethod("multiplyHigh", long.class, long.class);
      m.setAccessible(true);
      return (Long) m.invoke(null, x, y);
    } catch (ReflectiveOperationException e) {
      throw new Skip("no multiply-high helper");
    }
  }

  /** one thread's use of the shared objects */
  public interface Call {
    String call();
  }

  /** makes the shared objects and three threads' calls */
  public interface Setup {
    Call[] make();
  }

  private static Call other;
  private static long countdown;
  private static Thread first;

  /** the results of the calls one after the other, and with the second one run inside the first */
  public static String[] interleave(Setup setup) {
    String[] res = new String[6];
    Call[] c = setup.make();
    for (int i = 0; i < 3; i++) res[i] = onThread(c[i]);
    Long at = values.get("preempt");
    if (at == null) return res;
    c = setup.make();
    Call[] calls = c;
    res[3] = onThread(() -> {
      first = Thread.currentThread();
      countdown = at;
      Call b = calls[1];
      other = () -> res[4] = b.call();
      return calls[0].call();
    });
    if (other != null) {
      if (at > 0) throw new Skip("the point was not reached");
      onThread(other);
      other = null;
    }
    res[5] = onThread(c[2]);
    return res;
  }

  private static String onThread(Call c) {
    String[] r = new String[1];
    Throwable[] thrown = new Throwable[1];
    Thread t = new Thread(() -> {
      try {
        r[0] = c.call();
      } catch (Throwable e) {
        thrown[0] = e;
      }
    });
    t.setDaemon(true);
    t.start();
    try {
      t.join(5000);
    } catch (InterruptedException e) {
      throw new IllegalStateException(e);
    }
    if (t.isAlive()) throw new Skip("the schedule is not possible");
    if (thrown[0] instanceof Error) throw (Error) thrown[0];
    if (thrown[0] != null) throw (RuntimeException) thrown[0];
    return r[0];
  }

  /** called before every access of the woven code */
  public static void point() {
    if (other == null || Thread.currentThread() != first || --countdown != 0) return;
    Call b = other;
    other = null;
    onThread(b);
  }
}
