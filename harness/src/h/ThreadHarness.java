package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.LocalDateTime;
import java.time.ZoneOffset;
import java.util.Date;
import sym.Harness;
import sym.Sym;

/**
 * Calls of several threads on the same objects. The obligation is that no call writes anything that
 * another thread's call can see, which settles every schedule at once. If one does, the calls are
 * run with a second thread's call at each place of the first that touches what was written, and the
 * results have to be those of the calls running alone.
 */
public final class ThreadHarness {
  private static final String[] FORMATS = {
    "%d|%*d", "%-8.3d%+d", "%x%#o", "%u%X", "%s,%S", "%10.4s%c", "%f", "%.3e%g", "%a", "%s%d%%", "%*.*f", "%t", "%T{yyyy}", "[%p]",
    "%s%s", "%t{ss}|%T", "%d,%x", "%f|%e", "%g|%.2a", "%d%d", "%60d%-70s", "%d", "%S%s", "%d/%s",
    "%.*s|%*s", "%.*f", "%*x,%.*d", "%#G%A", "%c%i%F", "%-*u%%%.2S"
  };

  private static FastPrintf configure(FastPrintf f, int config) {
    switch (config) {
      case 0:
        return f;
      case 1:
        return f.enableThreadLocalCache();
      case 2:
        return f.setStringBuilderInitialCapacity(70000).enableThreadLocalCache();
      default:
        return f.enableThreadLocalCache().setStringBuilderInitialCapacity(3);
    }
  }

  private static Args args(int format, int v, int w, double d, Object shared) {
    switch (format) {
      case 0:
        return Args.create().putInt(v).putInt(w).putLong(v);
      case 1:
        return Args.of(v, (short) v);
      case 2:
        return Args.create().putInt(v).put((long) v);
      case 3:
        return Args.of(v, BigInteger.valueOf(v));
      case 4:
        return Args.of("ab" + v, "cd" + v);
      case 5:
        return Args.create().putCharSequence(new StringBuilder("abc").append(v)).putInt(v & 127);
      case 6:
        return Args.create().putDouble(d);
      case 7:
        return Args.of(d, new BigDecimal("12.25"));
      case 8:
        return Args.create().putDouble(d);
      case 9:
        return Args.of(v > 0, v);
      case 10:
        return Args.create().putInt(w).putInt(2).putDouble(d);
      case 11:
      case 12:
        return Args.of(LocalDateTime.ofEpochSecond(v + 100000, 0, ZoneOffset.UTC));
      case 14:
        return Args.of(new Object[] {v, "x"}, new byte[] {1, (byte) w});
      case 15:
        return Args.of(new Date(v + 5000000L), v + 1000L);
      case 16:
        return Args.of("12" + w, new BigInteger("123456789012345678901"));
      case 17:
        return Args.of(BigDecimal.valueOf(125 * (long) d, 2), BigDecimal.valueOf(25 + (long) d, 40));
      case 18:
        return Args.create().putFloat(1.5f + (float) d).putDouble(0x1.2345p9 + d);
      case 19:
        return Args.of(v);
      case 20:
        return Args.of(v, "t" + v);
      case 21:
        return Args.of(v > 0 ? null : "word");
      case 22:
        return Args.of(new int[] {v, w}, new char[] {'a', 'b'});
      case 23:
        return Args.of(new Date(v + 5000000L), new StringBuilder("b").append(w));
      case 24:
        return Args.of(w, "abcdefgh", w, "t" + v);
      case 25:
        return Args.create().putInt(w).putDouble(d);
      case 26:
        return Args.create().putInt(w).putInt(v).putInt(w).putLong(v);
      case 27:
        return Args.of(d, -d);
      case 28:
        return Args.of((char) (v & 127), v, 2.5f + (float) d);
      case 29:
        return Args.of(w, v, "xyz" + v);
      default:
        return Args.of(shared);
    }
  }

  private static String format(FastPrintf f, Args a) {
    try {
      return f.format(a);
    } catch (RuntimeException e) {
      return "!" + e.getClass().getName() + e.getMessage();
    }
  }

  private static String into(FastPrintf f, Args a) {
    try {
      return f.format(new SeqHarness.Sink(), a).sb.substring(1);
    } catch (RuntimeException e) {
      return "!" + e.getClass().getName() + e.getMessage();
    }
  }

  private static void compare(Sym.Setup setup, String[] alone) {
    String[] r = Sym.interleave(setup);
    for (int i = 0; i < 6; i++)
      if (i < 3 || r[3] != null) Sym.checkEq(r[i], alone[i % 3], "not what the call returns alone");
    for (String s : alone) Sym.out(s);
  }

  private static Args[] three(int format) {
    Args[] a = new Args[3];
    Object shared = new Object();
    int last = Sym.choose("last", 2);
    for (int i = 0; i < 2; i++) {
      boolean star = FORMATS[format].indexOf('*') >= 0;
      int v = i == 0 ? Sym.intIn("v0", -130, 130) : Sym.intIn("v1", 10, 99);
      int w = i == 0 ? Sym.intIn("w0", star ? -5 : 0, 6) : Sym.intIn("w1", star ? -2 : 0, 2);
      double d = format == 6 || format == 7 || format == 10 || format == 25 ? Sym.decimalDouble("d" + i, 3, -1, -1) : format == 8 || format == 17 || format == 18 || format >= 24 ? 1 + i : 0;
      a[i] = args(format, v, w, d, shared);
      if (i == last) a[2] = args(format, v, w, d, shared);
    }
    return a;
  }

  @Harness(property = "C16", bounds = "3 threads' calls on one formatter; 30 formats covering every conversion and kind of argument; 4 cache settings; ints -130..130 and 10..99, '*' values -5..6 and -2..2, 3-digit decimals; any schedule if no call writes shared state, otherwise the second call at any point of the first")
  public static void shared() {
    int n = Sym.choose("format", FORMATS.length), config = Sym.choose("config", 4);
    Args[] a = three(n);
    String[] alone = new String[3];
    for (int i = 0; i < 3; i++) alone[i] = format(FastPrintf.compile(FORMATS[n]), a[i]);
    compare(() -> {
      FastPrintf f = configure(FastPrintf.compile(FORMATS[n]), config);
      return new Sym.Call[] {() -> format(f, a[0]), () -> format(f, a[1]), () -> format(f, a[2])};
    }, alone);
  }

  @Harness(property = "C16", mode = "jdk8", bounds = "as for shared on a runtime without the newer primitives; 5 formats with long runs and floating-point numbers")
  public static void older() {
    int n = new int[] {1, 7, 17, 20, 25}[Sym.choose("format", 5)], config = Sym.choose("config", 2);
    Args[] a = three(n);
    String[] alone = new String[3];
    for (int i = 0; i < 3; i++) alone[i] = format(FastPrintf.compile(FORMATS[n]), a[i]);
    compare(() -> {
      FastPrintf f = configure(FastPrintf.compile(FORMATS[n]), config);
      return new Sym.Call[] {() -> format(f, a[0]), () -> format(f, a[1]), () -> format(f, a[2])};
    }, alone);
  }

  @Harness(property = "C16", bounds = "as for shared, the formatter having been used before by another thread, or the output going to an Appendable")
  public static void used() {
    int n = Sym.choose("format", FORMATS.length), config = Sym.choose("config", 2);
    Args[] a = three(n);
    boolean sink = Sym.choose("sink", 2) == 1;
    String[] alone = new String[3];
    for (int i = 0; i < 3; i++) alone[i] = format(FastPrintf.compile(FORMATS[n]), a[i]);
    compare(() -> {
      FastPrintf f = configure(FastPrintf.compile(FORMATS[n]), config);
      format(f, a[1]);
      Sym.Call c = () -> sink ? into(f, a[0]) : format(f, a[0]);
      return new Sym.Call[] {c, () -> format(f, a[1]), () -> format(f, a[2])};
    }, alone);
  }

  @Harness(property = "C16", bounds = "threads compiling and configuring formatters, or formatting one shared argument list; 30 formats")
  public static void compiled() {
    int n = Sym.choose("format", FORMATS.length);
    Args[] a = three(n);
    int kind = Sym.choose("kind", 3), m = kind == 1 ? (n + 1) % FORMATS.length : n;
    Args b = kind == 1 ? three(m)[1] : kind == 2 ? a[0] : a[1];
    // the formats of two compiling threads end in different texts
    String one = FORMATS[n] + (kind == 1 ? "; ab" : ""), two = FORMATS[m] + (kind == 1 ? " cde" : "");
    String[] alone = {format(FastPrintf.compile(one), a[0]), format(FastPrintf.compile(two), b), format(FastPrintf.compile(one), a[2])};
    compare(() -> {
      FastPrintf f = FastPrintf.compile(one);
      Sym.Call first = () -> format(kind == 0 ? f.enableThreadLocalCache() : kind == 1 ? FastPrintf.compile(one) : f, a[0]);
      Sym.Call second = () -> format(kind == 0 ? f.setStringBuilderInitialCapacity(9).enableThreadLocalCache() : kind == 1 ? FastPrintf.compile(two) : f, b);
      return new Sym.Call[] {first, second, () -> format(f, a[2])};
    }, alone);
  }
}
