package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import sym.Harness;
import sym.Sym;

/** Widths and precisions taken from arguments, compared with literal ones. */
public final class StarHarness {
  private static final String CONVS = "dufaxoegsSciXFEGAnp%";

  private interface Value {
    Args to(Args a);
  }

  private static char conv() {
    return CONVS.charAt(Sym.choose("conv", CONVS.length()));
  }

  private static Value value(char conv) {
    switch (conv) {
      case 'f':
      case 'F':
      case 'e':
      case 'E':
      case 'g':
      case 'G':
        double d = Sym.decimalDouble("v", 2, -1, -1);
        return a -> a.putDouble(d);
      case 'a':
      case 'A':
        double h = Double.longBitsToDouble((0x3FFL << 52) + (Sym.longIn("fraction", 0, 0xFF) << 44));
        return a -> a.putDouble(h);
      case 's':
      case 'S':
      case 'c':
        String t = Sym.str("t", 2, TextHarness.MIN, TextHarness.MAX);
        return a -> a.putString(t);
      case 'p':
        Object o = new Object();
        return a -> a.put(o);
      default:
        int i = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
        return a -> a.putInt(i);
    }
  }

  /** the output, or null for PrintfException */
  private static String run(String format, Args a) {
    try {
      return FastPrintf.compile(format).format(a);
    } catch (PrintfException e) {
      return null;
    }
  }

  /** a '*' argument given as one of the integer types */
  private static Args star(int v) {
    switch (v >= -128 && v <= 127 ? Sym.choose("as", 3) : 0) {
      case 1:
        return Args.create().putByte((byte) v);
      case 2:
        return Args.create().put(Long.valueOf(v));
      default:
        return Args.create().putInt(v);
    }
  }

  @Harness(property = "C10", bounds = "20 conversions, 32 flag sets, every '*' width 0..65536 against the same literal width, symbolic argument values")
  public static void width() {
    char conv = conv();
    int mask = Sym.choose("flags", 32);
    int w = Sym.intIn("width", 0, Ref.MAX);
    Value v = value(conv);
    String got = run("%" + Ref.flags(mask) + "*" + conv, v.to(star(w)));
    Sym.out(got);
    Sym.checkEq(got, run("%" + Ref.flags(mask) + (w == 0 ? "" : Integer.toString(w)) + conv, v.to(Args.create())), "* width of %" + conv);
  }

  @Harness(property = "C10", bounds = "20 conversions, 32 flag sets, every negative '*' width -1..-65536 against the - flag with the same literal width, symbolic argument values")
  public static void negativeWidth() {
    char conv = conv();
    int mask = Sym.choose("flags", 32);
    int w = Sym.intIn("width", 1, Ref.MAX);
    Value v = value(conv);
    String got = run("%" + Ref.flags(mask) + "*" + conv, v.to(star(-w)));
    Sym.out(got);
    Sym.checkEq(got, run("%" + Ref.flags(mask | Ref.MINUS) + Integer.toString(w) + conv, v.to(Args.create())), "negative * width of %" + conv);
  }

  @Harness(property = "C10", bounds = "20 conversions, 32 flag sets (8 for floating point), with and without a '*' width, every '*' precision 0..65536 (0..5 for f e a, 0..3 for g) against the same literal precision, symbolic argument values")
  public static void precision() {
    char conv = conv();
    int mask = Sym.choose("flags", 32);
    boolean w = Sym.choose("hasWidth", 2) == 1;
    int p = "fFeEaA".indexOf(conv) >= 0 ? Sym.choose("precision", 6) : "gG".indexOf(conv) >= 0 ? Sym.choose("precision", 4) : Sym.intIn("precision", 0, Ref.MAX);
    int width = w ? Sym.intIn("width", -9, 9) : 0;
    Value v = value(conv);
    Args a = Args.create(), b = Args.create();
    if (w) {
      a.putInt(width);
      b.putInt(width);
    }
    String got = run(Ref.directive(mask, w, true, conv), v.to(a.putInt(p)));
    Sym.out(got);
    Sym.checkEq(got, run("%" + Ref.flags(mask) + (w ? "*" : "") + "." + Integer.toString(p) + conv, v.to(b)), ".* precision of %" + conv);
  }

  @Harness(property = "C10", bounds = "20 conversions, 32 flag sets, with and without a '*' width, every negative '*' precision against no precision, symbolic argument values")
  public static void negativePrecision() {
    char conv = conv();
    int mask = Sym.choose("flags", 32);
    boolean w = Sym.choose("hasWidth", 2) == 1;
    int width = w ? Sym.intIn("width", 0, Ref.MAX) : 0;
    int p = Sym.intIn("precision", Integer.MIN_VALUE, -1);
    Value v = value(conv);
    Args a = Args.create(), b = Args.create();
    if (w) {
      a.putInt(width);
      b.putInt(width);
    }
    String got = run(Ref.directive(mask, w, true, conv), v.to(a.putInt(p)));
    Sym.out(got);
    Sym.checkEq(got, run(Ref.directive(mask, w, false, conv), v.to(b)), "negative * precision of %" + conv);
  }

  @Harness(property = "C10", bounds = "20 conversions, 32 flag sets, every int as '*' width or precision: accepted or rejected exactly at the limit")
  public static void limits() {
    char conv = conv();
    int mask = Sym.choose("flags", 32);
    boolean p = Sym.choose("precision", 2) == 1;
    int n = Sym.intIn("n", Integer.MIN_VALUE, Integer.MAX_VALUE);
    boolean ok = n <= Ref.MAX && (p || n >= -Ref.MAX);
    Args a = "fFeEgGaA".indexOf(conv) >= 0 ? Args.create().putInt(n).putDouble(1.5) : conv == 'p' ? Args.create().putInt(n).put(new Object()) : "sSc".indexOf(conv) >= 0 ? Args.create().putInt(n).putString("xy") : Args.create().putInt(n).putInt(7);
    String got = run("%" + Ref.flags(mask) + (p ? ".*" : "*") + conv, a);
    Sym.check((got != null) == ok, "limit of " + (p ? ".*" : "*") + " in %" + conv);
  }

  @Harness(property = "C10", bounds = "every int, or every value of the smaller types, as byte, short, int, long, char, primitive or boxed, AtomicInteger or (-70000..70000) decimal text: as '*' width and precision of %d and %s the same as an int")
  public static void types() {
    int type = Sym.choose("type", 10);
    int v = type == 0 || type == 1 ? Sym.intIn("v", -128, 127) : type == 2 || type == 3 ? Sym.intIn("v", -32768, 32767) : type == 4 ? Sym.intIn("v", 0, 65535) : type == 8 ? Sym.intIn("v", -70000, 70000) : Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
    Args a = Args.create();
    switch (type) {
      case 0:
        a.putByte((byte) v);
        break;
      case 1:
        a.put(Byte.valueOf((byte) v));
        break;
      case 2:
        a.putShort((short) v);
        break;
      case 3:
        a.put(Short.valueOf((short) v));
        break;
      case 4:
        a.putChar((char) v);
        break;
      case 5:
        a.put(new Integer(v));
        break;
      case 6:
        a.putLong(v);
        break;
      case 7:
        a.put(new Long(v));
        break;
      case 8:
        a.putString(Integer.toString(v));
        break;
      default:
        a.put(new java.util.concurrent.atomic.AtomicInteger(v));
    }
    boolean p = Sym.choose("precision", 2) == 1;
    String f = (p ? "%.*" : "%*") + (Sym.choose("text", 2) == 1 ? "s" : "d");
    String got = run(f, a.putInt(-7)), want = run(f, Args.create().putInt(v).putInt(-7));
    Sym.check((got == null) == (want == null), "accepted like an int");
    if (got != null) Sym.checkEq(got, want, "like an int");
  }

  @Harness(property = "C10", bounds = "20 conversions, 4 flag sets, every literal width or precision of 1..10 digits that fits an int: accepted or rejected exactly at the limit")
  public static void literalLimits() {
    char conv = conv();
    int mask = new int[] {0, 1, 16, 31}[Sym.choose("flags", 4)];
    boolean p = Sym.choose("precision", 2) == 1;
    int n = Sym.intIn("n", 1, Integer.MAX_VALUE);
    boolean ok;
    try {
      FastPrintf.compile("%" + Ref.flags(mask) + (p ? "." : "") + Integer.toString(n) + conv);
      ok = true;
    } catch (PrintfException e) {
      ok = false;
    }
    Sym.check(ok == n <= Ref.MAX, "literal limit in %" + conv);
  }
}
