package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import sym.Harness;
import sym.Sym;

/** The same text with and without the operations that newer runtimes add. */
public final class RuntimeHarness {
  private static final int[] MASKS = {Ref.SPACE, Ref.MINUS, Ref.ALT | Ref.ZERO, Ref.PLUS | Ref.ZERO};

  /** the formatted text as a string or behind text that a builder already has */
  private static String format(FastPrintf f, Args a) {
    if (Sym.choose("target", 2) == 0) return f.format(a);
    StringBuilder sb = new StringBuilder("<");
    f.format(sb, a);
    return sb.substring(1);
  }

  @Harness(property = "C19", mode = "jdk21,jdk8", bounds = "d x X o of -999..99999 (thorough: all longs), 4 flag sets, width or precision (thorough: also both) 0..65536, to a String or behind text in a builder")
  public static void integers() {
    char conv = "dxXo".charAt(Sym.choose("conv", 4));
    int mask = MASKS[Sym.choose("flags", MASKS.length)];
    int field = Sym.choose("field", Sym.thorough() ? 3 : 2);
    int width = field != 0 ? Sym.intIn("width", 0, Ref.MAX) : -1;
    int prec = field != 1 ? Sym.intIn("precision", 0, Ref.MAX) : -1;
    long v = Sym.thorough() ? Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE) : Sym.longIn("v", -999, 99999);
    Args a = Args.create();
    if (width >= 0) a.putInt(width);
    if (prec >= 0) a.putInt(prec);
    String got = format(FastPrintf.compile(Ref.directive(mask, width >= 0, prec >= 0, conv)), a.putLong(v));
    Sym.out(got);
    String head = "", mag;
    if (conv == 'd') {
      head = Ref.sign(v < 0, mask);
      mag = Ref.digits(Ref.magnitude(v), v == 0, prec);
    } else {
      mag = Ref.digits(conv == 'o' ? Long.toOctalString(v) : conv == 'x' ? Long.toHexString(v) : Sym.upper(Long.toHexString(v)), v == 0, prec);
      if (Ref.has(mask, Ref.ALT)) {
        if (conv != 'o') head = v == 0 ? "" : "0" + conv;
        else if (mag.isEmpty() || mag.charAt(0) != '0') mag = "0" + mag;
      }
    }
    Sym.checkEq(got, Ref.number(head, mag, mask, width, prec < 0), "%" + conv);
  }

  @Harness(property = "C19", mode = "jdk21,jdk8", bounds = "f e g of doubles of 3 digits (thorough: 1 and 4) at 4 point positions, 4 flag sets, width absent or 0..65536, every precision up to 65536 (with a width: up to 16 in quick), to a String or behind text in a builder")
  public static void floats() {
    char conv = "feg".charAt(Sym.choose("conv", 3));
    FloatHarness.n = Sym.thorough() ? 1 + 3 * Sym.choose("digits", 2) : 3;
    int k = new int[] {-6, 0, 2, 9}[Sym.choose("point", 4)];
    FloatHarness.e = k - FloatHarness.n;
    int mask = MASKS[Sym.choose("flags", MASKS.length)];
    int width = Sym.choose("hasWidth", 2) == 1 ? Sym.intIn("width", 0, Ref.MAX) : -1;
    int prec = FloatHarness.precision(conv);
    if (!Sym.thorough() && width >= 0 && prec > 16) Sym.assume(false);
    boolean neg = Sym.choose("neg", 2) == 1;
    double v = Sym.decimalDouble("v", FloatHarness.n, FloatHarness.e, FloatHarness.e);
    long f = Sym.decimalDigits("v");
    Args a = Args.create();
    if (width >= 0) a.putInt(width);
    if (prec >= 0) a.putInt(prec);
    String got = format(FastPrintf.compile(Ref.directive(mask, width >= 0, prec >= 0, conv)), a.putDouble(neg ? -v : v));
    Sym.out(got);
    String body = Ref.body(conv, f, FloatHarness.n, FloatHarness.e, prec, Ref.has(mask, Ref.ALT));
    Sym.checkEq(got, Ref.number(Ref.sign(neg, mask), body, mask, width, true), "%" + conv);
  }

  @Harness(property = "C19", mode = "jdk21,jdk8", bounds = "s S c of 0..2 arbitrary chars and of a run of 0..65536 equal chars, literal text before and after, left or right justified, width and precision absent or 0..65536, to a String or behind text in a builder")
  public static void texts() {
    char conv = "sSc".charAt(Sym.choose("conv", 3));
    String t;
    if (conv == 's' && Sym.choose("run", 2) == 1) {
      StringBuilder sb = new StringBuilder();
      Sym.rep(sb, Sym.ch("c", TextHarness.MIN, TextHarness.MAX), Sym.intIn("count", 0, Ref.MAX));
      t = sb.toString();
    } else t = Sym.str("t", conv == 'c' ? 1 : Sym.choose("length", 3), TextHarness.MIN, conv == 'S' ? (char) 126 : TextHarness.MAX);
    int mask = Sym.choose("left", 2) == 1 ? Ref.MINUS : 0;
    int width = Sym.choose("hasWidth", 2) == 1 ? Sym.intIn("width", 0, Ref.MAX) : -1;
    int prec = conv != 'c' && Sym.choose("hasPrecision", 2) == 1 ? Sym.intIn("precision", 0, Ref.MAX) : -1;
    Args a = Args.create();
    if (width >= 0) a.putInt(width);
    if (prec >= 0) a.putInt(prec);
    if (conv == 'c') a.putChar(t.charAt(0));
    else a.putString(t);
    String got = format(FastPrintf.compile("[" + Ref.directive(mask, width >= 0, prec >= 0, conv) + "]"), a);
    Sym.out(got);
    String s = prec >= 0 && prec < t.length() ? t.substring(0, prec) : t;
    Sym.checkEq(got, "[" + Ref.pad(conv == 'S' ? Sym.upper(s) : s, mask, width) + "]", "%" + conv);
  }

  @Harness(property = "C19", mode = "jdk8", bounds = "the high half of the product of all pairs of longs")
  public static void product() {
    ShortestHarness.product();
  }
}
