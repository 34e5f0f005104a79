package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import sym.Harness;
import sym.Sym;

/** The field width, related to the output without one. */
public final class WidthHarness {
  static final String INTS = "diuoxX", FLOATS = "fFeEgGaA", TEXTS = "sSc";

  static String padded(String t, char conv, boolean number, int mask, int width, int prec, boolean finite) {
    boolean zeros = number && finite && Ref.has(mask, Ref.ZERO) && !Ref.has(mask, Ref.MINUS) && (FLOATS.indexOf(conv) >= 0 || prec < 0);
    if (!zeros) return Ref.pad(t, mask, width);
    int k = 0;
    if (t.charAt(0) == '-' || t.charAt(0) == '+' || t.charAt(0) == ' ') k = 1;
    if (t.length() > k + 1 && t.charAt(k) == '0' && (t.charAt(k + 1) == 'x' || t.charAt(k + 1) == 'X')) k += 2;
    StringBuilder sb = new StringBuilder();
    sb.append(t, 0, k);
    Sym.rep(sb, '0', width - t.length());
    return sb.append(t, k, t.length()).toString();
  }

  private interface Put {
    Args to(Args a);
  }

  private static void check(char conv, boolean number, boolean finite, Put put) {
    int mask = Sym.choose("flags", 32);
    boolean p = Sym.choose("hasPrecision", 2) == 1;
    int prec = p ? precision(conv) : -1;
    int width = Sym.intIn("width", 0, Ref.MAX);
    Args a = Args.create(), b = Args.create().putInt(width);
    if (p) {
      a.putInt(prec);
      b.putInt(prec);
    }
    String plain = FastPrintf.compile(Ref.directive(mask, false, p, conv)).format(put.to(a));
    String got = FastPrintf.compile(Ref.directive(mask, true, p, conv)).format(put.to(b));
    Sym.out(got);
    Sym.check(got.length() == Math.max(width, plain.length()), "%" + conv + " length");
    Sym.checkEq(got, padded(plain, conv, number, mask, width, prec, finite), "%" + conv + " with a width");
  }

  private static int precision(char conv) {
    if (FLOATS.indexOf(conv) < 0) return Sym.intIn("precision", 0, Ref.MAX);
    return new int[] {0, 1, 2, 4, 15}[Sym.choose("precision", 5)];
  }

  @Harness(property = "C09", bounds = "d i u o x X of all longs, 32 flag sets, width 0..65536, precision absent or 0..65536")
  public static void integers() {
    char conv = INTS.charAt(Sym.choose("conv", 6));
    long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
    check(conv, true, true, a -> a.putLong(v));
  }

  @Harness(property = "C09", bounds = "d i u o x X of all bytes, shorts and ints, 32 flag sets, width 0..65536, no precision or 0..65536")
  public static void small() {
    char conv = INTS.charAt(Sym.choose("conv", 6));
    int type = Sym.choose("type", 3);
    int v = type == 0 ? Sym.intIn("v", -128, 127) : type == 1 ? Sym.intIn("v", -32768, 32767) : Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
    check(conv, true, true, a -> type == 0 ? a.putByte((byte) v) : type == 1 ? a.putShort((short) v) : a.putInt(v));
  }

  @Harness(property = "C09", bounds = "f F e E g G of 2-digit decimals at 3 point positions with both signs and of both zeros; a A of 3-digit fractions; 32 flag sets, width 0..65536, precision absent or 0, 1, 2, 4, 15")
  public static void floats() {
    char conv = FLOATS.charAt(Sym.choose("conv", 8));
    double v;
    if (conv == 'a' || conv == 'A') v = Double.longBitsToDouble((1000L + 40 * Sym.choose("exponent", 2) << 52) + (Sym.longIn("fraction", 0, 0xFFF) << 40));
    else {
      int c = Sym.choose("point", 4);
      v = c == 3 ? 0.0 : Sym.decimalDouble("v", 2, new int[] {-6, -1, 8}[c], new int[] {-6, -1, 8}[c]);
    }
    double w = Sym.choose("neg", 2) == 1 ? -v : v;
    check(conv, true, true, a -> a.putDouble(w));
  }

  @Harness(property = "C09", bounds = "f F e E g G a A of NaN and the infinities; 32 flag sets, width 0..65536, precision absent or 0, 1, 2, 4, 15")
  public static void special() {
    char conv = FLOATS.charAt(Sym.choose("conv", 8));
    double v = new double[] {Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY}[Sym.choose("value", 3)];
    check(conv, true, false, a -> a.putDouble(v));
  }

  @Harness(property = "C09", bounds = "s S c of texts of 1..2 arbitrary chars and of a run of 0..65536 chars, p of an object; 32 flag sets, width 0..65536, precision absent or 0..65536")
  public static void texts() {
    int k = Sym.choose("conv", 4);
    if (k == 3) {
      Object o = new Object();
      check('p', false, false, a -> a.put(o));
      return;
    }
    char conv = TEXTS.charAt(k);
    if (k == 0 && Sym.choose("run", 2) == 1) {
      StringBuilder sb = new StringBuilder();
      Sym.rep(sb, Sym.ch("c", TextHarness.MIN, TextHarness.MAX), Sym.intIn("count", 0, Ref.MAX));
      String t = sb.toString();
      check(conv, false, false, a -> a.putString(t));
      return;
    }
    String t = Sym.str("t", 1 + Sym.choose("length", 2), TextHarness.MIN, TextHarness.MAX);
    check(conv, false, false, a -> a.putString(t));
  }
}
