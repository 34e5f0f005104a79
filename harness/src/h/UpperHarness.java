package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.time.Instant;
import java.time.LocalDate;
import sym.Harness;
import sym.Sym;

/** Each upper-case conversion against its lower-case twin. */
public final class UpperHarness {
  private static String format(String f, Args a) {
    try {
      return FastPrintf.compile(f).format(a);
    } catch (RuntimeException e) {
      return "!" + e.getClass().getName();
    }
  }

  /** up to four of them */
  private static final int[] MASKS = {0, Ref.MINUS | Ref.PLUS, Ref.ZERO | Ref.ALT, Ref.SPACE | Ref.ALT | Ref.MINUS};

  private static void twins(char lower, Args a, int mask, boolean w, boolean p) {
    String s = format("<" + Ref.directive(mask, w, p, lower) + ">", a);
    String u = format("<" + Ref.directive(mask, w, p, (char) (lower - 32)) + ">", a);
    if (s.startsWith("!")) {
      Sym.checkEq(u, s, "only one of the twins fails");
      return;
    }
    Sym.checkEq(u, Sym.upper(s), "not the upper-case text");
    Sym.out(u);
  }

  private static int mask() {
    return MASKS[Sym.choose("mask", MASKS.length)];
  }

  @Harness(property = "C21", bounds = "texts of 0..4 arbitrary chars alone, before or after 13..18 letters; '*' width 0..24 and precision 0..24; 4 flag sets; String and StringBuilder")
  public static void text() {
    String s = Sym.str("s", Sym.choose("length", 5), (char) 0, (char) 0xFFFF);
    int kind = Sym.choose("kind", 3);
    if (kind > 0) {
      String pad = "abcXyz,{[`~'z1/defghij".substring(0, 13 + Sym.choose("more", 6));
      s = kind == 1 ? s + pad : pad + s;
    }
    boolean w = Sym.choose("width", 2) == 1, p = Sym.choose("precision", 2) == 1;
    Args a = Args.create();
    if (w) a.putInt(Sym.intIn("w", 0, 24));
    if (p) a.putInt(Sym.intIn("p", 0, 24));
    if (Sym.choose("builder", 2) == 1) a.putCharSequence(new StringBuilder(s));
    else a.putString(s);
    twins('s', a, Sym.choose("minus", 2) == 1 ? Ref.MINUS : 0, w, p);
  }

  @Harness(property = "C21", bounds = "all longs and ints under %x/%X; '*' width and precision 0..65536; 4 flag sets")
  public static void hex() {
    boolean w = Sym.choose("width", 2) == 1, p = Sym.choose("precision", 2) == 1;
    Args a = Args.create();
    if (w) a.putInt(Sym.intIn("w", 0, Ref.MAX));
    if (p) a.putInt(Sym.intIn("p", 0, Ref.MAX));
    if (Sym.choose("long", 2) == 1) a.putLong(Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE));
    else a.putInt(Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE));
    twins('x', a, mask(), w, p);
  }

  @Harness(property = "C21", bounds = "doubles of 1..6 symbolic decimal digits times 10^{-9,-3,0,12,300}, both signs, zeros, NaN, infinities; BigDecimals; %f, %e, %g; '*' width 0..65536, precision 0..3 or none; 4 flag sets")
  public static void decimal() {
    char c = "feg".charAt(Sym.choose("conversion", 3));
    boolean w = Sym.choose("width", 2) == 1, p = Sym.choose("precision", 2) == 1;
    Args a = Args.create();
    if (w) a.putInt(Sym.intIn("w", 0, Ref.MAX));
    if (p) a.putInt(Sym.choose("p", 4));
    switch (Sym.choose("value", 4)) {
      case 0: {
        int e = new int[] {-9, -3, 0, 12, 300}[Sym.choose("exponent", 5)];
        double d = Sym.decimalDouble("d", 1 + Sym.choose("digits", 2) * 5, e, e);
        a.putDouble(Sym.bool("negative") ? -d : d);
        break;
      }
      case 1:
        a.putDouble(new double[] {0.0, -0.0, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY}[Sym.choose("special", 5)]);
        break;
      case 2:
        a.putFloat(new float[] {0f, -0f, Float.NaN, Float.POSITIVE_INFINITY, Float.NEGATIVE_INFINITY}[Sym.choose("special", 5)]);
        break;
      default:
        a.putBigDecimal(BigDecimal.valueOf(Sym.longIn("v", -99, 99), Sym.choose("scale", 3) * 12 - 12));
    }
    twins(c, a, mask(), w, p);
  }

  @Harness(property = "C21", bounds = "doubles of 3 (thorough 7) binary exponents, non-finite values included (thorough also zeros and subnormals), all fractions, both signs; %a; '*' width 0..40; precision 0, 6, 14 (thorough also 1, 13) or none; 4 flag sets")
  public static void hexFloat() {
    boolean w = Sym.choose("width", 2) == 1, p = Sym.choose("precision", 2) == 1;
    Args a = Args.create();
    if (w) a.putInt(Sym.intIn("w", 0, 40));
    if (p) a.putInt(new int[] {0, 6, 14, 1, 13}[Sym.choose("p", Sym.thorough() ? 5 : 3)]);
    long fraction = Sym.longIn("fraction", 0, (1L << 52) - 1);
    long exponent = new int[] {1033, 2047, 1000, 0, 1, 1023, 2046}[Sym.choose("exponent", Sym.thorough() ? 7 : 3)];
    a.putDouble(Double.longBitsToDouble(exponent << 52 | fraction | (Sym.choose("negative", 2) == 1 ? Long.MIN_VALUE : 0)));
    twins('a', a, mask(), w, p);
  }

  @Harness(property = "C21", bounds = "every second of the years 1..9999 as Instant, LocalDates 1970..2038, all ints; 3 patterns or none; '*' width 0..65536")
  public static void time() {
    String pattern = new String[] {"", "{EEE MMM}", "{'at' a}", "{'\u00e9\u00df\u0131'd}"}[Sym.choose("pattern", 4)];
    int w = Sym.intIn("w", 0, Ref.MAX);
    Args a = Args.create().putInt(w);
    int type = Sym.choose("type", 3);
    if (type == 0) a.put(Instant.ofEpochSecond(Sym.longIn("s", -62135596800L, 253402300799L)));
    else if (type == 1) a.put(LocalDate.ofEpochDay(Sym.longIn("d", 0, 24855)));
    else a.putInt(Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE));
    String minus = Sym.choose("minus", 2) == 1 ? "-" : "";
    String s = format("<%" + minus + "*t" + pattern + ">", a), u = format("<%" + minus + "*T" + pattern + ">", a);
    if (s.startsWith("!")) Sym.checkEq(u, s, "only one of the twins fails");
    else Sym.checkEq(u, Sym.upper(s), "not the upper-case text");
  }

  @Harness(property = "C21", bounds = "%S and %X of every other type: null, booleans, all chars, numbers, arrays and objects")
  public static void objects() {
    Args a;
    switch (Sym.choose("type", 7)) {
      case 0:
        a = Args.create().putNull();
        break;
      case 1:
        a = Args.create().putBoolean(Sym.bool("b"));
        break;
      case 2:
        a = Args.of((char) Sym.intIn("c", 0, 0xFFFF));
        break;
      case 3:
        a = Args.of(Sym.intIn("v", -5, 300));
        break;
      case 4:
        a = Args.of((Object) new String[] {"aé", null, "z"});
        break;
      case 5:
        a = Args.of(1e100, 1e-5f);
        break;
      default:
        a = Args.of((Object) Sym.str("s", 2, 'Z', '{').toCharArray());
    }
    twins("sxfega".charAt(Sym.choose("conversion", 6)), a, mask(), false, false);
  }
}
