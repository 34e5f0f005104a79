package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;
import sym.Harness;
import sym.Sym;

/** %f, %e and %g of finite doubles, floats and BigDecimals, and of the special values. */
public final class FloatHarness {
  static int n, e, prec, mask, width;
  static long f;

  /** a precision: absent, each value that makes the rounding position fall into the digits, or symbolic beyond */
  static int precision(char conv) {
    // digits kept = base + precision
    int base = conv == 'f' ? n + e : conv == 'e' ? 1 : 0;
    int first = Math.max(0, -base), count = Math.max(0, n - base - first);
    int c = Sym.choose("precisionCase", count + 3);
    if (c == 0) return -1;
    if (c == 1) return Sym.intIn("precision", Math.max(0, n - base), Ref.MAX);
    if (c == 2) {
      if (-base <= 0) Sym.assume(false);
      return Sym.intIn("precision", 0, -base - 1);
    }
    return first + c - 3;
  }

  static void run(char conv, boolean neg, Args put, String what) {
    boolean alt = Ref.has(mask, Ref.ALT);
    String got = FastPrintf.compile(Ref.directive(mask, width >= 0, prec >= 0, conv)).format(put);
    Sym.out(got);
    String body = Ref.body(conv, f, n, e, prec, alt);
    Sym.checkEq(got, Ref.number(Ref.sign(neg, mask), body, mask, width, true), what);
  }

  static Args args() {
    Args a = Args.create();
    if (width >= 0) a.putInt(width);
    if (prec >= 0) a.putInt(prec);
    return a;
  }

  static int pick(String name, int[] quick, int lo, int hi) {
    return Sym.thorough() ? lo + Sym.choose(name, hi - lo + 1) : quick[Sym.choose(name, quick.length)];
  }

  /** every rounding position for every digit count; a few flag sets, no width */
  static void digits(char conv) {
    n = 1 + Sym.choose("digits", 17);
    int k = pick("point", new int[] {-5, -4, -3, -1, 0, 1, 2, 5, 16, 22}, -20, 40);
    e = k - n;
    prec = precision(conv);
    mask = new int[] {0, Ref.ALT}[Sym.choose("flags", 2)];
    width = -1;
    double v = Sym.decimalDouble("v", n, e, e);
    f = Sym.decimalDigits("v");
    run(conv, false, args().putDouble(v), "%" + conv + " of double");
  }

  /** all flag sets, symbolic width, both signs */
  static void fields(char conv) {
    n = new int[] {1, 3}[Sym.choose("digits", 2)];
    int k = new int[] {-4, -1, 0, 1, 3, 7}[Sym.choose("point", 6)];
    e = k - n;
    mask = Sym.choose("flags", 32);
    width = Sym.choose("hasWidth", 2) == 1 ? Sym.intIn("width", 0, Ref.MAX) : -1;
    prec = precision(conv);
    double v = Sym.decimalDouble("v", n, e, e);
    f = Sym.decimalDigits("v");
    boolean neg = Sym.choose("neg", 2) == 1;
    run(conv, neg, args().putDouble(neg ? -v : v), "%" + conv + " of double");
  }

  /** the ends of the exponent range */
  static void extremes(char conv) {
    n = new int[] {1, 2, 15, 17}[Sym.choose("digits", 4)];
    int k = new int[] {-323, -307, -100, -99, -98, -10, -9, 9, 10, 11, 99, 100, 101, 309}[Sym.choose("point", 14)];
    e = k - n;
    prec = precision(conv);
    mask = 0;
    width = -1;
    double v = Sym.decimalDouble("v", n, e, e);
    f = Sym.decimalDigits("v");
    run(conv, false, args().putDouble(v), "%" + conv + " of double");
  }

  @Harness(property = "C03", bounds = "doubles whose shortest decimal has 1..17 digits with the point at -5..22 (thorough: every position -20..40); every rounding position, precision beyond symbolic to 65536; flags none and #")
  public static void fDigits() {
    digits('f');
  }

  @Harness(property = "C04", bounds = "as fDigits, for %e")
  public static void eDigits() {
    digits('e');
  }

  @Harness(property = "C05", bounds = "as fDigits, for %g")
  public static void gDigits() {
    digits('g');
  }

  @Harness(property = "C03", bounds = "1 and 3 digit decimals at 6 point positions, both signs, 32 flag sets, width absent or 0..65536, precision absent or 0..65536")
  public static void fFields() {
    fields('f');
  }

  @Harness(property = "C04", bounds = "as fFields, for %e")
  public static void eFields() {
    fields('e');
  }

  @Harness(property = "C05", bounds = "as fFields, for %g")
  public static void gFields() {
    fields('g');
  }

  @Harness(property = "C03", bounds = "shortest decimals of 1, 2, 15, 17 digits with the point at 14 positions between -323 and 309")
  public static void fExtremes() {
    extremes('f');
  }

  @Harness(property = "C04", bounds = "as fExtremes, for %e")
  public static void eExtremes() {
    extremes('e');
  }

  @Harness(property = "C05", bounds = "as fExtremes, for %g")
  public static void gExtremes() {
    extremes('g');
  }

  /** BigDecimals: every rounding position */
  static void decimals(char conv) {
    n = pick("digits", new int[] {1, 2, 3, 6, 10, 17, 18}, 1, 18);
    int k = pick("point", new int[] {-5, -4, -3, -1, 0, 1, 2, 5, 18, 30}, -20, 40);
    e = k - n;
    prec = precision(conv);
    mask = new int[] {0, Ref.ALT | Ref.ZERO | Ref.PLUS}[Sym.choose("flags", 2)];
    width = mask == 0 ? -1 : Sym.intIn("width", 0, Ref.MAX);
    f = Sym.longIn("f", Ref.pow10(n - 1), Ref.pow10(n) - 1);
    boolean neg = Sym.choose("neg", 2) == 1;
    run(conv, neg, args().putBigDecimal(BigDecimal.valueOf(neg ? -f : f, -e)), "%" + conv + " of BigDecimal");
  }

  private static final int[] POINTS = {9, 10, 11, 12, 99, 100, 101, -8, -9, -10, -98, -99, -100, 308, -300, 1000, -999, 2147483000, -2147483000};

  /** exponents of every length, doubles and BigDecimals, with and without fraction digits */
  static void exponents(char conv) {
    n = new int[] {1, 2, 9, 10, 11, 12}[Sym.choose("digits", 6)];
    int kind = Sym.choose("kind", 2), k = POINTS[Sym.choose("point", kind == 0 ? 15 : POINTS.length)];
    e = k - n;
    prec = new int[] {-1, 0, n - 1, n}[Sym.choose("precision", 4)];
    mask = 0;
    width = -1;
    if (kind == 0) {
      double v = Sym.decimalDouble("v", n, e, e);
      f = Sym.decimalDigits("v");
      run(conv, false, args().putDouble(v), "%" + conv + " of double");
    } else {
      f = Sym.longIn("f", Ref.pow10(n - 1), Ref.pow10(n) - 1);
      run(conv, false, args().putBigDecimal(BigDecimal.valueOf(f, -e)), "%" + conv + " of BigDecimal");
    }
  }

  @Harness(property = "C04", bounds = "doubles and BigDecimals of 1, 2, 9..12 digits at 19 decimal exponents between -2147483000 and 2147483000 around each change of length; precision absent, 0, n-1, n")
  public static void eExponents() {
    exponents('e');
  }

  @Harness(property = "C05", bounds = "as eExponents, for %g")
  public static void gExponents() {
    exponents('g');
  }

  /** doubles at the limits of the integer types, digits and exponent of the shortest decimal */
  private static final double[] LIMITS = {
    127, 128, 32768, 65535, 2147483647, 2147483648.0, 4294967295.0, 4294967296.0, 9007199254740991.0, 9007199254740992.0, 9.223372036854776E18, 1.8446744073709552E19
  };

  private static final long[] LIMIT_DIGITS = {
    127, 128, 32768, 65535, 2147483647, 2147483648L, 4294967295L, 4294967296L, 9007199254740991L, 9007199254740992L, 9223372036854776L, 18446744073709552L
  };

  static void limits(char conv) {
    int i = Sym.choose("value", LIMITS.length);
    f = LIMIT_DIGITS[i];
    e = i < 10 ? 0 : 3;
    n = Long.toString(f).length();
    mask = new int[] {0, Ref.ALT | Ref.ZERO | Ref.PLUS}[Sym.choose("flags", 2)];
    width = mask == 0 ? -1 : Sym.intIn("width", 0, Ref.MAX);
    prec = precision(conv);
    boolean neg = Sym.choose("neg", 2) == 1;
    run(conv, neg, args().putDouble(neg ? -LIMITS[i] : LIMITS[i]), "%" + conv + " of double");
  }

  @Harness(property = "C03", bounds = "12 doubles at the limits of the integer types, both signs; every rounding position, precision beyond symbolic to 65536; flags none and +#0 with width 0..65536")
  public static void fLimits() {
    limits('f');
  }

  @Harness(property = "C04", bounds = "as fLimits, for %e")
  public static void eLimits() {
    limits('e');
  }

  @Harness(property = "C05", bounds = "as fLimits, for %g")
  public static void gLimits() {
    limits('g');
  }

  @Harness(property = "C03", bounds = "BigDecimals of 1, 4, 18 digits with the point at -3000, -1025, -300, 300, 1025, 3000, both signs; precision absent, 0 or 1")
  public static void fFar() {
    n = new int[] {1, 4, 18}[Sym.choose("digits", 3)];
    int k = new int[] {-3000, -1025, -300, 300, 1025, 3000}[Sym.choose("point", 6)];
    e = k - n;
    prec = Sym.choose("precision", 3) - 1;
    mask = 0;
    width = -1;
    f = Sym.longIn("f", Ref.pow10(n - 1), Ref.pow10(n) - 1);
    boolean neg = Sym.choose("neg", 2) == 1;
    run('f', neg, args().putBigDecimal(BigDecimal.valueOf(neg ? -f : f, -e)), "%f of BigDecimal");
  }

  /** BigDecimals with more digits than a long holds, against rounding done digit by digit */
  static void wide(char conv) {
    int len = pick("digits", new int[] {19, 25, 40}, 19, 45);
    int k = new int[] {-6, -3, 0, 1, 4, 20, 45}[Sym.choose("point", 7)];
    prec = Sym.choose("hasPrecision", 2) == 0 ? -1 : new int[] {0, 1, 2, 3, 18, 19, 24, 39, 40, 46, 70}[Sym.choose("precision", 11)];
    mask = new int[] {0, Ref.ALT}[Sym.choose("flags", 2)];
    width = -1;
    BigInteger m = Sym.bigDigits("m", len);
    boolean neg = Sym.choose("neg", 2) == 1;
    BigDecimal v = new BigDecimal(neg ? m.negate() : m, len - k);
    String got = FastPrintf.compile(Ref.directive(mask, false, prec >= 0, conv)).format(args().putBigDecimal(v));
    Sym.out(got);
    int p = prec < 0 ? 6 : conv == 'g' && prec == 0 ? 1 : prec;
    Sym.checkEq(got, (neg ? "-" : "") + Ref.digitString(conv, m.toString(), k, p, Ref.has(mask, Ref.ALT)), "%" + conv + " of BigDecimal");
  }

  /** zeros: 0.0, -0.0, both float zeros and BigDecimal zeros of any scale */
  static void zeros(char conv) {
    mask = Sym.choose("flags", 32);
    width = Sym.choose("hasWidth", 2) == 1 ? Sym.intIn("width", 0, Ref.MAX) : -1;
    prec = Sym.choose("hasPrecision", 2) == 1 ? Sym.intIn("precision", 0, Ref.MAX) : -1;
    boolean neg = false;
    Args a = args();
    switch (Sym.choose("type", 3)) {
      case 0:
        neg = Sym.choose("neg", 2) == 1;
        a.putDouble(neg ? -0.0 : 0.0);
        break;
      case 1:
        neg = Sym.choose("neg", 2) == 1;
        a.putFloat(neg ? -0.0f : 0.0f);
        break;
      default:
        a.putBigDecimal(BigDecimal.valueOf(0, Sym.concrete(new int[] {0, 1, 7, -3, 400, -400}[Sym.choose("scale", 6)])));
    }
    String got = FastPrintf.compile(Ref.directive(mask, width >= 0, prec >= 0, conv)).format(a);
    Sym.out(got);
    Sym.checkEq(got, Ref.number(Ref.sign(neg, mask), Ref.zeroBody(conv, prec, Ref.has(mask, Ref.ALT)), mask, width, true), "%" + conv + " of zero");
  }

  /** NaN and the infinities, as double and float */
  static void special(char conv) {
    mask = Sym.choose("flags", 32);
    width = Sym.choose("hasWidth", 2) == 1 ? Sym.intIn("width", 0, Ref.MAX) : -1;
    prec = Sym.choose("hasPrecision", 2) == 1 ? Sym.intIn("precision", 0, Ref.MAX) : -1;
    Args a = args();
    String exp;
    if (Sym.choose("type", 2) == 0) {
      double v = Sym.doubleBits("v");
      Sym.assume(!(Math.abs(v) <= Double.MAX_VALUE));
      exp = v != v ? "NaN" : v > 0 ? Ref.has(mask, Ref.PLUS) ? "+Infinity" : "Infinity" : "-Infinity";
      a.putDouble(v);
    } else {
      float v = Sym.floatBits("v");
      Sym.assume(!(Math.abs(v) <= Float.MAX_VALUE));
      exp = v != v ? "NaN" : v > 0 ? Ref.has(mask, Ref.PLUS) ? "+Infinity" : "Infinity" : "-Infinity";
      a.putFloat(v);
    }
    String got = FastPrintf.compile(Ref.directive(mask, width >= 0, prec >= 0, conv)).format(a);
    Sym.out(got);
    Sym.checkEq(got, Ref.pad(exp, mask, width), "%" + conv + " of a non-finite value");
  }

  @Harness(property = "C03", bounds = "BigDecimals of 1..18 digits with the point at -5..30 (thorough: -20..40), both signs, every rounding position, precision beyond symbolic to 65536; flags none and +#0 with width 0..65536")
  public static void fDecimals() {
    decimals('f');
  }

  @Harness(property = "C03", bounds = "double, float and BigDecimal zeros; 32 flag sets, width and precision absent or 0..65536")
  public static void fZeros() {
    zeros('f');
  }

  @Harness(property = "C03", bounds = "every NaN and infinity bit pattern of double and float; 32 flag sets, width and precision absent or 0..65536")
  public static void fSpecial() {
    special('f');
  }

  @Harness(property = "C04", bounds = "BigDecimals of 1..18 digits with the point at -5..30 (thorough: -20..40), both signs, every rounding position, precision beyond symbolic to 65536; flags none and +#0 with width 0..65536")
  public static void eDecimals() {
    decimals('e');
  }

  @Harness(property = "C04", bounds = "double, float and BigDecimal zeros; 32 flag sets, width and precision absent or 0..65536")
  public static void eZeros() {
    zeros('e');
  }

  @Harness(property = "C04", bounds = "every NaN and infinity bit pattern of double and float; 32 flag sets, width and precision absent or 0..65536")
  public static void eSpecial() {
    special('e');
  }

  @Harness(property = "C05", bounds = "BigDecimals of 1..18 digits with the point at -5..30 (thorough: -20..40), both signs, every rounding position, precision beyond symbolic to 65536; flags none and +#0 with width 0..65536")
  public static void gDecimals() {
    decimals('g');
  }

  @Harness(property = "C05", bounds = "double, float and BigDecimal zeros; 32 flag sets, width and precision absent or 0..65536")
  public static void gZeros() {
    zeros('g');
  }

  @Harness(property = "C05", bounds = "every NaN and infinity bit pattern of double and float; 32 flag sets, width and precision absent or 0..65536")
  public static void gSpecial() {
    special('g');
  }

  @Harness(property = "C03", bounds = "BigDecimals of 19, 25, 40 symbolic digits (thorough: 19..45) with the point at 7 positions, both signs; precision absent or one of 11 values; flags none and #")
  public static void fWide() {
    wide('f');
  }

  @Harness(property = "C04", bounds = "BigDecimals of 19, 25, 40 symbolic digits (thorough: 19..45) with the point at 7 positions, both signs; precision absent or one of 11 values; flags none and #")
  public static void eWide() {
    wide('e');
  }

  @Harness(property = "C05", bounds = "BigDecimals of 19, 25, 40 symbolic digits (thorough: 19..45) with the point at 7 positions, both signs; precision absent or one of 11 values; flags none and #")
  public static void gWide() {
    wide('g');
  }
}
