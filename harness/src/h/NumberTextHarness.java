package h;

import io.fastprintf.number.FloatForm;
import io.fastprintf.number.IntForm;
import io.fastprintf.number.NumberForm;
import io.fastprintf.util.internal.DoubleToDecimal;
import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import sym.Harness;
import sym.Sym;

/** The texts of the number forms. */
public final class NumberTextHarness {
  private static void check(double v) {
    String got = FloatForm.valueOf(v).toString(), expected = Sym.javaText(v);
    Sym.out(got);
    Sym.checkEq(got, expected, "text of a double");
  }

  /** a target of another class */
  private static final class Target implements Appendable {
    final StringBuilder text = new StringBuilder("ab");

    @Override
    public Appendable append(CharSequence s) {
      text.append(s);
      return this;
    }

    @Override
    public Appendable append(CharSequence s, int start, int end) {
      text.append(s, start, end);
      return this;
    }

    @Override
    public Appendable append(char c) {
      text.append(c);
      return this;
    }

    @Override
    public String toString() {
      return text.toString();
    }
  }

  private static Appendable target() {
    switch (Sym.choose("target", 3)) {
      case 0:
        return new StringBuilder("ab");
      case 1:
        return new StringBuffer("ab");
      default:
        return new Target();
    }
  }

  private static void checkAppended(double v) {
    Appendable target = target(), result;
    String expected = "ab" + Sym.javaText(v);
    try {
      result = DoubleToDecimal.appendTo(v, target);
    } catch (IOException e) {
      Sym.fail("exception " + e);
      return;
    }
    String got = target.toString();
    Sym.out(got);
    Sym.checkEq(got, expected, "appended text of a double");
    Sym.check(result == target, "appending returns the target");
  }

  private static void checkSign(NumberForm form, int sign) {
    Sym.check(form.signum() == sign, "sign");
    Sym.check(form.isNegative() == sign < 0, "negative");
    Sym.check(form.isPositive() == sign > 0, "positive");
    Sym.check(form.isZero() == (sign == 0), "zero");
  }

  @Harness(property = "C26", bounds = "positive doubles, shortest decimals of 1, 2, 8, 9 and 17 symbolic digits, 6 decimal exponents, appended to a StringBuilder, a StringBuffer and another target")
  public static void appended() {
    int n = new int[] {1, 2, 8, 9, 17}[Sym.choose("digits", 5)];
    int e = new int[] {-3, 0, 1, 7, 12, -100}[Sym.choose("exponent", 6)];
    Sym.opaqueProducts();
    long least = 1;
    for (int i = 1; i < n; i++) least *= 10;
    int shortest = 64 - Long.numberOfLeadingZeros(least), longest = 64 - Long.numberOfLeadingZeros(10 * least - 1);
    checkAppended(Sym.decimalOf("v", n, shortest + Sym.choose("bits", longest - shortest + 1), e - n));
  }

  @Harness(property = "C26", bounds = "5 negative doubles, zeros, infinities, NaN, appended to 3 kinds of targets")
  public static void appendedOthers() {
    double[] all = {-1.5, -0.001, -1e-5, -12345678.9, -4.9e-324, 0.0, -0.0, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Double.NaN};
    checkAppended(all[Sym.choose("value", all.length)]);
  }

  @Harness(property = "C26", bounds = "signs, NaN and infinity of all doubles")
  public static void doubleSigns() {
    double v = Double.longBitsToDouble(Sym.longIn("bits", Long.MIN_VALUE, Long.MAX_VALUE));
    FloatForm form = FloatForm.valueOf(v);
    boolean nan = v != v, infinite = v == Double.POSITIVE_INFINITY || v == Double.NEGATIVE_INFINITY;
    Sym.check(form.isNaN() == nan, "NaN");
    Sym.check(form.isInfinite() == infinite, "infinite");
    if (!nan) checkSign(form, v > 0 ? 1 : v < 0 || Double.doubleToRawLongBits(v) < 0 ? -1 : 0);
  }

  @Harness(property = "C26", bounds = "positive doubles, shortest decimals of 1..17 symbolic digits, 20 decimal exponents around each change of layout")
  public static void doubles() {
    int n = 17 - Sym.choose("digits", 17);
    // the value is 0.ddd * 10^e
    int e = new int[] {-3, -2, 0, 1, 7, 8, -300, 300, -4, -1, 4, 9, -9, -10, -99, -100, 10, 11, 100, 101}[Sym.choose("exponent", 20)];
    Sym.opaqueProducts();
    long least = 1;
    for (int i = 1; i < n; i++) least *= 10;
    int shortest = 64 - Long.numberOfLeadingZeros(least), longest = 64 - Long.numberOfLeadingZeros(10 * least - 1);
    check(Sym.decimalOf("v", n, shortest + Sym.choose("bits", longest - shortest + 1), e - n));
  }

  @Harness(property = "C26", bounds = "16 negative doubles around each change of layout")
  public static void negative() {
    double[] all = {
      -1.5, -0.001, -1e-5, -1e7, -4.9e-324, -1, -9999999, -12345678.9, -1e100, -1e99, -9.99e-4, -1.2345678901234567e-300, -1.7976931348623157e308, -2.2250738585072014e-308, -0.1, -123456
    };
    check(all[Sym.choose("value", all.length)]);
  }

  @Harness(property = "C26", bounds = "zeros, infinities, every NaN")
  public static void special() {
    switch (Sym.choose("kind", 5)) {
      case 0:
        check(0.0);
        break;
      case 1:
        check(-0.0);
        break;
      case 2:
        check(Double.POSITIVE_INFINITY);
        break;
      case 3:
        check(Double.NEGATIVE_INFINITY);
        break;
      default:
        check(Double.longBitsToDouble((Sym.choose("sign", 2) == 1 ? 0xFFF0000000000000L : 0x7FF0000000000000L) + Sym.longIn("nan", 1, (1L << 52) - 1)));
    }
  }

  @Harness(property = "C26", bounds = "all bytes, shorts, ints and longs; BigIntegers of 1, 19 and 25 symbolic digits; both signs")
  public static void integers() {
    String got, expected;
    switch (Sym.choose("type", 5)) {
      case 0: {
        byte v = (byte) Sym.intIn("v", Byte.MIN_VALUE, Byte.MAX_VALUE);
        IntForm form = IntForm.valueOf(v);
        checkSign(form, v > 0 ? 1 : v < 0 ? -1 : 0);
        got = form.toString();
        expected = Integer.toString(v);
        break;
      }
      case 1: {
        short v = (short) Sym.intIn("v", Short.MIN_VALUE, Short.MAX_VALUE);
        IntForm form = IntForm.valueOf(v);
        checkSign(form, v > 0 ? 1 : v < 0 ? -1 : 0);
        got = form.toString();
        expected = Integer.toString(v);
        break;
      }
      case 2: {
        int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
        IntForm form = IntForm.valueOf(v);
        checkSign(form, v > 0 ? 1 : v < 0 ? -1 : 0);
        got = form.toString();
        expected = Integer.toString(v);
        break;
      }
      case 3: {
        long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
        IntForm form = IntForm.valueOf(v);
        checkSign(form, v > 0 ? 1 : v < 0 ? -1 : 0);
        got = form.toString();
        expected = Long.toString(v);
        break;
      }
      default: {
        BigInteger v = Sym.bigDigits("v", new int[] {1, 19, 25}[Sym.choose("digits", 3)]);
        if (Sym.choose("negative", 2) == 1) v = v.negate();
        IntForm form = IntForm.valueOf(v);
        checkSign(form, v.signum());
        got = form.toString();
        expected = v.toString();
      }
    }
    Sym.out(got);
    Sym.checkEq(got, expected, "text of an integer");
  }

  private static final int[] SCALES = {0, 1, 2, 3, 11, -1, -3, -10, Integer.MAX_VALUE, -Integer.MAX_VALUE};

  @Harness(property = "C26", bounds = "BigDecimals of all unscaled values -99999..99999 and 10 scales -2147483647..2147483647")
  public static void decimals() {
    BigDecimal v = new BigDecimal(BigInteger.valueOf(Sym.longIn("v", -99999, 99999)), SCALES[Sym.choose("scale", SCALES.length)]);
    FloatForm form = FloatForm.valueOf(v);
    checkSign(form, v.signum());
    Sym.check(!form.isNaN() && !form.isInfinite(), "a decimal is finite");
    String got = form.toString();
    Sym.out(got);
    Sym.checkEq(got, v.toString(), "text of a decimal");
  }
}
