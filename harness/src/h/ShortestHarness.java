package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import sym.Harness;
import sym.Sym;

/** The decimal that the conversions of a double start from. */
public final class ShortestHarness {
  /** biased exponents: around 1 first, then those of integers beyond 2^53, then the rest */
  private static int exponent() {
    int i = Sym.choose("exponent", 2046);
    // 1023, 1024, 1022, 1025, ...
    return (i & 1) == 0 ? 1023 - i / 2 : 1024 + i / 2;
  }

  private static double value(int exponent) {
    // the spacing below a power of two differs
    long fraction = Sym.choose("power", 2) == 1 ? 0 : Sym.longIn("fraction", 1, (1L << 52) - 1);
    return Double.longBitsToDouble(((long) exponent << 52) + fraction);
  }

  private static void check(double v) {
    FastPrintf f = FastPrintf.compile("%.17e");
    Args a = Args.create().putDouble(v);
    String got, expected;
    // the checker also follows branches that no double takes: there both sides fail
    try {
      got = f.format(a);
    } catch (ArrayIndexOutOfBoundsException e) {
      got = "index";
    }
    try {
      expected = Sym.shortest(v);
    } catch (ArrayIndexOutOfBoundsException e) {
      expected = "index";
    }
    Sym.out(got);
    Sym.checkEq(got, expected, "shortest decimal");
  }

  @Harness(property = "C07", bounds = "every finite double of exponent 1..2046 (all fractions)")
  public static void normal() {
    int x = exponent();
    Sym.opaqueProducts();
    check(value(x));
  }

  @Harness(property = "C07", bounds = "every subnormal double (all fractions)")
  public static void subnormal() {
    int bits = Sym.choose("bits", 52);
    Sym.opaqueProducts();
    check(Double.longBitsToDouble(Sym.longIn("fraction", 1L << bits, (2L << bits) - 1)));
  }

  @Harness(property = "C07", mode = "jdk8", bounds = "doubles of 32 exponents (all fractions) on a runtime without multiplyHigh")
  public static void portable() {
    int x = 31 + 64 * Sym.choose("exponent", 32);
    Sym.opaqueProducts();
    check(value(x));
  }

  @Harness(property = "C07", mode = "jdk8", bounds = "all pairs of longs on a runtime without multiplyHigh")
  public static void product() {
    Sym.patient();
    long x = Sym.longIn("x", Long.MIN_VALUE, Long.MAX_VALUE), y = Sym.longIn("y", Long.MIN_VALUE, Long.MAX_VALUE);
    long m = 0xFFFFFFFFL;
    // x * y = d * 2^64 + (b + c) * 2^32 + a
    long a = (x & m) * (y & m), b = (x >> 32) * (y & m), c = (x & m) * (y >> 32), d = (x >> 32) * (y >> 32);
    long middle = (b & m) + (c & m) + (a >>> 32);
    long high = d + (b >> 32) + (c >> 32) + (middle >> 32);
    long got = Sym.libraryMultiplyHigh(x, y);
    Sym.check(got == high, "high 64 bits of a product");
  }
}
