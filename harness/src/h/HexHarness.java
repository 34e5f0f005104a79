package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.math.BigDecimal;
import java.math.BigInteger;
import sym.Harness;
import sym.Sym;

/** %a of doubles and floats, specified on the IEEE bits. */
public final class HexHarness {
  static final long FRACTION = (1L << 52) - 1;

  static String exponent(int e) {
    return (e < 0 ? "p-" : "p+") + (e < 0 ? -e : e);
  }

  /** the low n hex digits of v */
  static String hex(long v, int n) {
    String t = Long.toHexString((1L << 4 * n) | v);
    return t.substring(t.length() - n);
  }

  /** unsigned text after 0x; the bits are those of a finite double without its sign */
  static String body(long bits, int prec) {
    int be = (int) (bits >>> 52);
    long frac = bits & FRACTION;
    StringBuilder sb = new StringBuilder();
    if (prec < 0 || prec >= 13 || bits == 0) {
      String d = hex(frac, 13);
      int m = Ref.trimmed(d, 1);
      sb.append(be == 0 ? "0." : "1.").append(d, 0, m);
      int want = prec == 0 ? 1 : prec;
      Ref.zeros(sb, want - m);
      return sb.append(exponent(bits == 0 ? 0 : be == 0 ? -1022 : be - 1023)).toString();
    }
    int p = prec == 0 ? 1 : prec;
    int e = be - 1023;
    long sig = frac | 1L << 52;
    if (be == 0) {
      // normalise a subnormal
      sig = frac;
      e = -1022;
      while (sig < 1L << 52) {
        sig = sig * 2;
        e--;
      }
    }
    int drop = 52 - 4 * p;
    long kept = sig >>> drop, rest = sig & ((1L << drop) - 1), half = 1L << (drop - 1);
    if (rest > half || rest == half && (kept & 1) == 1) kept++;
    if (kept == 2L << 4 * p) {
      kept = 1L << 4 * p;
      e++;
    }
    return sb.append("1.").append(hex(kept & ((1L << 4 * p) - 1), p)).append(exponent(e)).toString();
  }

  private static void run(Args a, long bits, int mask, int width, int prec) {
    String got = FastPrintf.compile(Ref.directive(mask, width >= 0, prec >= 0, 'a')).format(a);
    Sym.out(got);
    String head = Ref.sign(bits < 0, mask) + "0x";
    Sym.checkEq(got, Ref.number(head, body(bits & Long.MAX_VALUE, prec), mask, width, true), "%a");
  }

  private static Args args(int width, int prec) {
    Args a = Args.create();
    if (width >= 0) a.putInt(width);
    if (prec >= 0) a.putInt(prec);
    return a;
  }

  static final int[] EXPONENTS = {1, 1014, 1023, 2046};

  /** bits of a finite double with a symbolic fraction; the exponent field is concrete */
  private static long normal() {
    int be = Sym.thorough() ? 1 + Sym.choose("exponent", 2046) : EXPONENTS[Sym.choose("exponent", EXPONENTS.length)];
    return ((long) be << 52) + Sym.longIn("fraction", 0, FRACTION);
  }

  private static int precision() {
    int c = Sym.choose("precisionCase", 15);
    return c == 0 ? -1 : c == 14 ? Sym.intIn("precision", 13, Ref.MAX) : c - 1;
  }

  @Harness(property = "C06", bounds = "normal doubles: every 52-bit fraction at 4 exponents (thorough: all 2046); precision absent, each of 0..12, symbolic 13..65536; flags none and #")
  public static void digits() {
    int prec = precision();
    int mask = Sym.choose("alt", 2) == 0 ? 0 : Ref.ALT;
    long bits = normal();
    run(args(-1, prec).putDouble(Double.longBitsToDouble(bits)), bits, mask, -1, prec);
  }

  @Harness(property = "C06", bounds = "all subnormal doubles by position of the leading bit (quick: 5 positions, thorough: all 52); precision absent, each of 0..12, symbolic 13..65536")
  public static void subnormals() {
    int prec = precision();
    int top = FloatHarness.pick("leadingBit", new int[] {0, 1, 4, 12, 51}, 0, 51);
    long bits = (1L << top) + Sym.longIn("fraction", 0, (1L << top) - 1);
    run(args(-1, prec).putDouble(Double.longBitsToDouble(bits)), bits, 0, -1, prec);
  }

  @Harness(property = "C06", bounds = "doubles with every exponent field 1..2046 (symbolic) and a 4-bit fraction; precision absent, 0, 1, 2; both signs")
  public static void exponents() {
    int prec = Sym.choose("precisionCase", 4) - 1;
    long be = Sym.longIn("exponent", 1, 2046);
    long bits = (be << 52) + ((long) Sym.choose("fraction", 16) << 48);
    double v = Double.longBitsToDouble(bits);
    if (Sym.choose("neg", 2) == 1) {
      bits = bits + Long.MIN_VALUE;
      v = -v;
    }
    run(args(-1, prec).putDouble(v), bits, 0, -1, prec);
  }

  @Harness(property = "C06", bounds = "zeros and doubles with fractions of at most 5 hex digits at 3 exponents, both signs; 32 flag sets; width 0..65536; precision absent, 0, 3, symbolic 13..65536")
  public static void fields() {
    int mask = Sym.choose("flags", 32);
    int width = Sym.intIn("width", 0, Ref.MAX);
    int c = Sym.choose("precisionCase", 4);
    int prec = c == 0 ? -1 : c == 3 ? Sym.intIn("precision", 13, Ref.MAX) : c == 1 ? 0 : 3;
    int k = Sym.choose("exponent", 4);
    long bits = k == 0 ? 0 : ((long) new int[] {0, 1, 1023, 2046}[k] << 52) + (Sym.longIn("fraction", 0, 0xFFFFF) << 32);
    if (Sym.choose("neg", 2) == 1) bits |= Long.MIN_VALUE;
    run(args(width, prec).putDouble(Double.longBitsToDouble(bits)), bits, mask, width, prec);
  }

  @Harness(property = "C06", bounds = "normal floats: every fraction at 3 exponents, subnormals by leading bit, zeros; precision absent, 0..7 and 13..65536; flags none and +")
  public static void floats() {
    int c = Sym.choose("precisionCase", 10);
    int prec = c == 0 ? -1 : c == 9 ? Sym.intIn("precision", 13, Ref.MAX) : c - 1;
    int mask = Sym.choose("plus", 2) == 0 ? 0 : Ref.PLUS;
    int k = Sym.choose("kind", 6);
    int fb;
    long bits;
    if (k < 3) {
      int be = new int[] {1, 127, 254}[k];
      int fr = Sym.intIn("fraction", 0, 0x7FFFFF);
      fb = (be << 23) + fr;
      bits = ((long) (be + 896) << 52) + ((long) fr << 29);
    } else if (k < 5) {
      int top = k == 4 ? 22 : 3;
      int fr = Sym.intIn("fraction", 0, (1 << top) - 1);
      fb = (1 << top) + fr;
      bits = ((long) (top - 149 + 1023) << 52) + ((long) fr << (52 - top));
    } else {
      fb = 0;
      bits = 0;
    }
    boolean neg = Sym.choose("neg", 2) == 1;
    if (neg) bits += Long.MIN_VALUE;
    run(args(-1, prec).putFloat(Float.intBitsToFloat(neg ? fb | Integer.MIN_VALUE : fb)), bits, mask, -1, prec);
  }

  @Harness(property = "C06", bounds = "every NaN and infinity bit pattern of double and float; 32 flag sets, width and precision absent or 0..65536")
  public static void special() {
    FloatHarness.special('a');
  }

  @Harness(property = "C06", bounds = "BigDecimal and BigInteger of symbolic value; 32 flag sets, width and precision absent or 0..65536: rejected")
  public static void decimals() {
    Args a = IntHarness.shape();
    long u = Sym.longIn("u", Long.MIN_VALUE, Long.MAX_VALUE);
    if (Sym.choose("type", 2) == 0) a.putBigDecimal(BigDecimal.valueOf(u, new int[] {0, 3, -2}[Sym.choose("scale", 3)]));
    else a.putBigInteger(BigInteger.valueOf(u));
    try {
      FastPrintf.compile(Ref.directive(IntHarness.mask, IntHarness.w, IntHarness.p, 'a')).format(a);
    } catch (PrintfException e) {
      return;
    }
    Sym.fail("%a accepted a BigDecimal");
  }
}
