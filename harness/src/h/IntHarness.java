package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigInteger;
import sym.Harness;
import sym.Sym;

/** %d and %i. */
public final class IntHarness {
  static int mask, width, prec;
  static boolean w, p;

  /** picks flags, width and precision */
  static Args shape() {
    mask = Sym.choose("flags", 32);
    return field();
  }

  /** symbolic width and precision passed through '*' */
  static Args field() {
    w = Sym.choose("hasWidth", 2) == 1;
    p = Sym.choose("hasPrecision", 2) == 1;
    width = w ? Sym.intIn("width", 0, Ref.MAX) : -1;
    prec = p ? Sym.intIn("precision", 0, Ref.MAX) : -1;
    Args a = Args.create();
    if (w) a.putInt(width);
    if (p) a.putInt(prec);
    return a;
  }

  private static void check(long v, Args a, char conv) {
    String got = FastPrintf.compile(Ref.directive(mask, w, p, conv)).format(a);
    Sym.out(got);
    Sym.checkEq(got, Ref.decimal(v < 0, Ref.magnitude(v), v == 0, mask, width, prec), "%" + conv);
  }

  @Harness(property = "C01", bounds = "all 2^32 ints; 32 flag sets; width and precision absent or 0..65536")
  public static void ints() {
    Args a = shape();
    int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
    check(v, a.putInt(v), 'd');
  }

  @Harness(property = "C01", bounds = "all 2^64 longs; 32 flag sets; width and precision absent or 0..65536")
  public static void longs() {
    Args a = shape();
    long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
    check(v, a.putLong(v), 'd');
  }

  @Harness(property = "C01", bounds = "all bytes, shorts, and %i on ints; 32 flag sets; width and precision absent or 0..65536")
  public static void small() {
    Args a = shape();
    switch (Sym.choose("type", 3)) {
      case 0: {
        byte v = (byte) Sym.intIn("v", -128, 127);
        check(v, a.putByte(v), 'd');
        break;
      }
      case 1: {
        short v = (short) Sym.intIn("v", -32768, 32767);
        check(v, a.putShort(v), 'd');
        break;
      }
      default: {
        int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
        check(v, a.putInt(v), 'i');
      }
    }
  }

  @Harness(property = "C01", bounds = "BigInteger: all 64-bit values, and 20..40-digit values with every digit symbolic; 32 flag sets; width and precision absent or 0..65536")
  public static void bigs() {
    Args a = shape();
    String got, exp;
    if (Sym.choose("size", 2) == 0) {
      long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
      got = FastPrintf.compile(Ref.directive(mask, w, p, 'd')).format(a.putBigInteger(BigInteger.valueOf(v)));
      exp = Ref.decimal(v < 0, Ref.magnitude(v), v == 0, mask, width, prec);
    } else {
      int n = new int[] {19, 20, 39, 40}[Sym.choose("digits", 4)];
      BigInteger m = Sym.bigDigits("m", n);
      boolean neg = Sym.choose("neg", 2) == 1;
      got = FastPrintf.compile(Ref.directive(mask, w, p, 'd')).format(a.putBigInteger(neg ? m.negate() : m));
      exp = Ref.decimal(neg, m.toString(), false, mask, width, prec);
    }
    Sym.out(got);
    Sym.checkEq(got, exp, "%d of BigInteger");
  }
}
