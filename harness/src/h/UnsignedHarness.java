package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.math.BigInteger;
import sym.Harness;
import sym.Sym;

/** %u, %o, %x and %X. */
public final class UnsignedHarness {
  private static final String CONV = "uoxX";

  static String upper(String s) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      sb.append(c >= 'a' && c <= 'z' ? (char) (c - 32) : c);
    }
    return sb.toString();
  }

  static String digits(long unsigned, char conv) {
    switch (conv) {
      case 'u': return Long.toUnsignedString(unsigned);
      case 'o': return Long.toOctalString(unsigned);
      case 'x': return Long.toHexString(unsigned);
      default: return upper(Long.toHexString(unsigned));
    }
  }

  static String expected(String digits, boolean zero, char conv, int mask, int width, int prec) {
    boolean alt = Ref.has(mask, Ref.ALT);
    String d = Ref.digits(digits, zero, prec);
    String prefix = "";
    if (alt && conv == 'o') {
      // one leading zero, counting toward the precision
      if (zero) {
        if (prec == 0) d = "0";
      } else if (prec < 0) prefix = "0";
      else if (prec <= digits.length()) d = "0" + digits;
    } else if (alt && !zero && conv != 'u') prefix = "0" + conv;
    return Ref.number(prefix, d, mask, width, prec < 0);
  }

  private static void check(Args a, String digits, boolean zero, char conv) {
    int mask = IntHarness.mask, width = IntHarness.width, prec = IntHarness.prec;
    String got = FastPrintf.compile(Ref.directive(mask, IntHarness.w, IntHarness.p, conv)).format(a);
    Sym.out(got);
    Sym.checkEq(got, expected(digits, zero, conv, mask, width, prec), "%" + conv);
  }

  @Harness(property = "C02", bounds = "all ints under %u %o %x %X; 32 flag sets; width and precision absent or 0..65536")
  public static void ints() {
    char conv = CONV.charAt(Sym.choose("conv", 4));
    Args a = IntHarness.shape();
    int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
    check(a.putInt(v), digits(v & 0xFFFFFFFFL, conv), v == 0, conv);
  }

  @Harness(property = "C02", bounds = "all longs under %u %o %x %X; 32 flag sets; width and precision absent or 0..65536")
  public static void longs() {
    char conv = CONV.charAt(Sym.choose("conv", 4));
    Args a = IntHarness.shape();
    long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
    check(a.putLong(v), digits(v, conv), v == 0, conv);
  }

  @Harness(property = "C02", bounds = "all bytes and shorts under %u %o %x %X; 32 flag sets; width and precision absent or 0..65536")
  public static void small() {
    char conv = CONV.charAt(Sym.choose("conv", 4));
    Args a = IntHarness.shape();
    if (Sym.choose("type", 2) == 0) {
      byte v = (byte) Sym.intIn("v", -128, 127);
      check(a.putByte(v), digits(v & 0xFFL, conv), v == 0, conv);
    } else {
      short v = (short) Sym.intIn("v", -32768, 32767);
      check(a.putShort(v), digits(v & 0xFFFFL, conv), v == 0, conv);
    }
  }

  @Harness(property = "C02", bounds = "BigInteger: all values below 2^64 and values of 20, 23 and 40 digits with every digit symbolic, negative values rejected; 32 flag sets; width and precision absent or 0..65536")
  public static void bigs() {
    char conv = CONV.charAt(Sym.choose("conv", 4));
    Args a = IntHarness.shape();
    switch (Sym.choose("size", 3)) {
      case 0: {
        long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
        check(a.putBigInteger(Sym.unsignedBig(v)), digits(v, conv), v == 0, conv);
        break;
      }
      case 1: {
        int n = new int[] {20, 23, 40}[Sym.choose("digits", 3)];
        BigInteger m = conv == 'u' ? Sym.bigDigits("m", n) : conv == 'o' ? Sym.bigOct("m", n) : Sym.bigHex("m", n);
        String d = m.toString(conv == 'u' ? 10 : conv == 'o' ? 8 : 16);
        check(a.putBigInteger(m), conv == 'X' ? upper(d) : d, false, conv);
        break;
      }
      default: {
        BigInteger v = Sym.choose("big", 2) == 0 ? BigInteger.valueOf(Sym.longIn("v", Long.MIN_VALUE, -1)) : Sym.bigDigits("m", 25).negate();
        a.putBigInteger(v);
        try {
          FastPrintf.compile(Ref.directive(IntHarness.mask, IntHarness.w, IntHarness.p, conv)).format(a);
        } catch (PrintfException e) {
          Sym.out("rejected");
          return;
        }
        Sym.fail("%" + conv + " accepted a negative BigInteger");
      }
    }
  }
}
