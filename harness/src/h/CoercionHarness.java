package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.util.Arrays;
import java.util.Calendar;
import java.util.Collections;
import java.util.Date;
import java.util.concurrent.atomic.AtomicLong;
import sym.Harness;
import sym.Sym;

/** What each conversion makes of arguments that are not of its own kind. */
public final class CoercionHarness {
  private static final String INT = "duxoiX";
  private static final int I = 0, F = 1, C = 2, STAR = 3, PRECISION = 4, T = 5;
  private static final Object REJECT = new Object();

  /** one directive of the kind: the text up to the conversion letter, the letter included */
  private static String directive(int kind) {
    switch (kind) {
      case I:
        return new String[] {"%", "%#012", "%-+9.3"}[Sym.choose("directive", Sym.thorough() ? 3 : 2)] + INT.charAt(Sym.choose("conversion", Sym.thorough() ? 6 : 3));
      case F:
        return new String[] {"%f", "%#.3e", "%-+9.1g", "%a", "%.1a", "%F", "%E", "%G", "%A"}[Sym.choose("directive", Sym.thorough() ? 9 : 3)];
      case C:
        return new String[] {"%c", "%3c", "%-3c"}[Sym.choose("directive", 3)];
      case STAR:
        return "%*";
      case PRECISION:
        return "%.*";
      default:
        return new String[] {"%t", "%T", "%t{HH}"}[Sym.choose("directive", 3)];
    }
  }

  private static String run(String format, Args a) {
    try {
      return FastPrintf.compile(format).format(a);
    } catch (PrintfException e) {
      return "!";
    }
  }

  private static int kind() {
    return Sym.choose("kind", 5);
  }

  /** prints a as the value for its coercion c, or fails if c is REJECT */
  private static void same(int kind, Args a, Object c) {
    String d = directive(kind), got, want;
    if (kind == STAR || kind == PRECISION) {
      a.putString("text");
      got = run("<" + d + "s>", a);
      want = c == REJECT ? "!" : run("<" + d + "s>", Args.create().putInt((Integer) c).putString("text"));
    } else {
      got = run("<" + d + ">", a);
      want = c == REJECT ? "!" : run("<" + d + ">", Args.create().put(c));
    }
    Sym.checkEq(got, want, "coercion");
    Sym.out(got);
  }

  @Harness(property = "C18", bounds = "null under every conversion and as a * width or precision")
  public static void nulls() {
    same(Sym.choose("kind", 6), Args.create().putNull(), REJECT);
  }

  @Harness(property = "C18", bounds = "objects of 9 classes that are neither numbers, texts nor dates, under every conversion and as a * width or precision")
  public static void objects() {
    Object[] all = {
      new Object(), new int[] {5}, new byte[] {5}, new char[] {'5'}, new Object[0], Arrays.asList(5), Collections.emptyMap(), Ref.class, new Throwable("5")
    };
    same(Sym.choose("kind", 6), Args.create().put(all[Sym.choose("object", all.length)]), REJECT);
  }

  @Harness(property = "C18", bounds = "both booleans, primitive and boxed")
  public static void booleans() {
    boolean v = Sym.bool("v");
    Args a = Sym.bool("boxed") ? Args.create().put(v) : Args.create().putBoolean(v);
    int k = Sym.choose("kind", 6);
    same(k, a, k == I ? (Object) (v ? 1 : 0) : k == F ? (Object) (v ? 1.0 : 0.0) : k == C ? (Object) (v ? '\1' : '\0') : k == T ? REJECT : (Object) (v ? 1 : 0));
  }

  @Harness(property = "C18", bounds = "all chars")
  public static void chars() {
    Sym.abstractDecimals();
    char v = (char) Sym.intIn("v", 0, 0xFFFF);
    int k = Sym.choose("kind", 6);
    same(k, Args.create().putChar(v), k == T ? REJECT : k == I || k == STAR || k == PRECISION ? (Object) (int) v : k == F ? (Object) (double) v : (Object) v);
  }

  @Harness(property = "C18", bounds = "all bytes and shorts")
  public static void shorts() {
    Sym.abstractDecimals();
    int k = Sym.choose("kind", 6);
    boolean b = Sym.bool("byte");
    int v = b ? Sym.intIn("v", -128, 127) : Sym.intIn("v", -32768, 32767);
    Args a = b ? Args.create().putByte((byte) v) : Args.create().putShort((short) v);
    if (k == I) same(k, a, b ? (Object) (byte) v : (Object) (short) v);
    else same(k, a, k == T ? REJECT : k == F ? (Object) (double) v : k == C ? (Object) (char) v : (Object) v);
  }

  @Harness(property = "C18", bounds = "all ints and longs, as AtomicLong too")
  public static void longs() {
    Sym.abstractDecimals();
    int k = kind();
    int type = Sym.choose("type", 3);
    if (type == 0) {
      int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
      same(k, Args.create().putInt(v), k == F ? (Object) (double) v : k == C ? (Object) (char) v : (Object) v);
      return;
    }
    long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
    Args a = type == 1 ? Args.create().putLong(v) : Args.create().put(new AtomicLong(v));
    same(k, a, k == F ? (Object) (double) v : k == C ? (Object) (char) v : k == I ? (Object) v : (Object) (int) v);
  }

  /** a number whose views differ */
  private static final class Num extends Number {
    final int i;
    final long l;
    final double d;

    Num(int i, long l, double d) {
      this.i = i;
      this.l = l;
      this.d = d;
    }

    @Override
    public int intValue() {
      return i;
    }

    @Override
    public long longValue() {
      return l;
    }

    @Override
    public float floatValue() {
      return 7;
    }

    @Override
    public double doubleValue() {
      return d;
    }
  }

  @Harness(property = "C18", bounds = "numbers of a class of their own with any int, long and double value")
  public static void numbers() {
    Sym.abstractDecimals();
    int k = kind();
    int i = Sym.intIn("i", Integer.MIN_VALUE, Integer.MAX_VALUE);
    long l = Sym.longIn("l", Long.MIN_VALUE, Long.MAX_VALUE);
    double d = Double.longBitsToDouble(Sym.longIn("d", Long.MIN_VALUE, Long.MAX_VALUE));
    same(k, Args.create().put(new Num(i, l, d)), k == F ? (Object) d : k == C ? (Object) (char) i : k == I ? (Object) l : (Object) i);
  }

  @Harness(property = "C18", bounds = "30 texts: exponents, suffixes, hexadecimal, blanks, other digits, names of special values, magnitudes beyond every range")
  public static void words() {
    int k = Sym.choose("kind", 6);
    String[] all = {
      "1e5", "-1E-3", ".5", "5.", "1d", "2f", "0x1p3", "NaN", "Infinity", "-Infinity", "+Infinity", " 1 ", "1_0", "0x10", "1L", "-", "--1", "1e400", "1e-400", "\uFF11", "\u0661\u0662",
      "123456789012345678901234567890", "-9223372036854775809", "9223372036854775808", "2147483648", "-2147483649", "0.1234567890123456789", "true", "null", "1,5"
    };
    check(k, all[Sym.choose("text", all.length)]);
  }

  @Harness(property = "C18", bounds = "all doubles")
  public static void doubles() {
    Sym.abstractDecimals();
    int k = Sym.choose("kind", 6);
    double v = Double.longBitsToDouble(Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE));
    same(k, Args.create().putDouble(v), k == T ? REJECT : k == F ? (Object) v : k == I ? (Object) (long) v : k == C ? (Object) (char) Math.round(v) : (Object) (int) Math.round(v));
  }

  @Harness(property = "C18", bounds = "all floats")
  public static void floats() {
    Sym.abstractDecimals();
    int k = Sym.choose("kind", 6);
    float v = Float.intBitsToFloat(Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE));
    same(k, Args.create().putFloat(v), k == T ? REJECT : k == F ? (Object) (double) v : k == I ? (Object) (int) v : k == C ? (Object) (char) Math.round(v) : (Object) Math.round(v));
  }

  @Harness(property = "C18", bounds = "BigIntegers of all 64-bit values and (for the floating-point conversions) of 20..30 symbolic digits")
  public static void bigIntegers() {
    Sym.abstractDecimals();
    int k = kind();
    boolean large = Sym.bool("large");
    if (large && k != F) return;
    BigInteger v = large ? Sym.bigDigits("v", 20 + 5 * Sym.choose("digits", 3)) : BigInteger.valueOf(Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE));
    same(k, Args.create().put(v), k == I ? (Object) v : k == F ? (Object) new BigDecimal(v) : k == C ? (Object) (char) v.intValue() : (Object) v.intValue());
  }

  @Harness(property = "C18", bounds = "BigDecimals of all 64-bit unscaled values (integer part of at most 64 bits), scale -1..18 (thorough -3..19)")
  public static void bigDecimals() {
    int k = new int[] {I, C, STAR, T}[Sym.choose("kind", 4)];
    int[] scales = {0, 1, 3, 18, -1, 19, -3};
    int scale = scales[Sym.choose("scale", Sym.thorough() ? 7 : 5)];
    long limit = scale < 0 ? Long.MAX_VALUE / Ref.pow10(-scale) : Long.MAX_VALUE;
    long u = Sym.longIn("v", -limit, limit);
    BigDecimal v = BigDecimal.valueOf(u, scale);
    BigInteger whole = BigInteger.valueOf(scale <= 0 ? u * Ref.pow10(-scale) : scale > 18 ? 0 : u / Ref.pow10(scale));
    same(k, Args.create().put(v), k == T ? REJECT : k == I ? (Object) whole : k == C ? (Object) (char) whole.intValue() : (Object) whole.intValue());
  }

  @Harness(property = "C18", bounds = "BigDecimals of 20..25 symbolic digits and scale 0, %d and %u")
  public static void largeDecimals() {
    BigInteger v = Sym.bigDigits("v", 20 + Sym.choose("digits", 6));
    String d = Sym.choose("unsigned", 2) == 1 ? "%u" : "%d";
    Sym.checkEq(run(d, Args.create().put(new BigDecimal(v))), run(d, Args.create().put(v)), "coercion");
  }

  private static final String[] WHOLES = {"0", "7", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551616", "123456789012345678901234567890"};

  @Harness(property = "C18", bounds = "BigDecimals of 7 integer parts up to 30 digits, both signs, with 1, 18, 31, 64 digits after the point, %d, %u, %x, %o, width symbolic to 65536")
  public static void longFractions() {
    String whole = (Sym.choose("neg", 2) == 1 ? "-" : "") + WHOLES[Sym.choose("whole", WHOLES.length)];
    int scale = new int[] {1, 18, 31, 64}[Sym.choose("scale", 4)];
    String d = new String[] {"%*d", "%*u", "%*x", "%*o"}[Sym.choose("conversion", 4)];
    StringBuilder b = new StringBuilder(whole).append('.');
    for (int i = 0; i < scale; i++) b.append('7');
    int width = Sym.intIn("width", 0, Ref.MAX);
    String got = run(d, Args.create().putInt(width).put(new BigDecimal(b.toString())));
    Sym.checkEq(got, run(d, Args.create().putInt(width).put(new BigInteger(whole))), "coercion");
    Sym.out(got);
  }

  @Harness(property = "C18", bounds = "texts of 0..3 (thorough 5) symbolic characters out of +,-./ and digits as String, StringBuilder and char-by-char sequence")
  public static void texts() {
    Sym.abstractDecimals();
    int k = Sym.choose("kind", 6);
    int n = Sym.choose("length", Sym.thorough() ? 6 : 4);
    String s = Sym.str("s", n, '+', '9');
    check(k, s);
  }

  @Harness(property = "C18", bounds = "texts of 14..20 (8..11 for *) decimal digits, the last 1..3 symbolic, around 2^53 and the limits of long and int; integer conversions and * widths")
  public static void digits() {
    int k = Sym.choose("star", 2) == 1 ? STAR : I;
    String[] heads = k == I ? new String[] {"9007199254740", "92233720368547758", "-92233720368547758", "+1000000000000000000"} : new String[] {"2147483", "-2147483", "+21474836"};
    String s = heads[Sym.choose("head", heads.length)] + Sym.str("s", 1 + Sym.choose("length", 3), '0', '9');
    check(k, s);
  }

  @Harness(property = "C18", bounds = "texts of 1 (thorough 1..2) arbitrary characters, as String and StringBuilder")
  public static void anyText() {
    int k = new int[] {I, C, STAR, T}[Sym.choose("kind", 4)];
    check(k, Sym.str("s", 1 + Sym.choose("length", Sym.thorough() ? 2 : 1), (char) 0, (char) 0xFFFF));
  }

  private static void check(int k, String s) {
    Object c;
    try {
      switch (k) {
        case I:
          c = Long.parseLong(s);
          break;
        case F:
          c = Double.parseDouble(s);
          break;
        case C:
          c = s.isEmpty() ? REJECT : (Object) s.charAt(0);
          break;
        case T:
          c = REJECT;
          break;
        default:
          c = Integer.parseInt(s);
      }
    } catch (NumberFormatException e) {
      c = REJECT;
    }
    CharSequence v = Sym.bool("builder") ? new StringBuilder(s) : s;
    same(k, Args.create().put(v), c);
  }

  @Harness(property = "C18", bounds = "Date and Calendar of every millisecond of the years 1..9999, Instant, ZonedDateTime and OffsetDateTime of every nanosecond, Instants of every second and 3 (thorough 5) fractions of a second for the floating-point conversions, and local values, which have no epoch time")
  public static void times() {
    Sym.abstractDecimals();
    int k = kind();
    int type = Sym.choose("type", 6);
    if (type >= 3) {
      Object v = type == 3 ? LocalDate.ofEpochDay(Sym.longIn("d", 0, 24855)) : type == 4 ? (Object) LocalTime.ofSecondOfDay(Sym.intIn("s", 0, 86399)) : LocalDateTime.ofEpochSecond(Sym.longIn("s", 0, 2000000000L), 0, ZoneOffset.UTC);
      same(k, Args.create().put(v), REJECT);
      return;
    }
    if (type == 2 && k == F) {
      long seconds = Sym.longIn("s", -62135596800L, 253402300799L);
      int nanos = new int[] {0, 1, 123456789, 500000000, 999999999}[Sym.choose("nanos", Sym.thorough() ? 5 : 3)];
      double x = seconds;
      x += nanos / 1_000_000_000.0;
      same(k, Args.create().put(Instant.ofEpochSecond(seconds, nanos)), x);
      return;
    }
    if (type == 2) {
      long seconds = Sym.longIn("s", -62135596800L, 253402300799L);
      int nanos = Sym.intIn("nanos", 0, 999999999);
      Instant i = Instant.ofEpochSecond(seconds, nanos);
      int as = Sym.choose("as", 3);
      Args a = Args.create().put(as == 0 ? i : as == 1 ? i.atZone(ZoneId.of("Asia/Tokyo")) : (Object) i.atOffset(ZoneOffset.ofHours(-7)));
      same(k, a, k == I ? (Object) (seconds * 1000 + nanos / 1000000) : k == C ? REJECT : (Object) (int) seconds);
      return;
    }
    long ms = Sym.longIn("ms", -62135596800000L, 253402300799999L);
    Object v;
    if (type == 0) v = new Date(ms);
    else {
      Calendar c = Calendar.getInstance();
      c.setTimeInMillis(ms);
      v = c;
    }
    if (k == I) same(k, Args.create().put(v), ms);
    else if (k == F) same(k, Args.create().put(v), ms / 1000.0);
    else {
      int s = (int) (ms / 1000);
      same(k, Args.create().put(v), k == C ? (Object) (char) s : (Object) s);
    }
  }
}
