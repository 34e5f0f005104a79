package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.math.BigInteger;
import java.time.DateTimeException;
import java.time.Instant;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.LocalTime;
import java.time.OffsetDateTime;
import java.time.ZoneId;
import java.time.ZoneOffset;
import java.time.ZonedDateTime;
import java.time.format.DateTimeFormatter;
import java.time.temporal.TemporalAccessor;
import java.util.Calendar;
import java.util.Date;
import java.util.concurrent.atomic.AtomicLong;
import sym.Harness;
import sym.Sym;

/** %t and %T: which moment an argument denotes and how its text is laid out. */
public final class TimeHarness {
  private static final ZoneOffset[] OFFSETS = {
    ZoneOffset.ofHours(-7), ZoneOffset.UTC, ZoneOffset.ofTotalSeconds(20700), ZoneOffset.ofTotalSeconds(-3601),
    ZoneOffset.MAX, ZoneOffset.MIN, ZoneOffset.ofTotalSeconds(59)
  };
  private static final long FIRST = -31000000000000L, LAST = 31000000000000L; // years
  private static final String[] PATTERNS = {null, "yyyy-MM-dd HH:mm:ss", "HH", "yyyy/MM", "''yy''", "XXX", "'\u00e9\u00df\u0131'd"};

  /** the text of a value, or null if it has none */
  private static String text(TemporalAccessor t, String pattern) {
    if (t instanceof Instant) t = ((Instant) t).atZone(ZoneId.systemDefault());
    DateTimeFormatter f;
    if (pattern != null) f = DateTimeFormatter.ofPattern(pattern);
    else if (t instanceof ZonedDateTime || t instanceof OffsetDateTime) f = DateTimeFormatter.ISO_OFFSET_DATE_TIME;
    else if (t instanceof LocalDateTime) f = DateTimeFormatter.ISO_LOCAL_DATE_TIME;
    else if (t instanceof LocalDate) f = DateTimeFormatter.ISO_LOCAL_DATE;
    else return null;
    try {
      return f.format(t);
    } catch (DateTimeException e) {
      return null;
    }
  }

  private static String run(FastPrintf f, Args a) {
    try {
      return f.format(a);
    } catch (PrintfException e) {
      return null;
    }
  }

  private static void same(String got, String text, boolean upper, int mask, int w) {
    if (text == null) {
      Sym.check(got == null, "no PrintfException");
      return;
    }
    String e = upper ? SeqHarness.upper(text) : text;
    String p = Ref.pad(e, mask, w);
    Sym.checkEq(got, "<" + p + ">", "text");
    Sym.out(got);
  }

  private static String directive(boolean star, int mask, boolean upper, String pattern) {
    return "<%" + Ref.flags(mask) + (star ? "*" : "") + (upper ? 'T' : 't') + (pattern == null ? "" : "{" + pattern + "}") + ">";
  }

  private static void check(Args a, TemporalAccessor denoted) {
    String pattern = PATTERNS[Sym.choose("pattern", PATTERNS.length)];
    boolean upper = Sym.choose("upper", 2) == 1;
    same(run(FastPrintf.compile(directive(false, 0, upper, pattern)), a), text(denoted, pattern), upper, 0, 0);
  }

  private static Args integer(int type, long v) {
    switch (type) {
      case 0:
        return Args.create().putLong(v);
      case 1:
        return Args.of(v);
      case 2:
        return Args.create().putBigInteger(BigInteger.valueOf(v));
      default:
        return Args.of(new AtomicLong(v));
    }
  }

  @Harness(property = "C17", bounds = "all longs from 0 as long, Long, BigInteger and AtomicLong; 6 patterns or none; %t and %T")
  public static void longs() {
    long v = Sym.longIn("v", 0, Sym.choose("large", 2) == 0 ? 0x1FFFFFFFFL : Long.MAX_VALUE);
    Instant i = v <= 0xFFFFFFFFL ? Instant.ofEpochSecond(v) : Instant.ofEpochMilli(v);
    check(integer(Sym.choose("type", 4), v), i);
  }

  @Harness(property = "C17", bounds = "all ints, put and boxed, read as unsigned; 6 patterns or none; %t and %T")
  public static void ints() {
    int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
    Instant i = Instant.ofEpochSecond(v & 0xFFFFFFFFL);
    check(Sym.choose("put", 2) == 0 ? Args.create().putInt(v) : Args.of(v), i);
  }

  @Harness(property = "C17", bounds = "all negative longs as long, Long, BigInteger and AtomicLong; BigIntegers of 20 digits")
  public static void negative() {
    boolean big = Sym.choose("big", 2) == 1;
    Args a = big
        ? Args.of(Sym.choose("minus", 2) == 1 ? Sym.bigDigits("b", 20).negate() : Sym.bigDigits("b", 20))
        : integer(Sym.choose("type", 4), Sym.longIn("v", Long.MIN_VALUE, -1));
    String pattern = PATTERNS[Sym.choose("pattern", 2)];
    try {
      FastPrintf.compile(directive(false, 0, false, pattern)).format(a);
    } catch (PrintfException | IllegalArgumentException e) {
      return;
    }
    Sym.fail("not rejected");
  }

  @Harness(property = "C17", bounds = "every second of the years -980000..980000 and every nanosecond of it; Instant, ZonedDateTime and OffsetDateTime (9 zones and offsets), LocalDateTime; LocalDates 1970..2038, LocalTimes; 6 patterns or none")
  public static void values() {
    long s = Sym.longIn("s", FIRST, LAST);
    int n = Sym.intIn("n", 0, 999999999);
    Instant i = Instant.ofEpochSecond(s, n);
    TemporalAccessor t;
    switch (Sym.choose("type", 8)) {
      case 0:
        t = i;
        break;
      case 1:
        t = i.atZone(ZoneId.of("Asia/Tokyo"));
        break;
      case 2:
        t = i.atZone(ZoneOffset.UTC);
        break;
      case 3:
        t = i.atOffset(OFFSETS[Sym.choose("offset", OFFSETS.length)]);
        break;
      case 4:
        t = LocalDateTime.ofEpochSecond(s, n, ZoneOffset.UTC);
        break;
      case 5:
        t = LocalDate.ofEpochDay(Sym.longIn("d", 0, 24855));
        break;
      case 6:
        t = LocalTime.ofSecondOfDay(Sym.longIn("d", 0, 86399));
        break;
      default:
        t = LocalDateTime.ofInstant(i, ZoneId.systemDefault());
    }
    check(Sym.choose("put", 2) == 0 ? Args.create().putDateTime(t) : Args.of(t), t);
  }

  @Harness(property = "C17", bounds = "every millisecond of the years -980000..980000, as Date, a subclass of Date without toInstant (as java.sql.Date), Calendar; 6 patterns or none")
  public static void dates() {
    long v = Sym.longIn("v", FIRST * 1000, LAST * 1000);
    Object o;
    int type = Sym.choose("type", 3);
    if (type == 2) {
      Calendar c = Calendar.getInstance();
      c.setTimeInMillis(v);
      o = c;
    } else o = type == 0 ? new Date(v) : new Unconvertible(v);
    check(Args.of(o), Instant.ofEpochMilli(v));
  }

  /** like java.sql.Date */
  private static final class Unconvertible extends Date {
    Unconvertible(long v) {
      super(v);
    }

    @Override
    public Instant toInstant() {
      throw new UnsupportedOperationException();
    }
  }

  @Harness(property = "C17", bounds = "an Instant, a LocalDate and a long, '*' widths -65536..65536, '-' or not, 2 patterns or none, %t and %T")
  public static void layout() {
    int mask = Sym.choose("minus", 2) == 1 ? Ref.MINUS : 0;
    String pattern = PATTERNS[new int[] {0, 3}[Sym.choose("pattern", 2)]];
    boolean upper = Sym.choose("upper", 2) == 1;
    long v = Sym.longIn("v", 0, 30000);
    int type = Sym.choose("type", 3);
    TemporalAccessor t = type == 1 ? LocalDate.ofEpochDay(v) : Instant.ofEpochSecond(v);
    boolean neg = Sym.choose("negative", 2) == 1;
    int w = Sym.intIn("w", neg ? 1 : 0, Ref.MAX);
    Args a = Args.create().putInt(neg ? -w : w);
    if (type == 2) a.putLong(v);
    else a.put(t);
    same(run(FastPrintf.compile(directive(true, mask, upper, pattern)), a), text(t, pattern), upper, neg ? mask | Ref.MINUS : mask, w);
  }

  @Harness(property = "C17", bounds = "arguments that denote no moment: null, text, chars, booleans, floating-point numbers, small integers, arrays; all values")
  public static void others() {
    Args a;
    switch (Sym.choose("type", 9)) {
      case 0:
        a = Args.create().putNull();
        break;
      case 1:
        a = Args.of(Sym.str("s", 2, '0', 'z'));
        break;
      case 2:
        a = Args.create().putChar((char) Sym.intIn("c", 0, 0xFFFF));
        break;
      case 3:
        a = Args.of(Sym.bool("b"));
        break;
      case 4:
        a = Args.create().putDouble(Double.longBitsToDouble(Sym.longIn("d", Long.MIN_VALUE, Long.MAX_VALUE)));
        break;
      case 5:
        a = Args.of(Float.intBitsToFloat(Sym.intIn("f", Integer.MIN_VALUE, Integer.MAX_VALUE)));
        break;
      case 6:
        a = Args.create().putShort((short) Sym.intIn("v", Short.MIN_VALUE, Short.MAX_VALUE));
        break;
      case 7:
        a = Args.of((byte) Sym.intIn("v", Byte.MIN_VALUE, Byte.MAX_VALUE));
        break;
      default:
        a = Args.of((Object) new long[] {1});
    }
    String pattern = PATTERNS[Sym.choose("pattern", 2)];
    Sym.check(run(FastPrintf.compile(directive(false, 0, Sym.choose("upper", 2) == 1, pattern)), a) == null, "no PrintfException");
  }
}
