package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.time.Instant;
import java.time.LocalDate;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashSet;
import java.util.Iterator;
import java.util.List;
import sym.Harness;
import sym.Sym;

/** The same text however a value is passed, and the values reported back. */
public final class PassHarness {
  private static final String CONVERSIONS = "diuoxXfFeEgGaAcsStTn%";
  private static final String[] DIRECTIVES = {"", "08", "-+9.2", "#.3"};

  private static FastPrintf directive(String conversions) {
    String d = DIRECTIVES[Sym.choose("directive", Sym.thorough() ? DIRECTIVES.length : 2)];
    char c = conversions.charAt(Sym.choose("conversion", conversions.length()));
    return FastPrintf.compile("<%" + d + c + ">");
  }

  static String run(FastPrintf f, Args a) {
    try {
      return f.format(a);
    } catch (RuntimeException e) {
      return "!" + e.getClass().getName();
    }
  }

  private static String runVarargs(FastPrintf f, Object v) {
    try {
      return f.format(v);
    } catch (RuntimeException e) {
      return "!" + e.getClass().getName();
    }
  }

  private static final class Once implements Iterable<Object> {
    private final Object value;

    Once(Object value) {
      this.value = value;
    }

    @Override
    public Iterator<Object> iterator() {
      return Collections.singletonList(value).iterator();
    }
  }

  /** the ways an object can be passed, the typed ones excepted */
  private static Args pass(int how, Object v) {
    switch (how) {
      case 0:
        return Args.create().put(v);
      case 1:
        return Args.of(new Object[] {v});
      case 2:
        return Args.of((Iterable<?>) Collections.singletonList(v));
      case 3:
        return Args.of((Iterable<?>) new Once(v));
      case 4:
        return Args.of((Iterable<?>) Args.createWithExpectedSize(Sym.choose("size", 3)).put(v));
      case 5:
        return Args.of((Iterable<?>) new HashSet<>(Collections.singletonList(v)));
      default:
        throw new AssertionError();
    }
  }

  private static final int WAYS = 5;

  private static void same(FastPrintf f, Args typed, Args orNull, Object v) {
    String expect = run(f, typed);
    int how = Sym.choose("how", WAYS + 2);
    String got = how == WAYS ? run(f, orNull) : how == WAYS + 1 ? runVarargs(f, v) : run(f, pass(how, v));
    Sym.checkEq(got, expect, "the text depends on how the value is passed");
    Sym.checkEq(run(f, typed), expect, "the second time");
    Sym.out(expect);
  }

  @Harness(property = "C15", bounds = "all ints; every conversion; 2 (thorough 4) flag, width and precision combinations; 7 ways of passing")
  public static void ints() {
    Sym.abstractDecimals();
    FastPrintf f = directive(CONVERSIONS);
    int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
    same(f, Args.create().putInt(v), Args.create().putIntOrNull(v), v);
  }

  @Harness(property = "C15", bounds = "all longs; otherwise as for ints")
  public static void longs() {
    Sym.abstractDecimals();
    FastPrintf f = directive(CONVERSIONS);
    long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
    same(f, Args.create().putLong(v), Args.create().putLongOrNull(v), v);
  }

  @Harness(property = "C15", bounds = "all shorts and bytes; otherwise as for ints")
  public static void shorts() {
    Sym.abstractDecimals();
    FastPrintf f = directive(CONVERSIONS);
    if (Sym.choose("type", 2) == 0) {
      short v = (short) Sym.intIn("v", Short.MIN_VALUE, Short.MAX_VALUE);
      same(f, Args.create().putShort(v), Args.create().putShortOrNull(v), v);
    } else {
      byte v = (byte) Sym.intIn("v", Byte.MIN_VALUE, Byte.MAX_VALUE);
      same(f, Args.create().putByte(v), Args.create().putByteOrNull(v), v);
    }
  }

  @Harness(property = "C15", bounds = "all chars and both booleans; otherwise as for ints")
  public static void chars() {
    Sym.abstractDecimals();
    FastPrintf f = directive(CONVERSIONS);
    if (Sym.choose("type", 2) == 0) {
      char v = (char) Sym.intIn("v", 0, 0xFFFF);
      same(f, Args.create().putChar(v), Args.create().putCharOrNull(v), v);
    } else {
      boolean v = Sym.bool("v");
      same(f, Args.create().putBoolean(v), Args.create().putBooleanOrNull(v), v);
    }
  }

  @Harness(property = "C15", bounds = "all doubles; otherwise as for ints")
  public static void doubles() {
    Sym.abstractDecimals();
    FastPrintf f = directive(CONVERSIONS);
    double v = Double.longBitsToDouble(Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE));
    same(f, Args.create().putDouble(v), Args.create().putDoubleOrNull(v), v);
  }

  @Harness(property = "C15", bounds = "all floats; otherwise as for ints")
  public static void floats() {
    Sym.abstractDecimals();
    FastPrintf f = directive(CONVERSIONS);
    float v = Float.intBitsToFloat(Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE));
    same(f, Args.create().putFloat(v), Args.create().putFloatOrNull(v), v);
  }

  @Harness(property = "C15", bounds = "texts of 0..3 symbolic characters for the text conversions, of 0..2 digits for the others, as String and StringBuilder")
  public static void texts() {
    boolean text = Sym.choose("text", 2) == 1;
    FastPrintf f = directive(text ? "csS" : "diuoxXfegtT");
    String s = text
        ? Sym.str("v", Sym.choose("length", 4), (char) 0, (char) 0xFFFF)
        : Sym.str("v", Sym.choose("length", 3), '-', '9');
    CharSequence v = Sym.choose("type", 2) == 0 ? s : new StringBuilder(s);
    same(f, Args.create().putCharSequence(v), v instanceof String ? Args.create().putString(s) : Args.create().putString(s), v);
  }

  @Harness(property = "C15", bounds = "BigIntegers of 1..20 symbolic digits, BigDecimals of 3 symbolic digits and scale -2..3; otherwise as for ints")
  public static void bigs() {
    Sym.abstractDecimals();
    FastPrintf f = directive(CONVERSIONS);
    if (Sym.choose("type", 2) == 0) {
      BigInteger v = BigInteger.valueOf(Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE));
      same(f, Args.create().putBigInteger(v), Args.create().putBigInteger(v), v);
    } else {
      BigDecimal v = BigDecimal.valueOf(Sym.longIn("v", -999, 999), Sym.choose("scale", 6) - 2);
      same(f, Args.create().putBigDecimal(v), Args.create().putBigDecimal(v), v);
    }
  }

  @Harness(property = "C15", bounds = "Instants of any epoch second of the years 1..9999, any LocalDate of 1970..2038; %s, %S, %t, %T, %d, %f")
  public static void times() {
    Sym.abstractDecimals();
    FastPrintf f = directive("sStTdxc");
    if (Sym.choose("type", 2) == 0) {
      Instant v = Instant.ofEpochSecond(Sym.longIn("v", -62135596800L, 253402300799L));
      same(f, Args.create().putDateTime(v), Args.create().putDateTime(v), v);
    } else {
      LocalDate v = LocalDate.ofEpochDay(Sym.longIn("v", 0, 24855));
      same(f, Args.create().putDateTime(v), Args.create().putDateTime(v), v);
    }
  }

  private static Args none(int how) {
    switch (how) {
      case 0:
        return Args.create().putNull();
      case 1:
        return Args.create().putBooleanOrNull(null);
      case 2:
        return Args.create().putCharOrNull(null);
      case 3:
        return Args.create().putByteOrNull(null);
      case 4:
        return Args.create().putShortOrNull(null);
      case 5:
        return Args.create().putIntOrNull(null);
      case 6:
        return Args.create().putLongOrNull(null);
      case 7:
        return Args.create().putFloatOrNull(null);
      case 8:
        return Args.create().putDoubleOrNull(null);
      case 9:
        return Args.create().putString(null);
      case 10:
        return Args.create().putCharSequence(null);
      case 11:
        return Args.create().putBigInteger(null);
      case 12:
        return Args.create().putBigDecimal(null);
      case 13:
        return Args.create().putDateTime(null);
      case 14:
        return Args.of((Object[]) null);
      default:
        return pass(how - 15, null);
    }
  }

  @Harness(property = "C15", bounds = "null in each of the 21 ways of passing it; every conversion; symbolic '*' width 0..12")
  public static void nulls() {
    Args a = none(Sym.choose("how", 16 + WAYS));
    List<Object> back = a.values();
    Sym.check(back.size() == 1 && back.get(0) == null, "null is not reported back");
    char c = CONVERSIONS.charAt(Sym.choose("conversion", CONVERSIONS.length()));
    FastPrintf f = FastPrintf.compile("<%" + c + ">");
    Sym.checkEq(run(f, a), run(f, Args.create().putNull()), "the text of null depends on how it is passed");
    Sym.checkEq(runVarargs(f, null), run(f, a), "varargs null");
    int w = Sym.intIn("w", 0, 12);
    String expect = run(FastPrintf.compile("<%*s>"), Args.create().putInt(w).putString("null"));
    Sym.checkEq(run(FastPrintf.compile("<%*s>"), Args.of(Arrays.asList(w, null))), expect, "text of null");
    Sym.out(expect);
  }

  private static Object put(Args a, int kind, int i) {
    boolean typed = Sym.bool("typed" + i);
    switch (kind) {
      case 0: {
        int v = Sym.intIn("v" + i, Integer.MIN_VALUE, Integer.MAX_VALUE);
        if (typed) a.putInt(v);
        else a.put(v);
        return v;
      }
      case 1: {
        long v = Sym.longIn("v" + i, Long.MIN_VALUE, Long.MAX_VALUE);
        if (typed) a.putLong(v);
        else a.putLongOrNull(v);
        return v;
      }
      case 2: {
        short v = (short) Sym.intIn("v" + i, Short.MIN_VALUE, Short.MAX_VALUE);
        if (typed) a.putShort(v);
        else a.putShortOrNull(v);
        return v;
      }
      case 3: {
        byte v = (byte) Sym.intIn("v" + i, Byte.MIN_VALUE, Byte.MAX_VALUE);
        if (typed) a.putByte(v);
        else a.putByteOrNull(v);
        return v;
      }
      case 4: {
        char v = (char) Sym.intIn("v" + i, 0, 0xFFFF);
        if (typed) a.putChar(v);
        else a.putCharOrNull(v);
        return v;
      }
      case 5: {
        boolean v = Sym.bool("v" + i);
        if (typed) a.putBoolean(v);
        else a.putBooleanOrNull(v);
        return v;
      }
      case 6: {
        double v = Double.longBitsToDouble(Sym.longIn("v" + i, Long.MIN_VALUE, Long.MAX_VALUE));
        if (typed) a.putDouble(v);
        else a.putDoubleOrNull(v);
        return v;
      }
      case 7: {
        float v = Float.intBitsToFloat(Sym.intIn("v" + i, Integer.MIN_VALUE, Integer.MAX_VALUE));
        if (typed) a.putFloat(v);
        else a.putFloatOrNull(v);
        return v;
      }
      case 8: {
        if (typed) a.putIntOrNull(null);
        else a.putNull();
        return null;
      }
      case 9: {
        int v = Sym.intIn("v" + i, Integer.MIN_VALUE, Integer.MAX_VALUE);
        a.putIntOrNull(v);
        return v;
      }
      default:
        throw new AssertionError();
    }
  }

  private static boolean equal(Object a, Object b) {
    if (a == null || b == null) return a == b;
    if (a.getClass() != b.getClass()) return false;
    if (a instanceof Double)
      return Double.doubleToRawLongBits((Double) a) == Double.doubleToRawLongBits((Double) b) || (Double) a != (double) (Double) a && (Double) b != (double) (Double) b;
    if (a instanceof Float)
      return Float.floatToRawIntBits((Float) a) == Float.floatToRawIntBits((Float) b) || (Float) a != (float) (Float) a && (Float) b != (float) (Float) b;
    return a.equals(b);
  }

  @Harness(property = "C15", bounds = "1..2 (thorough 3) values of every primitive type, all values, by primitive or nullable put, null included")
  public static void reported() {
    int n = 1 + Sym.choose("count", Sym.thorough() ? 3 : 2);
    Args a = Args.create();
    List<Object> put = new ArrayList<>();
    for (int i = 0; i < n; i++) put.add(put(a, Sym.choose("kind" + i, 10), i));
    for (int round = 0; round < 2; round++) {
      List<Object> back = a.values();
      Sym.check(back.size() == n, "number of values");
      for (int i = 0; i < n; i++) Sym.check(equal(back.get(i), put.get(i)), "value reported back");
    }
    List<Object> again = Args.of(put).values();
    Sym.check(again.size() == n, "number of values of an iterable");
    for (int i = 0; i < n; i++) Sym.check(equal(again.get(i), put.get(i)), "value of an iterable reported back");
  }

  @Harness(property = "C15", bounds = "objects of 9 classes, each as the first or second of two arguments, in every way of passing; the object itself is reported back")
  public static void objects() {
    Object[] all = {
      "text", new StringBuilder("text"), BigInteger.ONE, BigDecimal.TEN, LocalDate.ofEpochDay(3), new Object(),
      new int[] {1}, Arrays.asList(1, 2), new Object[] {null}, new ArrayDeque<Object>()
    };
    Object v = all[Sym.choose("object", all.length)];
    int w = Sym.intIn("w", -200, 200);
    boolean first = Sym.bool("first");
    int how = Sym.choose("how", 4);
    Args a;
    switch (how) {
      case 0:
        a = first ? Args.create().put(v).put(w) : Args.create().put(w).put(v);
        break;
      case 1:
        a = first ? Args.of(v, w) : Args.of(w, v);
        break;
      case 2:
        a = Args.of(first ? Arrays.asList(v, w) : Arrays.asList(w, v));
        break;
      default:
        a = Args.create();
        if (!first) a.putInt(w);
        if (v instanceof String) a.putString((String) v);
        else if (v instanceof CharSequence) a.putCharSequence((CharSequence) v);
        else if (v instanceof BigInteger) a.putBigInteger((BigInteger) v);
        else if (v instanceof BigDecimal) a.putBigDecimal((BigDecimal) v);
        else if (v instanceof LocalDate) a.putDateTime((LocalDate) v);
        else a.put(v);
        if (first) a.putInt(w);
    }
    List<Object> back = a.values();
    Sym.check(back.size() == 2, "number of values");
    Sym.check(back.get(first ? 0 : 1) == v, "the object is reported back");
    Sym.check(equal(back.get(first ? 1 : 0), w), "the other value is reported back");
    FastPrintf f = FastPrintf.compile("%s,%s");
    Sym.checkEq(run(f, a), run(f, first ? Args.create().put(v).putInt(w) : Args.create().putInt(w).put(v)), "text");
    Sym.checkEq(run(f, a), run(f, a), "the second time");
  }

  @Harness(property = "C15", bounds = "lists of 9, 11, 17, 33, 70 and 130 values of nine kinds, four of all values in -9..9, as varargs, iterable, put and typed put: the values reported back and %s of each")
  public static void many() {
    int n = new int[] {9, 11, 17, 33, 70, 130}[Sym.choose("values", 6)], how = Sym.choose("how", 4);
    List<Object> l = new ArrayList<>();
    Args a = Args.create();
    StringBuilder f = new StringBuilder(), want = new StringBuilder();
    for (int i = 0; i < n; i++) {
      int v = i < 2 || i == n / 2 || i == n - 1 ? Sym.intIn("v", -9, 9) : i;
      Object o = i % 9 == 0 ? (Object) Integer.valueOf(v) : i % 9 == 1 ? (Object) Long.valueOf(v) : i % 9 == 2 ? null : i % 9 == 3 ? "t" + i : i % 9 == 4 ? (Object) (byte) v : i % 9 == 5 ? (Object) (short) v : i % 9 == 6 ? (Object) (i % 2 == 0) : i % 9 == 7 ? (Object) (char) ('A' + i) : java.math.BigInteger.valueOf(i);
      l.add(o);
      if (how == 2) a.put(o);
      else if (how == 3) {
        switch (i % 9) {
          case 0:
            a.putInt(v);
            break;
          case 1:
            a.putLong(v);
            break;
          case 2:
            a.putNull();
            break;
          case 3:
            a.putString((String) o);
            break;
          case 4:
            a.putByte((byte) v);
            break;
          case 5:
            a.putShort((short) v);
            break;
          case 6:
            a.putBoolean(i % 2 == 0);
            break;
          case 7:
            a.putChar((char) ('A' + i));
            break;
          default:
            a.putBigInteger((java.math.BigInteger) o);
        }
      }
      f.append("%s,");
      want.append(o).append(',');
    }
    if (how < 2) a = how == 0 ? Args.of(l.toArray()) : Args.of(l);
    List<Object> got = a.values();
    Sym.check(got.size() == n, "number of values");
    for (int i = 0; i < n; i++) Sym.check(l.get(i) == null ? got.get(i) == null : l.get(i).equals(got.get(i)), "value");
    for (int i = 0; i < 2; i++) Sym.checkEq(FastPrintf.compile(f.toString()).format(a), want.toString(), "text");
  }
}
