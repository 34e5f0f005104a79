package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import sym.Harness;
import sym.Sym;

/** %s and %c. */
public final class TextHarness {
  static final char MIN = 0, MAX = 0xFFFF;

  /** a CharSequence that is not a String */
  static final class Chars implements CharSequence {
    final String s;

    Chars(String s) {
      this.s = s;
    }

    @Override
    public int length() {
      return s.length();
    }

    @Override
    public char charAt(int i) {
      return s.charAt(i);
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      return new Chars(s.substring(a, b));
    }

    @Override
    public String toString() {
      return s;
    }
  }

  static final class Named {
    final String s;

    Named(String s) {
      this.s = s;
    }

    @Override
    public String toString() {
      return s;
    }
  }

  static String cut(String s, int prec) {
    return prec >= 0 && prec < s.length() ? s.substring(0, prec) : s;
  }

  static void check(Args a, String text, char conv) {
    String got = FastPrintf.compile(Ref.directive(IntHarness.mask, IntHarness.w, IntHarness.p, conv)).format(a);
    Sym.out(got);
    Sym.checkEq(got, Ref.pad(conv == 's' ? cut(text, IntHarness.prec) : text, IntHarness.mask, IntHarness.width), "%" + conv);
  }

  static int limit(int quick, int thorough) {
    return Sym.thorough() ? thorough : quick;
  }

  /** the shape with a reduced choice of flags */
  static Args shape() {
    IntHarness.mask = new int[] {0, Ref.MINUS, Ref.ZERO, Ref.PLUS | Ref.SPACE | Ref.ALT | Ref.ZERO}[Sym.choose("flags", 4)];
    return IntHarness.field();
  }

  @Harness(property = "C08", bounds = "texts of 0..3 (thorough 0..8) arbitrary chars as String, Seq, StringBuilder, other CharSequence and object with toString; 32 flag sets; width and precision absent or 0..65536")
  public static void texts() {
    Args a = IntHarness.shape();
    String t = Sym.str("t", Sym.choose("length", limit(4, 9)), MIN, MAX);
    switch (Sym.choose("as", 6)) {
      case 0: a.putString(t); break;
      case 1: a.put(t); break;
      case 2: a.put(new StringBuilder(t)); break;
      case 3: a.putCharSequence(new Chars(t)); break;
      case 4: a.put(new Named(t)); break;
      default: a.put(Seq.wrap(t));
    }
    check(a, t, 's');
  }

  @Harness(property = "C08", bounds = "texts of symbolic length up to 65538 (two arbitrary chars around a run of an arbitrary char); 4 flag sets; width and precision absent or 0..65536")
  public static void longTexts() {
    Args a = shape();
    StringBuilder sb = new StringBuilder();
    sb.append(Sym.ch("first", MIN, MAX));
    int as = Sym.choose("as", 3);
    Sym.rep(sb, Sym.ch("run", MIN, MAX), Sym.intIn("count", 0, as == 1 ? 6 : Ref.MAX));
    sb.append(Sym.ch("last", MIN, MAX));
    String t = sb.toString();
    switch (as) {
      case 0: a.putString(t); break;
      case 1: a.put(new Chars(t)); break;
      default: a.put(new Named(t));
    }
    check(a, t, 's');
  }

  @Harness(property = "C08", bounds = "every byte, short, int, long, char, boolean; null; 4 flag sets; width and precision absent or 0..65536")
  public static void values() {
    Args a = shape();
    String t;
    switch (Sym.choose("type", 9)) {
      case 0: {
        byte v = (byte) Sym.intIn("v", -128, 127);
        a.putByte(v);
        t = Byte.toString(v);
        break;
      }
      case 1: {
        short v = (short) Sym.intIn("v", -32768, 32767);
        a.putShort(v);
        t = Short.toString(v);
        break;
      }
      case 2: {
        int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
        a.putInt(v);
        t = Integer.toString(v);
        break;
      }
      case 3: {
        long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
        a.putLong(v);
        t = Long.toString(v);
        break;
      }
      case 4: {
        char v = Sym.ch("v", MIN, MAX);
        a.putChar(v);
        t = String.valueOf(v);
        break;
      }
      case 5: {
        boolean v = Sym.bool("v");
        a.putBoolean(v);
        t = v ? "true" : "false";
        break;
      }
      case 6:
        a.putNull();
        t = "null";
        break;
      case 7: {
        long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
        a.putBigInteger(BigInteger.valueOf(v));
        t = Long.toString(v);
        break;
      }
      default: {
        long v = Sym.longIn("v", -99999, 99999);
        BigDecimal d = BigDecimal.valueOf(v, new int[] {0, 2, 12, -3}[Sym.choose("scale", 4)]);
        a.putBigDecimal(d);
        t = d.toString();
      }
    }
    check(a, t, 's');
  }

  @Harness(property = "C08", bounds = "every double and float bit pattern, the text being that of Double/Float.toString; 4 flag sets; width and precision absent or 0..65536")
  public static void floats() {
    Args a = shape();
    if (Sym.choose("type", 2) == 0) {
      double v = Sym.doubleBits("v");
      check(Sym.choose("boxed", 2) == 0 ? a.putDouble(v) : a.put(v), Double.toString(v), 's');
    } else {
      float v = Sym.floatBits("v");
      check(Sym.choose("boxed", 2) == 0 ? a.putFloat(v) : a.put(v), Float.toString(v), 's');
    }
  }

  static final String[] DOUBLES = {
    "0.0", "-0.0", "1.0", "-1.0", "100.0", "123456.0", "9999999.0", "1.0E7", "1.0E10", "9.007199254740993E15", "9.223372036854776E18", "1.0E21",
    "0.1", "0.001", "9.99E-4", "1.0E-5", "-1.5E-10", "1.1", "123.456", "1.7976931348623157E308", "2.2250738585072014E-308", "1.0E-320", "NaN", "Infinity", "-Infinity"
  };
  static final String[] FLOATS = {
    "0.0", "-0.0", "1.0", "-1.0", "100.0", "9999999.0", "1.0E7", "1.6777216E7", "1.0E10", "0.1", "0.3", "1.1", "0.001", "1.0E-5", "123.456", "3.4028235E38", "1.17549435E-38", "NaN",
    "Infinity", "-Infinity"
  };

  @Harness(property = "C08", bounds = "25 doubles and 20 floats at the changes of layout; 4 flag sets; width and precision absent or 0..65536")
  public static void knownFloats() {
    Args a = shape();
    if (Sym.choose("type", 2) == 0) {
      String t = DOUBLES[Sym.choose("v", DOUBLES.length)];
      double v = Double.parseDouble(t);
      t = Double.toString(v);
      check(Sym.choose("boxed", 2) == 0 ? a.putDouble(v) : a.put(v), t, 's');
    } else {
      String t = FLOATS[Sym.choose("v", FLOATS.length)];
      float v = Float.parseFloat(t);
      t = Float.toString(v);
      check(Sym.choose("boxed", 2) == 0 ? a.putFloat(v) : a.put(v), t, 's');
    }
  }

  private enum Colour {
    RED;

    @Override
    public String toString() {
      return "red";
    }
  }

  @Harness(property = "C08", bounds = "objects of 16 further classes: collections, enums, references, classes, errors, atomic numbers, dates and times; 4 flag sets; width and precision absent or 0..65536")
  public static void objects() {
    Args a = shape();
    Object o;
    int v = Sym.intIn("v", -99, 99);
    switch (Sym.choose("object", 16)) {
      case 0: o = java.util.Arrays.asList(1, "a", null); break;
      case 1: o = java.util.Collections.singletonMap("k", 2); break;
      case 2: o = new StringBuffer("x"); break;
      case 3: o = java.util.Optional.empty(); break;
      case 4: o = Colour.RED; break;
      case 5: o = io.fastprintf.Flag.PLUS; break;
      case 6: o = new java.util.concurrent.atomic.AtomicInteger(v); break;
      case 7: o = new java.util.concurrent.atomic.AtomicLong(v); break;
      case 8: o = new java.util.concurrent.atomic.AtomicReference<>("r"); break;
      case 9: o = new java.util.concurrent.atomic.AtomicBoolean(true); break;
      case 10: o = String.class; break;
      case 11: o = new Throwable("t"); break;
      case 12: o = java.time.LocalDate.ofEpochDay(19000); break;
      case 13: o = java.time.Instant.ofEpochSecond(1234567890); break;
      case 14: o = new java.util.Date(1234567890000L); break;
      default: o = new java.util.ArrayList<>(); break;
    }
    check(a.put(o), o.toString(), 's');
  }

  @Harness(property = "C08", bounds = "byte[] of 0..7 symbolic bytes (Base64), char[], boolean[], short[], int[], long[], float[], double[], Object[] of 0..2 symbolic elements, nulls and nested values; width and precision absent or 0..65536")
  public static void arrays() {
    IntHarness.mask = 0;
    Args a = IntHarness.field();
    int kind = Sym.choose("kind", 10);
    int n = Sym.choose("length", kind == 0 ? 8 : 3);
    String t;
    switch (kind) {
      case 0: {
        byte[] b = new byte[n];
        for (int i = 0; i < n; i++) b[i] = (byte) Sym.intIn("b", -128, 127);
        t = base64(b);
        a.put(b);
        break;
      }
      case 1: {
        String s = Sym.str("c", n, MIN, MAX);
        a.put(s.toCharArray());
        t = s;
        break;
      }
      case 2: {
        boolean[] b = new boolean[n];
        StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < n; i++) {
          b[i] = Sym.bool("z");
          sb.append(i > 0 ? ", " : "").append(b[i] ? "true" : "false");
        }
        a.put(b);
        t = sb.append(']').toString();
        break;
      }
      case 3: {
        short[] b = new short[n];
        StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < n; i++) {
          b[i] = (short) Sym.intIn("s", -32768, 32767);
          sb.append(i > 0 ? ", " : "").append((int) b[i]);
        }
        a.put(b);
        t = sb.append(']').toString();
        break;
      }
      case 4: {
        int[] b = new int[n];
        StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < n; i++) {
          b[i] = Sym.intIn("i", -9999, 9999);
          sb.append(i > 0 ? ", " : "").append(b[i]);
        }
        a.put(b);
        t = sb.append(']').toString();
        break;
      }
      case 5: {
        long[] b = new long[n];
        StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < n; i++) {
          b[i] = Sym.longIn("l", -9999, 9999);
          sb.append(i > 0 ? ", " : "").append(b[i]);
        }
        a.put(b);
        t = sb.append(']').toString();
        break;
      }
      case 6: {
        Object[] b = new Object[n];
        StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < n; i++) {
          String e = Sym.str("e", 1, MIN, MAX);
          int k = Sym.choose("element", 3);
          b[i] = k == 0 ? e : k == 1 ? new Named(e) : null;
          sb.append(i > 0 ? ", " : "").append(k < 2 ? e : "null");
        }
        a.put(b);
        t = sb.append(']').toString();
        break;
      }
      case 7: {
        double[] b = new double[n];
        StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < n; i++) {
          String e = DOUBLES[Sym.choose("d", i == 0 ? DOUBLES.length : 3)];
          b[i] = Double.parseDouble(e);
          e = Double.toString(b[i]);
          sb.append(i > 0 ? ", " : "").append(e);
        }
        a.put(b);
        t = sb.append(']').toString();
        break;
      }
      case 8: {
        float[] b = new float[n];
        StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < n; i++) {
          String e = FLOATS[Sym.choose("f", i == 0 ? FLOATS.length : 3)];
          b[i] = Float.parseFloat(e);
          e = Float.toString(b[i]);
          sb.append(i > 0 ? ", " : "").append(e);
        }
        a.put(b);
        t = sb.append(']').toString();
        break;
      }
      default: {
        String[] b = new String[n];
        StringBuilder sb = new StringBuilder("[");
        for (int i = 0; i < n; i++) {
          b[i] = Sym.str("e", 2, MIN, MAX);
          sb.append(i > 0 ? ", " : "").append(b[i]);
        }
        a.put(b);
        t = sb.append(']').toString();
      }
    }
    check(a, t, 's');
  }

  @Harness(property = "C08", bounds = "empty arrays of 12 element types, arrays of arrays, of boxed numbers, of lists and of enums; width and precision absent or 0..65536")
  public static void otherArrays() {
    IntHarness.mask = 0;
    Args a = IntHarness.field();
    int kind = Sym.choose("kind", 20), v = Sym.intIn("v", -9, 99);
    String t = "[]";
    Object o;
    switch (kind) {
      case 0: o = new int[0][]; break;
      case 1: o = new String[0][0]; break;
      case 2: o = new Object[0]; break;
      case 3: o = new Integer[0]; break;
      case 4: o = new boolean[0]; break;
      case 5: o = new short[0]; break;
      case 6: o = new float[0]; break;
      case 7: o = new double[0]; break;
      case 8: o = new java.util.Date[0]; break;
      case 9: o = new char[0][0]; break;
      case 10: o = new Character[0]; break;
      case 11: o = new Byte[0]; break;
      case 12: o = new Integer[] {v, null, v}; t = "[" + v + ", null, " + v + "]"; break;
      case 13: o = new Character[] {'a', (char) v}; t = "[a, " + (char) v + "]"; break;
      case 14: o = new Byte[] {1, (byte) v}; t = "[1, " + v + "]"; break;
      case 15: o = new Object[] {new java.util.ArrayList<>(), java.util.Arrays.asList(1, 2), v}; t = "[[], [1, 2], " + v + "]"; break;
      case 16: o = new Object[] {java.util.concurrent.TimeUnit.DAYS, true, 7L, 'c'}; t = "[DAYS, true, 7, c]"; break;
      case 17: {
        int[] inner = {v};
        o = new int[][] {inner, null};
        t = "[[I@" + Integer.toHexString(System.identityHashCode(inner)) + ", null]";
        break;
      }
      case 18: {
        byte[] inner = {1};
        o = new Object[] {inner};
        t = "[[B@" + Integer.toHexString(System.identityHashCode(inner)) + "]";
        break;
      }
      default: o = new CharSequence[] {"", new StringBuilder("x"), " "}; t = "[, x,  ]";
    }
    check(a.put(o), t, 's');
  }

  /** Base64 written from its definition */
  private static String base64(byte[] b) {
    String abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < b.length; i += 3) {
      int n = Math.min(3, b.length - i);
      int v = (b[i] & 255) << 16 | (n > 1 ? (b[i + 1] & 255) << 8 : 0) | (n > 2 ? b[i + 2] & 255 : 0);
      sb.append(abc.charAt(v >> 18)).append(abc.charAt(v >> 12 & 63));
      sb.append(n > 1 ? abc.charAt(v >> 6 & 63) : '=').append(n > 2 ? abc.charAt(v & 63) : '=');
    }
    return sb.toString();
  }

  @Harness(property = "C08", bounds = "texts of 17, 33, 65, 130, 300, 1030 chars, the first, last and two inner ones arbitrary, as String, StringBuilder, other CharSequence, object, char[], one array element, Seq; arrays of as many bytes, ints, longs and texts, three of them arbitrary; no precision or one char less")
  public static void manyChars() {
    int[] lengths = {17, 33, 130, 300, 65, 1030};
    int n = lengths[Sym.choose("length", 6)];
    int kind = Sym.choose("kind", 11);
    String t;
    Object o;
    if (kind < 7) {
      StringBuilder b = new StringBuilder();
      for (int i = 0; i < n; i++) b.append(i == 0 || i == n - 1 || i == 8 || i == n - 5 ? Sym.ch("c", MIN, MAX) : (char) ('!' + i % 90));
      t = b.toString();
      o = kind == 0 ? t : kind == 1 ? b : kind == 2 ? new Chars(t) : kind == 3 ? new Named(t) : kind == 4 ? t.toCharArray() : kind == 5 ? new Object[] {t} : (Object) Seq.wrap(t);
      if (kind == 5) t = "[" + t + "]";
    } else if (kind == 7) {
      byte[] b = new byte[n];
      for (int i = 0; i < n; i++) b[i] = (byte) (i == 0 || i == 16 || i == n - 1 ? Sym.intIn("b", -128, 127) : i * 37);
      t = base64(b);
      o = b;
    } else {
      int[] b = new int[n];
      long[] l = new long[n];
      String[] x = new String[n];
      StringBuilder e = new StringBuilder("[");
      for (int i = 0; i < n; i++) {
        b[i] = i == 0 || i == 16 || i == n - 1 ? Sym.intIn("v", 0, 9) : i * 1000003;
        l[i] = b[i];
        x[i] = Integer.toString(b[i]);
        e.append(i > 0 ? ", " : "").append(x[i]);
      }
      t = e.append(']').toString();
      o = kind == 8 ? b : kind == 9 ? l : (Object) x;
    }
    boolean cut = Sym.choose("cut", 2) == 1;
    String got = FastPrintf.compile(cut ? "<%." + (t.length() - 1) + "s>" : "<%s>").format(Args.of(new Object[] {o}));
    Sym.checkEq(got, "<" + (cut ? t.substring(0, t.length() - 1) : t) + ">", "%s of " + n);
  }

  @Harness(property = "C08", bounds = "%c of every char, byte, short, int; of texts of 1..2 arbitrary chars; 32 flag sets; width and precision absent or 0..65536")
  public static void characters() {
    Args a = IntHarness.shape();
    char c;
    switch (Sym.choose("type", 7)) {
      case 0:
        c = Sym.ch("v", MIN, MAX);
        a.putChar(c);
        break;
      case 1: {
        byte v = (byte) Sym.intIn("v", 0, 127);
        a.putByte(v);
        c = (char) v;
        break;
      }
      case 2: {
        short v = (short) Sym.intIn("v", 0, 32767);
        a.putShort(v);
        c = (char) v;
        break;
      }
      case 3: {
        int v = Sym.intIn("v", 0, 65535);
        a.putInt(v);
        c = (char) v;
        break;
      }
      case 4: {
        long v = Sym.longIn("v", 0, 65535);
        a.putLong(v);
        c = (char) v;
        break;
      }
      case 5: {
        String t = Sym.str("t", 1 + Sym.choose("length", 2), MIN, MAX);
        a.putString(t);
        c = t.charAt(0);
        break;
      }
      default: {
        String t = Sym.str("t", 1 + Sym.choose("length", 2), MIN, MAX);
        a.put(new Chars(t));
        c = t.charAt(0);
      }
    }
    check(a, String.valueOf(c), 'c');
  }

  @Harness(property = "C08", bounds = "%c of empty texts and null: rejected; 32 flag sets; width and precision absent or 0..65536")
  public static void emptyCharacter() {
    Args a = IntHarness.shape();
    switch (Sym.choose("as", 3)) {
      case 0: a.putString(""); break;
      case 1: a.put(new Chars("")); break;
      default: a.putNull();
    }
    try {
      FastPrintf.compile(Ref.directive(IntHarness.mask, IntHarness.w, IntHarness.p, 'c')).format(a);
    } catch (PrintfException e) {
      return;
    }
    Sym.fail("%c accepted an argument without a character");
  }
}
