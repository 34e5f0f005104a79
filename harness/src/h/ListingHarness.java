package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.Arrays;
import sym.Harness;
import sym.Sym;

/** The text of an argument list. */
public final class ListingHarness {
  private static final class Named {
    private final String name;

    Named(String name) {
      this.name = name;
    }

    @Override
    public String toString() {
      return name;
    }
  }

  private static final int KINDS = 18;

  /** puts one value on both lists */
  private static void put(String n, int kind, boolean all, Args a, Args b) {
    Object o;
    switch (kind) {
      case 0: {
        int v = Sym.intIn(n, all ? Integer.MIN_VALUE : -9, all ? Integer.MAX_VALUE : 9);
        a.putInt(v);
        o = v;
        break;
      }
      case 1: {
        long v = Sym.longIn(n, all ? Long.MIN_VALUE : -9, all ? Long.MAX_VALUE : 9);
        a.putLong(v);
        o = v;
        break;
      }
      case 2: {
        short v = (short) Sym.intIn(n, all ? Short.MIN_VALUE : -9, all ? Short.MAX_VALUE : 9);
        a.putShort(v);
        o = v;
        break;
      }
      case 3: {
        byte v = (byte) Sym.intIn(n, all ? Byte.MIN_VALUE : -9, all ? Byte.MAX_VALUE : 9);
        a.putByte(v);
        o = v;
        break;
      }
      case 4: {
        char v = Sym.ch(n, '\0', '￿');
        a.putChar(v);
        o = v;
        break;
      }
      case 5: {
        boolean v = Sym.choose(n, 2) == 1;
        a.putBoolean(v);
        o = v;
        break;
      }
      case 6: {
        double v = Sym.doubleBits(n);
        a.putDouble(v);
        o = v;
        break;
      }
      case 7: {
        float v = Sym.floatBits(n);
        a.putFloat(v);
        o = v;
        break;
      }
      case 8: {
        String v = Sym.str(n, Sym.choose(n + ".length", 3), '\0', '￿');
        a.putString(v);
        o = v;
        break;
      }
      case 9:
        a.putString(null);
        o = null;
        break;
      case 10:
        a.put(o = new StringBuilder(Sym.str(n, 2, '\0', '￿')));
        break;
      case 11:
        a.put(o = new Named(Sym.str(n, 2, '\0', '￿')));
        break;
      case 12:
        a.put(o = new int[] {Sym.intIn(n, all ? -999 : 0, all ? 999 : 9), 7});
        break;
      case 13:
        a.put(o = new char[] {Sym.ch(n, '\0', '￿'), 'x'});
        break;
      case 14:
        a.put(o = new Object[] {Sym.str(n, 1, '\0', '￿'), null, "z"});
        break;
      case 15:
        a.put(o = Arrays.asList(Sym.str(n, 1, '\0', '￿'), "q"));
        break;
      case 16:
        a.put(o = Sym.bigDigits(n, 1 + 12 * Sym.choose(n + ".digits", 2)));
        break;
      default:
        a.put(o = new BigDecimal(BigInteger.valueOf(Sym.longIn(n, all ? -9999 : 10, all ? 9999 : 99)), Sym.choose(n + ".scale", 3)));
        break;
    }
    b.put(o);
  }

  private static String text(Args b) {
    return FastPrintf.compile("%s").format(b);
  }

  @Harness(property = "C23", bounds = "empty lists and lists of one value of 18 kinds, all values (texts of 0..2 arbitrary chars)")
  public static void one() {
    Args a = Sym.choose("make", 2) == 0 ? Args.create() : Args.createWithExpectedSize(3), b = Args.create();
    int kind = Sym.choose("kind", KINDS + 1);
    if (kind == KINDS) {
      Sym.checkEq(a.toString(), "[]", "empty list");
      return;
    }
    put("v", kind, true, a, b);
    Sym.out(a.toString());
    Sym.checkEq(a.toString(), "[" + text(b) + "]", "list of one");
    Sym.checkEq(a.toString(), "[" + text(b) + "]", "second time");
    Sym.checkEq(text(a), text(b), "still the same text");
  }

  @Harness(property = "C23", bounds = "lists of two or three values out of 18 kinds, numbers of one digit")
  public static void several() {
    Args a = Args.create();
    int n = 2 + Sym.choose("more", 2), kind = Sym.choose("kind", KINDS), other = Sym.choose("other", KINDS);
    StringBuilder t = new StringBuilder("[");
    for (int i = 0; i < n; i++) {
      Args b = Args.create();
      put("v" + i, i == 0 ? kind : other, false, a, b);
      if (i > 0) t.append(", ");
      t.append(text(b));
    }
    Sym.out(a.toString());
    Sym.checkEq(a.toString(), t.append("]").toString(), "list");
  }

  @Harness(property = "C23", bounds = "lists of 9, 11, 17, 33, 70 and 130 values, ints, texts, nulls and longs, three of all values in -9..9, as varargs, iterable or put")
  public static void many() {
    int n = new int[] {9, 11, 17, 33, 70, 130}[Sym.choose("values", 6)], how = Sym.choose("how", 3);
    java.util.List<Object> l = new java.util.ArrayList<>();
    StringBuilder want = new StringBuilder("[");
    for (int i = 0; i < n; i++) {
      Object v = i == 0 || i == n / 2 || i == n - 1 ? (Object) Sym.intIn("v", -9, 9) : i % 4 == 0 ? (Object) ("t" + i) : i % 4 == 1 ? null : i % 4 == 2 ? (Object) Integer.valueOf(i * 7919) : Long.valueOf(-i);
      l.add(v);
      want.append(i > 0 ? ", " : "").append(v);
    }
    want.append(']');
    Args a = how == 0 ? Args.of(l.toArray()) : how == 1 ? Args.of(l) : Args.create();
    if (how == 2) for (Object o : l) a.put(o);
    Sym.checkEq(a.toString(), want.toString(), "text");
    Sym.checkEq(a.toString(), want.toString(), "text again");
    Sym.check(a.values().equals(l), "values");
  }
}
