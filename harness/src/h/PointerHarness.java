package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.math.BigInteger;
import java.util.ArrayList;
import sym.Harness;
import sym.Sym;

/** %p: the class and the identity hash of the argument. */
public final class PointerHarness {
  /** claims to be something else */
  private static final class Odd implements CharSequence, Comparable<Odd> {
    @Override
    public int hashCode() {
      throw new IllegalStateException();
    }

    @Override
    public boolean equals(Object o) {
      throw new IllegalStateException();
    }

    @Override
    public String toString() {
      throw new IllegalStateException();
    }

    @Override
    public int length() {
      throw new IllegalStateException();
    }

    @Override
    public char charAt(int i) {
      throw new IllegalStateException();
    }

    @Override
    public CharSequence subSequence(int a, int b) {
      throw new IllegalStateException();
    }

    @Override
    public int compareTo(Odd o) {
      throw new IllegalStateException();
    }
  }

  private static final class Constant {
    @Override
    public int hashCode() {
      return 7;
    }

    @Override
    public String toString() {
      return "constant";
    }
  }

  private static Object object(int kind) {
    switch (kind) {
      case 0:
        return new Object();
      case 1:
        return new Odd();
      case 2:
        return new Constant();
      case 3:
        return new int[] {1, 2};
      case 4:
        return new String[][] {{"x"}};
      case 5:
        return new ArrayList<Object>();
      case 6:
        return new StringBuilder("text");
      case 7:
        return new Object() {};
      case 8:
        return new BigInteger("12345678901234567890");
      case 9:
        return new Integer(Sym.intIn("i", Integer.MIN_VALUE, Integer.MAX_VALUE));
      case 10:
        return new Long(Sym.longIn("l", Long.MIN_VALUE, Long.MAX_VALUE));
      case 11:
        return new Double(2.5);
      case 12:
        return new Boolean(true);
      case 13:
        return new String("text");
      case 14:
        return new Character('c');
      case 15:
        return new Short((short) 3);
      case 16:
        return new Byte((byte) 4);
      case 17:
        return new java.util.HashMap<String, String>();
      case 18:
        return new IllegalStateException("broken");
      case 19:
        return new byte[0];
      case 20:
        return new java.util.Date(0);
      case 21:
        return java.time.LocalDate.of(2020, 1, 2);
      default:
        return new Float(1.5f);
    }
  }

  private static final int KINDS = 23;

  private static String run(String f, Args a) {
    try {
      return FastPrintf.compile(f).format(a);
    } catch (PrintfException e) {
      return null;
    }
  }

  private static String name(Object o) {
    return o.getClass().getName() + "@" + Integer.toHexString(System.identityHashCode(o));
  }

  @Harness(property = "C20", bounds = "objects of 23 classes, all identity hashes; '-' and '0' flags or none; '*' width -65536..65536 or none; put, varargs and iterable")
  public static void objects() {
    Object o = object(Sym.choose("object", KINDS));
    int mask = new int[] {0, Ref.MINUS, Ref.ZERO, Ref.PLUS | Ref.ALT}[Sym.choose("mask", 4)];
    Args a = Args.create();
    int w = 0, width = Sym.choose("width", 3);
    if (width > 0) {
      w = Sym.intIn("w", 1, Ref.MAX);
      a.putInt(width == 1 ? w : -w);
    }
    a.put(o);
    if (Sym.choose("iterable", 2) == 1) a = Args.of(a.values());
    String got = run("<" + Ref.directive(mask, width > 0, false, 'p') + ">", a);
    if (width == 2) mask |= Ref.MINUS;
    Sym.check(got != null, "rejected");
    Sym.checkEq(got, "<" + Ref.pad(name(o), mask, w) + ">", "class and identity hash");
  }

  @Harness(property = "C20", bounds = "two objects of 23 classes in one call, and the same object twice")
  public static void pairs() {
    Object x = object(Sym.choose("object", KINDS)), y = Sym.choose("same", 2) == 1 ? x : object(Sym.choose("other", 3));
    Sym.checkEq(run("%p %p", Args.of(x, y)), name(x) + " " + name(y), "class and identity hash");
  }

  @Harness(property = "C20", bounds = "null in 4 ways, '*' width -65536..65536, '-' and '0' flags")
  public static void nulls() {
    int mask = new int[] {0, Ref.MINUS, Ref.ZERO}[Sym.choose("mask", 3)];
    boolean neg = Sym.choose("negative", 2) == 1;
    int w = Sym.intIn("w", neg ? 1 : 0, Ref.MAX);
    Args a = Args.create().putInt(neg ? -w : w);
    switch (Sym.choose("how", 4)) {
      case 0:
        a.putNull();
        break;
      case 1:
        a.put(null);
        break;
      case 2:
        a.putIntOrNull(null);
        break;
      default:
        a.putString(null);
    }
    String got = run("<" + Ref.directive(mask, true, false, 'p') + ">", a);
    Sym.checkEq(got, "<" + Ref.pad("null", neg ? mask | Ref.MINUS : mask, w) + ">", "null");
    Sym.out(got);
  }

  @Harness(property = "C20", bounds = "every primitive type, all values, put as primitive")
  public static void primitives() {
    Args a = Args.create();
    switch (Sym.choose("type", 8)) {
      case 0:
        a.putInt(Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE));
        break;
      case 1:
        a.putLong(Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE));
        break;
      case 2:
        a.putShort((short) Sym.intIn("v", Short.MIN_VALUE, Short.MAX_VALUE));
        break;
      case 3:
        a.putByte((byte) Sym.intIn("v", Byte.MIN_VALUE, Byte.MAX_VALUE));
        break;
      case 4:
        a.putChar((char) Sym.intIn("v", 0, 0xFFFF));
        break;
      case 5:
        a.putBoolean(Sym.bool("v"));
        break;
      case 6:
        a.putDouble(Double.longBitsToDouble(Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE)));
        break;
      default:
        a.putFloat(Float.intBitsToFloat(Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE)));
    }
    Sym.check(run(Sym.choose("width", 2) == 1 ? "%-9p" : "%p", a) == null, "a primitive is not rejected");
  }
}
