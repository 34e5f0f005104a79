package h;

import io.fastprintf.util.Utils;
import java.util.ArrayList;
import java.util.List;
import sym.Harness;
import sym.Sym;

/** The text helpers. */
public final class HelperHarness {
  private static final class Broken {
    @Override
    public String toString() {
      throw new IllegalStateException("broken");
    }

    @Override
    public int hashCode() {
      return 7;
    }
  }

  @Harness(property = "C29", bounds = "every int and every long: number of characters of its decimal text")
  public static void sizes() {
    if (Sym.choose("long", 2) == 1) {
      long v = Sym.longIn("v", Long.MIN_VALUE, Long.MAX_VALUE);
      Sym.check(Utils.stringSize(v) == Long.toString(v).length(), "size of a long");
    } else {
      int v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
      Sym.check(Utils.stringSize(v) == Integer.toString(v).length(), "size of an int");
    }
  }

  @Harness(property = "C29", bounds = "every char: classification and upper case")
  public static void chars() {
    char c = Sym.ch("c", '\0', (char) 0xFFFF);
    Sym.check(Utils.isDigit(c) == ('0' <= c && c <= '9') && Utils.isNotDigit(c) == !('0' <= c && c <= '9'), "digit");
    Sym.check(Utils.isLowerCase(c) == ('a' <= c && c <= 'z'), "lower case");
    Sym.check(Utils.isUpperCase(c) == ('A' <= c && c <= 'Z'), "upper case");
    Sym.check(Utils.toUpperCase(c) == upper(c), "to upper case");
  }

  private static char upper(char c) {
    return 'a' <= c && c <= 'z' ? (char) (c - 32) : c;
  }

  @Harness(property = "C29", bounds = "texts of 0..6 arbitrary chars, of 33 and 70 chars of which 7 arbitrary, as String and char[]: upper case, whether changed, the given text kept")
  public static void texts() {
    int n = Sym.choose("length", Sym.thorough() ? 11 : 9);
    n = n == 7 ? 33 : n == 8 ? 70 : n;
    StringBuilder g = new StringBuilder();
    for (int i = 0; i < n; i++) g.append(i < 6 || i == n - 1 ? Sym.ch("t", '\0', (char) 0xFFFF) : (char) (0x41 + i % 26));
    String t = g.toString();
    StringBuilder b = new StringBuilder();
    boolean changed = false;
    for (int i = 0; i < n; i++) {
      b.append(upper(t.charAt(i)));
      if (upper(t.charAt(i)) != t.charAt(i)) changed = true;
    }
    if (Sym.choose("array", 2) == 1) {
      char[] a = t.toCharArray();
      Sym.check(Utils.toUpperCase(a) == changed, "changed");
      Sym.checkEq(String.valueOf(a), b.toString(), "upper case");
    } else {
      String before = String.valueOf(t.toCharArray());
      Sym.checkEq(Utils.toUpperCase(t), b.toString(), "upper case");
      Sym.checkEq(t, before, "given text");
    }
  }

  @Harness(property = "C29", bounds = "0..4 texts of 0..1 arbitrary chars or nulls, one possibly with a failing toString, as array, list, iterator and int array, separators of 0..2 arbitrary chars, behind 0..1 chars of text; other objects and null")
  public static void joins() {
    String separator = Sym.str("separator", Sym.choose("separatorLength", 3), '\0', (char) 0xFFFF);
    StringBuilder b = new StringBuilder(Sym.str("before", Sym.choose("beforeLength", 2), '\0', (char) 0xFFFF));
    StringBuilder e = new StringBuilder(b);
    int as = Sym.choose("as", 6), n = as < 4 ? Sym.choose("count", 5) : 0;
    Object o;
    if (as == 3) {
      int[] a = new int[n];
      for (int i = 0; i < n; i++) {
        a[i] = Sym.intIn("v", 0, 9);
        e.append(i > 0 ? separator : "").append(a[i]);
      }
      o = a;
    } else if (as == 4) o = null;
    else if (as == 5) {
      String t = Sym.str("other", Sym.choose("otherLength", 4), '\0', (char) 0xFFFF);
      o = new StringBuilder(t);
      e.append(t);
    } else {
      List<Object> l = new ArrayList<>();
      int broken = Sym.choose("broken", n + 1);
      for (int i = 0; i < n; i++) {
        Object s = i == broken ? new Broken() : Sym.choose("null", 2) == 1 ? null : Sym.str("s", 1, '\0', (char) 0xFFFF);
        l.add(s);
        e.append(i > 0 ? separator : "");
        if (i == broken) e.append('<').append(Broken.class.getName()).append('@').append(Integer.toHexString(System.identityHashCode(s))).append(" threw java.lang.IllegalStateException>");
        else e.append(s == null ? "null" : (String) s);
      }
      o = as == 0 ? l.toArray() : as == 1 ? l : (Object) l.iterator();
    }
    Sym.check(Utils.join(b, separator, o) == b, "the builder is returned");
    Sym.checkEq(b.toString(), e.toString(), "joined");
  }
}
