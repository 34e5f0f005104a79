package h;

import io.fastprintf.PrintfException;
import io.fastprintf.util.Preconditions;
import io.fastprintf.util.Utils;
import sym.Harness;
import sym.Sym;

/** Messages made from a template and arguments. */
public final class MessageHarness {
  private static final class Broken {
    @Override
    public String toString() {
      throw new IllegalStateException("broken");
    }

    @Override
    public int hashCode() {
      return 7;
    }
  }

  /** the template with its placeholders replaced, surplus arguments behind it */
  private static String expected(String t, String[] a) {
    if (t == null) return "null";
    StringBuilder b = new StringBuilder();
    int n = 0;
    for (int i = 0; i < t.length(); i++) {
      if (n < a.length && t.charAt(i) == '%' && i + 1 < t.length() && t.charAt(i + 1) == 's') {
        b.append(a[n++]);
        i++;
      } else b.append(t.charAt(i));
    }
    for (int i = n; i < a.length; i++) b.append(i == n ? " [" : ", ").append(a[i]);
    return n < a.length ? b.append(']').toString() : b.toString();
  }

  private static void check(String t, int n) {
    Object[] a = new Object[n];
    String[] s = new String[n];
    for (int i = 0; i < n; i++) {
      switch (Sym.choose("argument", i == 0 ? 5 : 2)) {
        case 0:
          a[i] = s[i] = Sym.str("s", Sym.choose("argumentLength", 2), '\0', (char) 0xFFFF);
          break;
        case 1:
          s[i] = "null";
          break;
        case 2:
          a[i] = s[i] = "%s";
          break;
        case 3: {
          int v = Sym.intIn("v", -99, 99);
          a[i] = v;
          s[i] = Integer.toString(v);
          break;
        }
        default:
          a[i] = new Broken();
          s[i] = "<" + Broken.class.getName() + "@" + Integer.toHexString(System.identityHashCode(a[i])) + " threw java.lang.IllegalStateException>";
      }
    }
    int way = Sym.choose("way", 3);
    String got;
    if (way == 0) got = new PrintfException(t, a).getMessage();
    else if (way == 1) got = Utils.lenientFormat(t, a);
    else {
      try {
        Preconditions.checkArgument(true, t, a);
        Preconditions.checkArgument(false, t, a);
        got = "accepted";
      } catch (IllegalArgumentException e) {
        got = e.getMessage();
      }
    }
    Sym.checkEq(got, expected(t, s), "message");
    Sym.out(got.length() > 20 ? "long" : got);
  }

  @Harness(property = "C28", bounds = "templates of 0..4 (thorough 5) chars, each %, s or any other; 0..2 arguments of 5 kinds: texts of 0..1 arbitrary chars, null, %s, ints, objects whose toString fails")
  public static void templates() {
    int n = Sym.choose("length", Sym.thorough() ? 6 : 5);
    check(Sym.str("t", n, '\0', (char) 0xFFFF), Sym.choose("arguments", 3));
  }

  @Harness(property = "C28", bounds = "templates of 0..3 placeholders with text between, 0..4 arguments")
  public static void counts() {
    StringBuilder t = new StringBuilder();
    int n = Sym.choose("placeholders", 4);
    for (int i = 0; i < n; i++) t.append(new String[] {"", "a", "%", "%d"}[Sym.choose("text", 4)]).append("%s");
    if (Sym.choose("tail", 2) == 1) t.append("s.");
    check(t.toString(), Sym.choose("arguments", 5));
  }

  @Harness(property = "C28", bounds = "templates of 7..40 placeholders with as many arguments, three fewer or three more, one of them an arbitrary char at 4 places")
  public static void many() {
    int n = new int[] {7, 8, 9, 10, 11, 16, 17, 33, 40}[Sym.choose("placeholders", 9)], k = n + 3 * Sym.choose("arguments", 3) - 3;
    StringBuilder t = new StringBuilder();
    for (int i = 0; i < n; i++) t.append(i % 3 == 0 ? "" : "%,").append("%s");
    Object[] a = new Object[k];
    String[] s = new String[k];
    int at = new int[] {0, k / 2, k - 1, Math.min(8, k - 1)}[Sym.choose("place", 4)];
    for (int i = 0; i < k; i++) a[i] = s[i] = i == at ? Sym.str("s", 1, '\0', (char) 0xFFFF) : "p" + i;
    String got = Sym.choose("way", 2) == 0 ? new PrintfException(t.toString(), a).getMessage() : Utils.lenientFormat(t.toString(), a);
    Sym.checkEq(got, expected(t.toString(), s), "message");
  }

  @Harness(property = "C28", bounds = "no template, no argument array; causes")
  public static void special() {
    switch (Sym.choose("case", 6)) {
      case 0:
        Sym.checkEq(new PrintfException((String) null, 1, 2).getMessage(), "null", "no template");
        break;
      case 1:
        Sym.checkEq(Utils.lenientFormat("a%sb", (Object[]) null), "a(Object[])nullb", "no arguments");
        break;
      case 2:
        Sym.checkEq(Utils.lenientFormat("ab", (Object[]) null), "ab [(Object[])null]", "no arguments");
        break;
      case 3: {
        Throwable c = new Throwable("x");
        String t = Sym.str("t", 2, '\0', (char) 0xFFFF);
        PrintfException e = new PrintfException(t, c);
        Sym.checkEq(e.getMessage(), t, "message");
        Sym.check(e.getCause() == c, "cause");
        break;
      }
      case 4: {
        Throwable c = new Throwable("x");
        PrintfException e = new PrintfException(c);
        Sym.checkEq(e.getMessage(), "java.lang.Throwable: x", "message");
        Sym.check(e.getCause() == c, "cause");
        break;
      }
      default: {
        PrintfException e = new PrintfException();
        Sym.check(e.getMessage() == null && e.getCause() == null, "empty");
      }
    }
  }

  @Harness(property = "C28", bounds = "every int as index, start, end and size: accepted exactly when in range, otherwise reported with all of them")
  public static void indexes() {
    int i = Sym.intIn("i", Integer.MIN_VALUE, Integer.MAX_VALUE), j = Sym.intIn("j", -200, 200), n = Sym.intIn("n", 0, 99);
    boolean range = Sym.choose("range", 2) == 1, ok = range ? 0 <= i && i <= j && j <= n : 0 <= i && i < n;
    String m = null;
    try {
      if (range) Preconditions.checkPositionIndexes(i, j, n);
      else Preconditions.checkPositionIndex(i, n);
    } catch (IndexOutOfBoundsException e) {
      m = e.getMessage();
    }
    if (ok) Sym.check(m == null, "accepted");
    else Sym.checkEq(m, range ? "start: " + i + ", end: " + j + ", size: " + n : "index: " + i + ", size: " + n, "message");
  }
}
