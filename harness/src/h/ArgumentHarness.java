package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.util.ArrayList;
import java.util.List;
import sym.Harness;
import sym.Sym;

/** Which argument goes to which directive. */
public final class ArgumentHarness {
  private static final String[] ITEMS = {"%d", "%*d", "%.*d", "%-*.*d", "%s", "%%", "<>", "%n", "%5%", "%x", "%*s", "%.*s", "%c", "%*n", "%.*%"};

  /** appends what the item prints, taking arguments from the list; false when they run out */
  private static boolean print(String item, List<Integer> args, StringBuilder out) {
    if (item.charAt(0) != '%' || item.equals("%%")) {
      out.append(item.equals("%%") ? "%" : item);
      return true;
    }
    int width = -1, prec = -1, mask = item.charAt(1) == '-' ? Ref.MINUS : 0;
    if (item.indexOf("*.*") >= 0 || item.indexOf('*') >= 0 && item.indexOf('.') < 0) {
      if (args.isEmpty()) return false;
      width = args.remove(0);
      if (width < 0) {
        width = -width;
        mask |= Ref.MINUS;
      }
    }
    if (item.indexOf(".*") >= 0) {
      if (args.isEmpty()) return false;
      prec = args.remove(0);
      if (prec < 0) prec = -1;
    }
    if (args.isEmpty()) return false;
    int v = args.remove(0);
    switch (item.charAt(item.length() - 1)) {
      case 'd':
        out.append(Ref.decimal(v < 0, Ref.magnitude(v), v == 0, mask, width, prec));
        break;
      case 's':
        String t = Integer.toString(v);
        out.append(Ref.pad(prec >= 0 && prec < t.length() ? t.substring(0, prec) : t, mask, width));
        break;
      case 'x':
        out.append(Integer.toHexString(v));
        break;
      case 'c':
        out.append((char) v);
        break;
      case '%':
        out.append('%');
        break;
      default:
    }
    return true;
  }

  private static void check(int items, int kinds, int lo, int hi) {
    StringBuilder format = new StringBuilder(), want = new StringBuilder();
    List<String> seq = new ArrayList<>();
    int need = 0;
    for (int i = 0; i < items; i++) {
      String it = ITEMS[Sym.choose("item", kinds)];
      seq.add(it);
      format.append(it);
      if (it.charAt(0) == '%' && !it.equals("%%")) need += it.equals("%-*.*d") ? 3 : it.indexOf('*') >= 0 ? 2 : 1;
    }
    int n = Sym.choose("arguments", need + 2);
    List<Integer> values = new ArrayList<>();
    Args args = Args.create();
    for (int i = 0; i < n; i++) {
      int v = Sym.intIn("arg", lo, hi);
      values.add(v);
      if (i % 2 == 0) args.putInt(v);
      else args.put(v);
    }
    boolean ok = true;
    for (int i = 0; i < items && ok; i++) ok = print(seq.get(i), values, want);
    Sym.check(ok == (n >= need), "harness");
    String got;
    try {
      got = FastPrintf.compile(format.toString()).format(args);
    } catch (PrintfException e) {
      got = null;
    }
    Sym.out(got);
    Sym.checkEq(got, ok ? want.toString() : null, "output of " + format + " with " + n + " arguments");
  }

  @Harness(property = "C12", bounds = "all sequences of 1..2 items out of 15 directives and literals, 0..needed+1 int arguments of all values in -6..6")
  public static void pairs() {
    check(1 + Sym.choose("items", 2), ITEMS.length, -6, 6);
  }

  @Harness(property = "C12", bounds = "all sequences of 3 items out of 6 directives and literals, 0..needed+1 int arguments of all values in 0..1")
  public static void triples() {
    check(3, 6, 0, 1);
  }

  @Harness(property = "C12", bounds = "4..6 (thorough 9) %s and %c in every order, one missing, exact and one surplus char arguments")
  public static void many() {
    int items = 4 + Sym.choose("items", Sym.thorough() ? 6 : 3);
    StringBuilder format = new StringBuilder(), want = new StringBuilder();
    int n = items - 1 + Sym.choose("arguments", 3);
    Args args = Args.create();
    for (int i = 0; i < n; i++) {
      char v = Sym.ch("arg", 'a', 'z');
      args.putChar(v);
      if (i < items) want.append(v);
    }
    for (int i = 0; i < items; i++) {
      boolean text = Sym.choose("text", 2) == 1;
      format.append(text ? "%s" : "%c");
    }
    String got;
    try {
      got = FastPrintf.compile(format.toString()).format(args);
    } catch (PrintfException e) {
      got = null;
    }
    Sym.checkEq(got, n >= items ? want.toString() : null, format.toString());
  }

  @Harness(property = "C12", bounds = "each of the 22 conversions with *, .*, both or neither and 3 flag sets, followed by %d; every shortage, exact and surplus argument lists; trailing ints -99..99")
  public static void conversions() {
    String letters = "diuoxXfFeEgGaAcspStTn%";
    char c = letters.charAt(Sym.choose("conversion", letters.length()));
    int stars = Sym.choose("stars", 4);
    String flags = new String[] {"", "-", "#+0"}[Sym.choose("flags", 3)];
    if (c == '%' && stars == 0 && flags.isEmpty()) return;
    List<Object> args = new ArrayList<>();
    if ((stars & 1) != 0) args.add(7);
    if ((stars & 2) != 0) args.add(2);
    Object value;
    if (c == 'c') value = Sym.ch("v", 'a', 'z');
    else if (c == 'p') value = new int[2];
    else if (c == 's' || c == 'S') value = "text";
    else if ("fFeEgGaA".indexOf(c) >= 0) value = 2.75;
    else if (c == 't' || c == 'T') value = java.time.LocalDate.ofEpochDay(Sym.longIn("v", 0, 24855));
    else value = Sym.intIn("v", -99, 99);
    args.add(value);
    String alone = FastPrintf.compile("%" + flags + ((stars & 1) != 0 ? "7" : "") + ((stars & 2) != 0 ? ".2" : "") + c).format(value);
    int need = args.size() + 1;
    int last = Sym.intIn("last", -99, 99);
    args.add(last);
    args.add("surplus");
    int n = Sym.choose("arguments", need + 2);
    FastPrintf f = FastPrintf.compile("%" + flags + ((stars & 1) != 0 ? "*" : "") + ((stars & 2) != 0 ? ".*" : "") + c + "|%d");
    String got;
    try {
      got = f.format(Args.of(args.subList(0, n)));
    } catch (PrintfException e) {
      got = null;
    }
    Sym.out(got);
    Sym.checkEq(got, n >= need ? alone + "|" + last : null, "%" + c + " with " + n + " of " + need + " arguments");
  }

  @Harness(property = "C12", bounds = "9, 12, 17, 33, 70 and 130 directives out of %d, %s, %*d, %% and text, three arguments of all values in -9..9, as varargs, iterable or put; one missing, exact, one and twenty surplus arguments")
  public static void longLists() {
    int n = new int[] {9, 12, 17, 33, 70, 130}[Sym.choose("directives", 6)], how = Sym.choose("how", 3);
    int surplus = new int[] {-1, 0, 1, 20}[Sym.choose("surplus", 4)];
    StringBuilder f = new StringBuilder(), want = new StringBuilder();
    List<Object> l = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      Object v = i == 1 || i == n / 2 || i == n - 1 ? (Object) Sym.intIn("v", -9, 9) : i % 4 == 0 ? (Object) ("t" + i) : Integer.valueOf(i * 7919);
      if (i % 4 == 0 || i % 4 == 1) {
        f.append("%s");
        want.append(v);
      } else if (i % 4 == 2) {
        f.append("<%d>%%");
        want.append('<').append(v).append(">%");
      } else {
        f.append("%*d,");
        l.add(2);
        String t = v.toString();
        want.append(t.length() < 2 ? " " + t : t).append(',');
      }
      l.add(v);
    }
    f.append('.');
    want.append('.');
    if (surplus < 0) l.remove(l.size() - 1);
    for (int i = 0; i < surplus; i++) l.add("more");
    Args a = how == 0 ? Args.of(l.toArray()) : how == 1 ? Args.of(l) : Args.create();
    if (how == 2) for (Object o : l) a.put(o);
    String got = null;
    try {
      got = FastPrintf.compile(f.toString()).format(a);
    } catch (PrintfException e) {
      // reported
    }
    if (surplus < 0) Sym.check(got == null, "a missing argument is reported");
    else Sym.checkEq(got, want.toString(), "output");
  }
}
