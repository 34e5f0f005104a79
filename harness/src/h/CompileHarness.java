package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import java.time.format.DateTimeFormatter;
import sym.Harness;
import sym.Sym;

/** Format strings: what compiles, where errors are reported, what literal text becomes. */
public final class CompileHarness {
  private static final String CONVS = "diuoxXfFeEgGaAcsStTnp%";

  /** a reading of the grammar: position of the syntax error, or -1 */
  private static final class Parsed {
    int error = -1;
    /** a width or precision above the limit occurred before the error */
    boolean range;
    int directives;
    StringBuilder text = new StringBuilder();
    Args args = Args.create();
  }

  private static Parsed parse(String s, int v) {
    Parsed r = new Parsed();
    int i = 0, n = s.length();
    while (i < n) {
      char c = s.charAt(i);
      if (c != '%') {
        r.text.append(c);
        i++;
        continue;
      }
      i++;
      if (i < n && s.charAt(i) == '%') {
        r.text.append('%');
        i++;
        continue;
      }
      int mask = 0;
      for (; i < n; i++) {
        char f = s.charAt(i);
        int b = f == '-' ? Ref.MINUS : f == '+' ? Ref.PLUS : f == ' ' ? Ref.SPACE : f == '#' ? Ref.ALT : f == '0' ? Ref.ZERO : 0;
        if (b == 0) break;
        if (Ref.has(mask, b)) return at(r, i);
        mask |= b;
      }
      if (i >= n) return at(r, n);
      long w = -1, p = -1;
      boolean big = false, stars = false;
      if (s.charAt(i) == '*') {
        stars = true;
        i++;
        w = 3;
        r.args.putInt(3);
      } else {
        int start = i;
        w = number(s, i);
        i = digits(s, i);
        if (i == start) w = -1;
        if (w > Integer.MAX_VALUE) return at(r, start);
        big = w > Ref.MAX;
      }
      if (i < n && s.charAt(i) == '.') {
        i++;
        if (i >= n) return at(r, n, big);
        if (s.charAt(i) == '*') {
          i++;
          p = 2;
          r.args.putInt(2);
        } else {
          int start = i;
          p = number(s, i);
          i = digits(s, i);
          if (p > Integer.MAX_VALUE) return at(r, start, big);
          big |= p > Ref.MAX;
        }
      }
      if (i >= n) return at(r, n, big);
      char conv = s.charAt(i);
      if (CONVS.indexOf(conv) < 0) return at(r, i, big);
      i++;
      if ((conv == 't' || conv == 'T') && i < n && s.charAt(i) == '{') {
        int end = i + 1;
        boolean quoted = false;
        while (end < n && (quoted || s.charAt(end) != '}')) {
          if (s.charAt(end) == '\'') quoted = !quoted;
          end++;
        }
        if (end >= n) return at(r, i, big);
        if (end == i + 1) return at(r, i + 1, big);
        try {
          DateTimeFormatter.ofPattern(s.substring(i + 1, end));
        } catch (IllegalArgumentException e) {
          return at(r, i + 1, big);
        }
        i = end + 1;
      }
      if (big) {
        r.range = true;
        return r;
      }
      r.directives++;
      r.args.putInt(v);
      if (conv == 'd' || conv == 'i') r.text.append(Ref.decimal(v < 0, Ref.magnitude(v), v == 0, mask, (int) w, (int) p));
      else if (conv == '%') r.text.append('%');
      else if (conv != 'n') r.directives = 1000;
    }
    return r;
  }

  private static Parsed at(Parsed r, int i) {
    r.error = i;
    return r;
  }

  private static Parsed at(Parsed r, int i, boolean range) {
    r.range = range;
    return at(r, i);
  }

  private static int digits(String s, int i) {
    while (i < s.length() && s.charAt(i) >= '0' && s.charAt(i) <= '9') i++;
    return i;
  }

  /** the number written at i, capped */
  private static long number(String s, int i) {
    long v = 0;
    for (; i < s.length() && s.charAt(i) >= '0' && s.charAt(i) <= '9'; i++) v = v > Integer.MAX_VALUE ? v : v * 10 + (s.charAt(i) - '0');
    return v;
  }

  private static void check(String s) {
    Parsed want = parse(s, -42);
    FastPrintf f = null;
    int got = -1;
    boolean range = false;
    try {
      f = FastPrintf.compile(s);
    } catch (PrintfSyntaxException e) {
      got = e.getIndex();
      Sym.check(got >= 0 && got <= s.length(), "error index outside the format");
    } catch (PrintfException e) {
      range = true;
    }
    Sym.check((f == null) == (want.error >= 0 || want.range), "accepted or rejected");
    if (f == null) {
      if (!want.range) Sym.check(!range, "kind of failure");
      if (want.error < 0) Sym.check(range, "kind of failure");
      if (!range) Sym.check(got == want.error, "error index");
    } else if (want.directives < 1000) Sym.checkEq(f.format(want.args), want.text.toString(), "text");
  }

  @Harness(property = "C11", bounds = "all format strings of 0..4 arbitrary chars")
  public static void arbitrary() {
    check(Sym.str("s", Sym.choose("length", 5), '\0', '￿'));
  }

  @Harness(property = "C11", bounds = "all formats % followed by 3..4 (thorough: 5) arbitrary chars from the ASCII range")
  public static void directive() {
    check("%" + Sym.str("s", Sym.choose("length", Sym.thorough() ? 3 : 2) + 3, ' ', '~'));
  }

  @Harness(property = "C11", bounds = "literal text of 0..3 arbitrary chars before, between and after %% , %d and %n")
  public static void literals() {
    StringBuilder sb = new StringBuilder();
    for (int k = 0; k < 3; k++) {
      if (k > 0) sb.append(new String[] {"%%", "%d", "%n", "%+5%"}[Sym.choose("directive", 4)]);
      sb.append(Sym.str("text", Sym.choose("length", 4), '&', '￿'));
    }
    check(sb.toString());
  }

  @Harness(property = "C11", bounds = "widths and precisions of 1..11 symbolic digits, followed by one arbitrary char")
  public static void numbers() {
    StringBuilder sb = new StringBuilder("a%");
    int kind = Sym.choose("kind", 3);
    if (kind == 2) sb.append(Sym.str("w", 1 + Sym.choose("n", 3), '1', '9'));
    if (kind > 0) sb.append('.');
    int n = Sym.choose("digits", 11) + 1;
    if (kind == 0) sb.append(Sym.str("first", 1, '1', '9')).append(Sym.str("rest", n - 1, '0', '9'));
    else sb.append(Sym.str("digits", n, '0', '9'));
    sb.append(Sym.str("end", 1, ' ', '￿'));
    check(sb.toString());
  }

  @Harness(property = "C11", bounds = "two or three directives with widths and precisions of 9, 10 or 11 digits that may occur more than once, after text")
  public static void repeated() {
    String d = new String[] {"123456789", "2147483648", "99999999999"}[Sym.choose("number", 3)];
    String[] part = {d, "%" + d + "d", "%." + d + "d", "%-5" + d + "d", "%5." + d + "y", "% d", "%" + d, d + "%d"};
    StringBuilder sb = new StringBuilder();
    int n = 2 + Sym.choose("parts", 2);
    for (int i = 0; i < n; i++) sb.append(part[Sym.choose("part" + i, part.length)]);
    sb.append(Sym.str("end", Sym.choose("chars", 2), ' ', '￿'));
    check(sb.toString());
  }

  @Harness(property = "C11", bounds = "flag sequences of 0..6 flags in any order followed by d")
  public static void flags() {
    StringBuilder sb = new StringBuilder("x%");
    int n = Sym.choose("flags", 7);
    for (int i = 0; i < n; i++) sb.append("-+ #0".charAt(Sym.intIn("flag", 0, 4)));
    check(sb.append("d").toString());
  }

  private static final char[] PATTERN = {'\'', '}', '{', 'y', '-', 'V', '%'};

  @Harness(property = "C11", bounds = "%t and %T patterns of 0..5 chars, each a quote, brace, letter, percent or any other char, then any 0..1 chars")
  public static void patterns() {
    StringBuilder sb = new StringBuilder(Sym.choose("conv", 2) == 0 ? "%t{" : "!%T{");
    int n = Sym.choose("length", 6);
    for (int i = 0; i < n; i++) {
      int c = Sym.choose("class", PATTERN.length + 1);
      sb.append(c < PATTERN.length ? PATTERN[c] : Sym.ch("char", 'Ā', '￿'));
    }
    if (Sym.choose("tail", 2) == 1) sb.append('}');
    check(sb.toString());
  }

  @Harness(property = "C11", bounds = "call depth while compiling and formatting 2, 8 and 32 directives; on a real machine 200000")
  public static void depth() {
    int v = Sym.intIn("v", 0, 9);
    if (Sym.isNative()) {
      run(200000, v);
      return;
    }
    int d = -1;
    for (int n = 2; n <= 32; n *= 4) {
      Sym.resetDepth();
      run(n, v);
      int m = Sym.maxDepth();
      Sym.check(d < 0 || m <= d, "call depth grows with the number of directives");
      d = m;
    }
  }

  private static void run(int n, int v) {
    StringBuilder sb = new StringBuilder();
    Args a = Args.create();
    for (int i = 0; i < n; i++) {
      sb.append("%d,%%");
      a.putInt(v);
    }
    Sym.check(FastPrintf.compile(sb.toString()).format(a).length() == 3 * n, "length");
  }
}
