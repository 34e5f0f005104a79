package h;

import io.fastprintf.Args;
import io.fastprintf.FormatContext;
import io.fastprintf.Specifier;
import io.fastprintf.appender.DefaultAppender;
import io.fastprintf.appender.FixedStringAppender;
import sym.Harness;
import sym.Sym;

/** The pieces of a compiled format. */
public final class PieceHarness {
  private static String quoted(String t) {
    StringBuilder b = new StringBuilder("\"");
    for (int i = 0; i < t.length(); i++) {
      char c = t.charAt(i);
      int k = "\n\r\t\b\f\\\"".indexOf(c);
      if (k >= 0) b.append('\\').append("nrtbf\\\"".charAt(k));
      else b.append(c);
    }
    return b.append('"').toString();
  }

  @Harness(property = "C30", bounds = "literal texts of 0..4 (thorough 5) arbitrary chars: description, value, output, no argument taken")
  public static void literals() {
    String t = Sym.str("t", Sym.choose("length", Sym.thorough() ? 6 : 5), '\0', (char) 0xFFFF);
    FixedStringAppender a = new FixedStringAppender(t);
    Sym.checkEq(a.toString(), quoted(t), "description");
    Sym.checkEq(a.getValue(), t, "value");
    StringBuilder b = new StringBuilder(">");
    java.util.Iterator<io.fastprintf.traits.FormatTraits> it = Args.of(1).iterator();
    a.append(s -> s.appendTo(b), it);
    Sym.checkEq(b.toString(), ">" + t, "output");
    Sym.check(it.hasNext(), "no argument taken");
    Sym.out(a.toString());
  }

  @Harness(property = "C30", bounds = "literal texts of 17, 40, 81, 130, 300 chars, the first, last and two inner ones arbitrary")
  public static void longLiterals() {
    int n = new int[] {17, 40, 81, 130, 300}[Sym.choose("length", 5)];
    StringBuilder c = new StringBuilder();
    for (int i = 0; i < n; i++) c.append(i == 0 || i == 9 || i == n - 5 || i == n - 1 ? Sym.ch("c", '\0', (char) 0xFFFF) : i % 13 == 0 ? "\n\"".charAt(i % 2) : (char) ('0' + i % 70));
    String t = c.toString();
    FixedStringAppender a = new FixedStringAppender(t);
    Sym.checkEq(a.toString(), quoted(t), "description");
    StringBuilder b = new StringBuilder(">");
    a.append(s -> s.appendTo(b), Args.create().iterator());
    Sym.checkEq(b.toString(), ">" + t, "output");
  }

  @Harness(property = "C30", bounds = "22 conversions, 32 flag sets, width and precision absent, '*' or 0..65536: description, conversion, context")
  public static void directives() {
    int mask = Sym.choose("flags", 32);
    int w = ContextHarness.number("width"), p = ContextHarness.number("precision");
    char conv = ContextHarness.CONVS.charAt(Sym.choose("conversion", ContextHarness.CONVS.length()));
    Specifier s = Specifier.valueOf(conv);
    FormatContext c = FormatContext.create(ContextHarness.flags(mask), w, p, null);
    DefaultAppender a = new DefaultAppender(s, c);
    Sym.checkEq(a.toString(), ContextHarness.pattern(mask, w, p, conv), "description");
    Sym.check(a.getSpecifier() == s && a.getContext() == c, "parts");
    Sym.checkEq(s.toString(), String.valueOf(conv == 'i' ? 'd' : conv), "conversion");
    Sym.check(s.isDateTimeSpecifier() == (conv == 't' || conv == 'T'), "date-time conversion");
  }

  @Harness(property = "C30", bounds = "every char as a conversion: known exactly if documented")
  public static void conversions() {
    char c = Sym.ch("c", '\0', (char) 0xFFFF);
    boolean known = false;
    for (int i = 0; i < ContextHarness.CONVS.length(); i++) if (ContextHarness.CONVS.charAt(i) == c) known = true;
    Specifier s = Specifier.valueOf(c);
    Sym.check((s != null) == known, "known");
    if (known && c != 'i') Sym.checkEq(s.toString(), String.valueOf(c), "its own character");
  }
}
