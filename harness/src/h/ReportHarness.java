package h;

import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import io.fastprintf.PrintfSyntaxException;
import sym.Harness;
import sym.Sym;

/** What a syntax error says. */
public final class ReportHarness {
  private static final String NL = System.lineSeparator();

  private static String expected(String description, String format, int index) {
    StringBuilder b = new StringBuilder(description);
    if (index >= 0) b.append(" near index ").append(index);
    b.append(NL).append(format);
    if (index >= 0 && format != null && index < format.length()) {
      b.append(NL);
      for (int i = 0; i < index; i++) b.append(' ');
      b.append('^');
    }
    return b.toString();
  }

  private static void compile(String format) {
    String message;
    try {
      FastPrintf.compile(format);
      message = "compiled";
    } catch (PrintfSyntaxException e) {
      Sym.checkEq(e.getPattern(), format, "reported format");
      message = e.getMessage();
      Sym.checkEq(message, expected(e.getDescription(), format, e.getIndex()), "message");
    } catch (PrintfException e) {
      message = "out of range";
    }
    Sym.out(message);
  }

  @Harness(property = "C22", bounds = "all format strings of 1..3 (thorough 4) arbitrary chars")
  public static void arbitrary() {
    compile(Sym.str("format", 1 + Sym.choose("length", Sym.thorough() ? 4 : 3), '\0', '￿'));
  }

  @Harness(property = "C22", bounds = "0..12 chars of text and directives, then % and 0..2 arbitrary chars, then 0..3 chars of text")
  public static void later() {
    String before = new String[] {"", "a", "%d", "ab%5.2f%%c", "%t{yyyy} %s\n"}[Sym.choose("before", 5)];
    String after = new String[] {"", "x", "y%d"}[Sym.choose("after", 3)];
    compile(before + "%" + Sym.str("rest", Sym.choose("length", 3), '\0', '￿') + after);
  }

  @Harness(property = "C22", bounds = "7, 31, 80, 130, 300 or 1100 chars of text (blanks, tabs, line ends, others) or directives before % and 0..1 arbitrary chars, 0 or 90 chars after it")
  public static void far() {
    int n = new int[] {7, 31, 80, 130, 300, 1100}[Sym.choose("before", 6)];
    String unit = new String[] {"x", "ab \t", "%d, ", "line\n", "\u4e2d\ud83d\ude00"}[Sym.choose("text", 5)];
    StringBuilder b = new StringBuilder();
    while (b.length() < n) b.append(unit);
    b.append('%').append(Sym.str("rest", Sym.choose("length", 2), '\0', (char) 0xFFFF));
    if (Sym.choose("after", 2) == 1) for (int i = 0; i < 30; i++) b.append("yz ");
    compile(b.toString());
  }

  @Harness(property = "C22", bounds = "date-time patterns of 0..3 chars out of ' { } y Q and any other")
  public static void patterns() {
    StringBuilder b = new StringBuilder("a%");
    b.append(Sym.choose("upper", 2) == 1 ? 'T' : 't').append('{');
    int n = Sym.choose("length", 4);
    for (int i = 0; i < n; i++) b.append("'{}yQb;".charAt(Sym.choose("c" + i, 7)));
    if (Sym.choose("closed", 2) == 1) b.append('}');
    compile(b.toString());
  }

  @Harness(property = "C22", bounds = "every int as index, formats of 0..3 arbitrary chars or null, description of 0..2 arbitrary chars, with and without a cause")
  public static void made() {
    String format = Sym.choose("null", 2) == 1 ? null : Sym.str("format", Sym.choose("length", 4), '\0', '￿');
    String description = Sym.str("description", Sym.choose("words", 3), '\0', '￿');
    int index = Sym.intIn("index", Integer.MIN_VALUE, Integer.MAX_VALUE);
    Throwable cause = Sym.choose("cause", 2) == 1 ? new IllegalStateException() : null;
    PrintfSyntaxException e = cause == null ? new PrintfSyntaxException(description, format, index) : new PrintfSyntaxException(description, format, index, cause);
    Sym.check(e.getIndex() == index, "index");
    Sym.check(e.getPattern() == format, "format");
    Sym.check(e.getCause() == cause, "cause");
    Sym.checkEq(e.getDescription(), description, "description");
    Sym.checkEq(e.getMessage(), expected(description, format, index), "message");
    Sym.out(e.getMessage());
  }
}
