package h;

import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.PrintfException;
import io.fastprintf.Specifier;
import java.time.format.DateTimeFormatter;
import java.util.EnumSet;
import sym.Harness;
import sym.Sym;

/** The parsed form of a directive: validation, changed copies, pattern text. */
public final class ContextHarness {
  private static final Flag[] FLAGS = {Flag.LEFT_JUSTIFY, Flag.ALTERNATE, Flag.PLUS, Flag.LEADING_SPACE, Flag.ZERO_PAD};
  private static final String CHARS = "-#+ 0";
  static final String CONVS = "duoxXfFeEgGaAcsStTnp%i";

  private static int mask;

  private static String chars(int m) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < 5; i++) if ((m >> i & 1) == 1) b.append(CHARS.charAt(i));
    return b.toString();
  }

  static EnumSet<Flag> flags(int m) {
    EnumSet<Flag> s = EnumSet.noneOf(Flag.class);
    for (int i = 0; i < 5; i++) if ((m >> i & 1) == 1) s.add(FLAGS[i]);
    return s;
  }

  /** absent, '*' or a number */
  static int number(String name) {
    switch (Sym.choose(name + "Kind", 3)) {
      case 0:
        return FormatContext.UNSET;
      case 1:
        return FormatContext.PRECEDING;
      default:
        return Sym.intIn(name, 0, Ref.MAX);
    }
  }

  static String pattern(int m, int w, int p, char c) {
    StringBuilder b = new StringBuilder("%").append(chars(m));
    if (w == FormatContext.PRECEDING) b.append('*');
    else if (w != FormatContext.UNSET) b.append(w);
    if (p == FormatContext.PRECEDING) b.append(".*");
    else if (p != FormatContext.UNSET) b.append('.').append(p);
    return b.append(c == 'i' ? 'd' : c).toString();
  }

  private static void is(FormatContext c, int m, int w, int p, String what) {
    Sym.check(c.getWidth() == w && c.isWidthSet() == (w != -1) && c.isPrecedingWidth() == (w == Integer.MIN_VALUE), what + ": width");
    Sym.check(c.getPrecision() == p && c.isPrecisionSet() == (p != -1) && c.isPrecedingPrecision() == (p == Integer.MIN_VALUE), what + ": precision");
    for (int i = 0; i < 5; i++) Sym.check(c.hasFlag(FLAGS[i]) == ((m >> i & 1) == 1), what + ": flag");
    Sym.check(!c.hasFlag(null) && c.getFlags().equals(flags(m)), what + ": flags");
  }

  private static FormatContext make(int w, int p) {
    mask = Sym.choose("flags", 32);
    return Sym.choose("made", 2) == 0 ? FormatContext.create(flags(mask), w, p, null) : FormatContext.create(chars(mask), w, p);
  }

  @Harness(property = "C25", bounds = "32 flag sets, width and precision absent, '*' or 0..65536, 22 conversions")
  public static void text() {
    int w = number("width"), p = number("precision");
    FormatContext c = make(w, p);
    char conv = CONVS.charAt(Sym.choose("conversion", CONVS.length()));
    String t = c.toPatternString(Specifier.valueOf(conv));
    Sym.out(t);
    Sym.checkEq(t, pattern(mask, w, p, conv), "pattern text");
  }

  @Harness(property = "C25", bounds = "32 flag sets, width and precision absent, '*' or 0..65536, one change of width, precision or a flag; the set given and the set returned modified afterwards")
  public static void changes() {
    int w = number("width"), p = number("precision");
    EnumSet<Flag> given = flags(mask = Sym.choose("flags", 32));
    DateTimeFormatter f = Sym.choose("formatter", 2) == 1 ? DateTimeFormatter.ISO_LOCAL_DATE : null;
    FormatContext c = FormatContext.create(given, w, p, f);
    int change = Sym.choose("change", 7), nw = w, np = p, nm = mask;
    FormatContext d;
    if (change == 0) d = c.setWidth(nw = number("newWidth"));
    else if (change == 1) d = c.setPrecision(np = number("newPrecision"));
    else {
      d = c.addFlag(FLAGS[change - 2]);
      nm |= 1 << change - 2;
    }
    is(d, nm, nw, np, "changed copy");
    is(c, mask, w, p, "original");
    Sym.check(c.getDateTimeFormatter() == f && d.getDateTimeFormatter() == f, "date-time formatter");
    given.clear();
    given.add(FLAGS[Sym.choose("other", 5)]);
    c.getFlags().clear();
    d.getFlags().addAll(EnumSet.allOf(Flag.class));
    is(c, mask, w, p, "original after changes of the sets");
    is(d, nm, nw, np, "copy after changes of the sets");
    Sym.check(c.addFlag(null) == c, "no flag added");
  }

  @Harness(property = "C25", bounds = "every int as width or precision, on creation and on change")
  public static void limits() {
    int v = Sym.intIn("value", Integer.MIN_VALUE, Integer.MAX_VALUE);
    boolean ok = v == -1 || v == Integer.MIN_VALUE || v >= 0 && v <= Ref.MAX, accepted;
    int way = Sym.choose("way", 6);
    FormatContext c = FormatContext.create("-");
    try {
      if (way == 0) c = FormatContext.create("-", v, -1);
      else if (way == 1) c = FormatContext.create("-", -1, v);
      else if (way == 2) c = FormatContext.create(flags(1), v, -1, null);
      else if (way == 3) c = FormatContext.create(flags(1), -1, v, null);
      else if (way == 4) c = c.setWidth(v);
      else c = c.setPrecision(v);
      accepted = true;
    } catch (PrintfException e) {
      accepted = false;
    }
    Sym.out(String.valueOf(accepted));
    Sym.check(accepted == ok, "accepted");
    boolean width = way % 2 == 0;
    if (accepted) is(c, 1, width ? v : -1, width ? -1 : v, "accepted");
  }
}
