package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.PrintfException;
import java.io.IOException;
import java.io.UncheckedIOException;
import sym.Harness;
import sym.Sym;

/** The same text for every output target, cache setting and history of calls. */
public final class TargetHarness {
  private static final String FORMAT = "a%s|%*d;%%";
  private static FastPrintf printf;

  /** an argument whose text is made with the formatter itself */
  private static final class Nested {
    final int v;
    final boolean fails;

    Nested(int v, boolean fails) {
      this.v = v;
      this.fails = fails;
    }

    @Override
    public String toString() {
      String s = printf.format(Args.create().putString("in").putInt(4).putInt(v));
      if (fails) throw new IllegalStateException(s);
      return s;
    }
  }

  private static String expect(String s, int w, int v) {
    return "a" + s + "|" + Ref.decimal(v < 0, Ref.magnitude(v), v == 0, w < 0 ? Ref.MINUS : 0, w < 0 ? -w : w, -1) + ";%";
  }

  private static FastPrintf configure(FastPrintf f) {
    switch (Sym.choose("config", 6)) {
      case 1:
        return f.enableThreadLocalCache();
      case 2:
        return f.setStringBuilderInitialCapacity(Sym.intIn("capacity", 1, 200000));
      case 3:
        return f.enableThreadLocalCache().setStringBuilderInitialCapacity(Sym.intIn("capacity", 1, 200000));
      case 4:
        return f.setStringBuilderInitialCapacity(Sym.intIn("capacity", 1, 200000)).enableThreadLocalCache();
      case 5:
        return f.enableThreadLocalCache().enableThreadLocalCache();
      default:
        return f;
    }
  }

  /** an earlier call; its outcome is checked as well */
  private static void before(int kind) {
    int v = Sym.intIn("before", -9, 9);
    switch (kind) {
      case 1:
        Sym.checkEq(printf.format(Args.create().putString("xyz").putInt(5).putInt(v)), expect("xyz", 5, v), "earlier call");
        break;
      case 2:
        int w = Sym.intIn("wide", 60000, Ref.MAX);
        Sym.checkEq(printf.format(Args.create().putString("wide").putInt(w).putInt(v)), expect("wide", w, v), "earlier large call");
        break;
      case 3:
        try {
          printf.format(Args.create().putString("lost").putInt(3));
          Sym.fail("missing argument accepted");
        } catch (PrintfException e) {
          // as it should
        }
        break;
      case 4:
        try {
          printf.format(Args.create().putString("lost").putInt(3).putString("x"));
          Sym.fail("text as a number accepted");
        } catch (PrintfException e) {
          // as it should
        }
        break;
      case 5:
        Sym.checkEq(printf.format(Args.create().put(new Nested(v, false)).putInt(2).putInt(v)), expect(expect("in", 4, v), 2, v), "earlier nested call");
        break;
      case 6:
        try {
          printf.format(Args.create().put(new Nested(v, true)).putInt(2).putInt(v));
          Sym.fail("exception lost");
        } catch (IllegalStateException e) {
          Sym.checkEq(e.getMessage(), expect("in", 4, v), "nested call before the failure");
        }
        break;
      case 7:
        StringBuilder sb = new StringBuilder("-");
        try {
          printf.format(sb, Args.create().putString("lost").putInt(70000).putInt(v));
          Sym.fail("width accepted");
        } catch (PrintfException e) {
          // as it should
        }
        break;
      default:
    }
  }

  private static void last(int target) {
    int w = Sym.intIn("width", -Ref.MAX, Ref.MAX), v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
    Args a = Args.create();
    String s;
    if (Sym.choose("nested", 2) == 1) {
      int n = Sym.intIn("inner", 0, 9);
      a.put(new Nested(n, false));
      s = expect("in", 4, n);
    } else {
      s = Sym.str("s", 2, SeqHarness.MIN, SeqHarness.MAX);
      a.putString(s);
    }
    a.putInt(w).putInt(v);
    String want = expect(s, w, v);
    switch (target) {
      case 0:
        Sym.checkEq(printf.format(a), want, "text");
        break;
      case 1:
        StringBuilder sb = new StringBuilder("held");
        Sym.check(printf.format(sb, a) == sb, "the same builder");
        Sym.checkEq(sb.toString(), "held" + want, "appended to a builder");
        break;
      default:
        SeqHarness.Sink k = new SeqHarness.Sink();
        Sym.check(printf.format(k, a) == k, "the same target");
        Sym.checkEq(k.sb.toString(), "<" + want, "appended to an Appendable");
    }
  }

  @Harness(property = "C14", bounds = "6 configurations with capacity 1..200000, one earlier call of 8 kinds (none, ordinary, large, missing argument, wrong argument, nested, nested and failing, failing on a builder), then String or StringBuilder with width -65536..65536, all ints, 2 arbitrary chars or a nested call")
  public static void single() {
    printf = configure(FastPrintf.compile(FORMAT));
    before(Sym.choose("history", 8));
    last(Sym.choose("target", 2));
  }

  @Harness(property = "C14", bounds = "4 configurations, every two earlier calls out of 8 kinds, then a String")
  public static void histories() {
    FastPrintf f = FastPrintf.compile(FORMAT);
    int c = Sym.choose("config", Sym.thorough() ? 4 : 2);
    printf = c == 0 ? f.enableThreadLocalCache() : c == 1 ? f.enableThreadLocalCache().setStringBuilderInitialCapacity(100000) : c == 2 ? f : f.setStringBuilderInitialCapacity(3);
    before(Sym.choose("history", 8));
    before(Sym.choose("history", 8));
    int v = Sym.intIn("v", -99, 99);
    int w = Sym.intIn("width", 1, Ref.MAX);
    Sym.checkEq(printf.format(Args.create().putString("end").putInt(w).putInt(v)), expect("end", w, v), "text after two calls");
  }

  @Harness(property = "C14", bounds = "an Appendable as target, widths -20..20, all ints, 2 arbitrary chars or a nested call, 3 configurations")
  public static void appendable() {
    FastPrintf f = FastPrintf.compile(FORMAT);
    int c = Sym.choose("config", 3);
    printf = c == 0 ? f : c == 1 ? f.enableThreadLocalCache() : f.setStringBuilderInitialCapacity(Sym.intIn("capacity", 1, 200000));
    int w = Sym.intIn("width", -20, 20), v = Sym.intIn("v", Integer.MIN_VALUE, Integer.MAX_VALUE);
    boolean nested = Sym.choose("nested", 2) == 1;
    String s = nested ? expect("in", 4, 7) : Sym.str("s", 2, SeqHarness.MIN, SeqHarness.MAX);
    Args a = nested ? Args.create().put(new Nested(7, false)) : Args.create().putString(s);
    SeqHarness.Sink k = new SeqHarness.Sink();
    Sym.check(printf.format(k, a.putInt(w).putInt(v)) == k, "the same target");
    Sym.checkEq(k.sb.toString(), "<" + expect(s, w, v), "appended to an Appendable");
  }

  /** every conversion, on the three targets */
  @Harness(property = "C14", bounds = "14 conversions with 4 flag sets, width -20..20, precision absent or 0..3: String, builder and Appendable agree")
  public static void conversions() {
    char conv = "dxofegasSXEGAc".charAt(Sym.choose("conv", 14));
    int mask = new int[] {0, Ref.ZERO, Ref.ALT | Ref.PLUS, Ref.SPACE | Ref.ZERO}[Sym.choose("flags", 4)];
    boolean p = Sym.choose("hasPrecision", 2) == 1;
    int w = Sym.intIn("width", -20, 20);
    int prec = p ? Sym.choose("precision", 4) : 0;
    Args a = Args.create().putInt(w);
    if (p) a.putInt(prec);
    switch (conv) {
      case 'f':
      case 'e':
      case 'g':
      case 'E':
      case 'G':
        a.putDouble(Sym.decimalDouble("v", 2, -1, -1));
        break;
      case 'a':
      case 'A':
        a.putDouble(1.75);
        break;
      case 's':
      case 'S':
      case 'c':
        a.putString(Sym.str("t", 2, SeqHarness.MIN, SeqHarness.MAX));
        break;
      default:
        a.putInt(Sym.intIn("v", -200, 200));
    }
    FastPrintf f = FastPrintf.compile("." + Ref.directive(mask, true, p, conv) + ".");
    String want = f.format(a);
    StringBuilder sb = new StringBuilder("+");
    Sym.check(f.format(sb, a) == sb, "the same builder");
    Sym.checkEq(sb.toString(), "+" + want, "builder for %" + conv);
    SeqHarness.Sink k = new SeqHarness.Sink();
    Sym.check(f.format(k, a) == k, "the same target");
    Sym.checkEq(k.sb.toString(), "<" + want, "Appendable for %" + conv);
    Sym.checkEq(f.enableThreadLocalCache().format(a), want, "cached %" + conv);
  }

  private static final class Broken implements Appendable {
    int left;
    IOException failure;

    @Override
    public Appendable append(CharSequence c) throws IOException {
      if (left-- <= 0) throw failure;
      return this;
    }

    @Override
    public Appendable append(CharSequence c, int start, int end) throws IOException {
      return append(c);
    }

    @Override
    public Appendable append(char c) throws IOException {
      return append("");
    }
  }

  @Harness(property = "C14", bounds = "a target that fails at its 1st..4th append with one of 6 kinds of IOException; the formatter is then used again")
  public static void failingTarget() {
    FastPrintf f = FastPrintf.compile("x%d,%5s,%-4dyy");
    if (Sym.choose("cached", 2) == 1) f = f.enableThreadLocalCache();
    int v = Sym.intIn("v", 0, 99);
    Broken b = new Broken();
    b.left = Sym.choose("appends", 4);
    IOException[] failures = {
      new IOException("full"), new java.io.EOFException(), new java.io.InterruptedIOException("stop"),
      new java.io.FileNotFoundException("gone"), new java.io.CharConversionException(), new java.io.NotSerializableException()
    };
    b.failure = failures[Sym.choose("failure", failures.length)];
    Args a = Args.create().putInt(v).putString("ab").putInt(v);
    try {
      f.format(b, a);
      Sym.fail("failure lost");
    } catch (UncheckedIOException e) {
      Sym.check(e.getCause() == b.failure, "cause");
    }
    String d = Integer.toString(v);
    Sym.checkEq(f.format(a), "x" + d + ",   ab," + (v < 10 ? d + "   " : d + "  ") + "yy", "text afterwards");
  }

  @Harness(property = "C14", bounds = "every int as initial capacity: rejected exactly when not positive; the original formatter keeps working")
  public static void capacity() {
    FastPrintf f = FastPrintf.compile("<%d>");
    int n = Sym.intIn("capacity", Integer.MIN_VALUE, 1000000);
    boolean ok = true;
    try {
      FastPrintf g = f.setStringBuilderInitialCapacity(n);
      Sym.checkEq(g.format(Args.create().putInt(12)), "<12>", "text");
      Sym.checkEq(g.enableThreadLocalCache().format(Args.create().putInt(13)), "<13>", "cached text");
    } catch (IllegalArgumentException e) {
      ok = false;
    }
    Sym.check(ok == n > 0, "capacity");
    Sym.checkEq(f.format(Args.create().putInt(14)), "<14>", "original");
  }
}
