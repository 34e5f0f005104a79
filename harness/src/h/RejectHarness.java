package h;

import io.fastprintf.Args;
import io.fastprintf.FastPrintf;
import io.fastprintf.Flag;
import io.fastprintf.FormatContext;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.util.Arrays;
import java.util.EnumSet;
import java.util.List;
import sym.Harness;
import sym.Sym;

/** API calls with null or out-of-range arguments. */
public final class RejectHarness {
  private static FastPrintf formatter() {
    FastPrintf f = FastPrintf.compile(new String[] {"", "ab", "%d", "a%5s%%"}[Sym.choose("format", 4)]);
    if (Sym.choose("cached", 2) == 1) f = f.enableThreadLocalCache();
    return f;
  }

  @Harness(property = "C27", bounds = "null for the format, argument list or target of 4 formats, cached or not; target holding 0..2 arbitrary chars")
  public static void formatting() {
    int op = Sym.choose("op", 6);
    FastPrintf f = formatter();
    String before = Sym.str("before", Sym.choose("length", 3), '\0', '￿');
    StringBuilder sb = new StringBuilder(before);
    StringBuffer other = new StringBuffer(before);
    boolean rejected = false;
    try {
      if (op == 0) FastPrintf.compile(null);
      else if (op == 1) f.format((Args) null);
      else if (op == 2) f.format((StringBuilder) null, Args.of(1, 2));
      else if (op == 3) f.format((StringBuffer) null, Args.of(1, 2));
      else if (op == 4) f.format(sb, null);
      else f.format(other, null);
    } catch (NullPointerException e) {
      rejected = true;
    }
    Sym.check(rejected, "null is rejected");
    Sym.checkEq(sb.toString(), before, "string builder");
    Sym.checkEq(other.toString(), before, "other target");
    // the formatter still works
    int v = Sym.intIn("v", 0, 9);
    Args a = Args.of(v, "z");
    Sym.checkEq(f.format(a), f.format(new StringBuilder(), a).toString(), "later call");
  }

  @Harness(property = "C27", bounds = "null for a required object of 14 operations on argument lists, sequences and directive descriptions; all ints as indexes beside it")
  public static void nulls() {
    int i = Sym.intIn("i", Integer.MIN_VALUE, Integer.MAX_VALUE), j = Sym.intIn("j", Integer.MIN_VALUE, Integer.MAX_VALUE);
    Seq s = Sym.choose("empty", 2) == 1 ? Seq.empty() : Seq.wrap("xyz");
    boolean rejected = false;
    try {
      switch (Sym.choose("op", 14)) {
        case 0:
          Args.of((Iterable<?>) null);
          break;
        case 1:
          Seq.wrap(null);
          break;
        case 2:
          Seq.wrap(null, i);
          break;
        case 3:
          Seq.wrap(null, i, j);
          break;
        case 4:
          Seq.forArray(null);
          break;
        case 5:
          Seq.forArray(null, i, j);
          break;
        case 6:
          Seq.lazy(null, i);
          break;
        case 7:
          Seq.concat(null, s);
          break;
        case 8:
          Seq.concat(s, null);
          break;
        case 9:
          Seq.join(null);
          break;
        case 10: {
          AtomicSeq a = Seq.wrap("ab");
          List<AtomicSeq> l = Sym.choose("first", 2) == 1 ? Arrays.asList(null, a) : Arrays.asList(a, null);
          Seq.join(l);
          break;
        }
        case 11:
          s.map(null);
          break;
        case 12:
          FormatContext.create((EnumSet<Flag>) null, i, j, null);
          break;
        default:
          FormatContext.create("-").toPatternString(null);
      }
    } catch (NullPointerException e) {
      rejected = true;
    } catch (IndexOutOfBoundsException | IllegalArgumentException e) {
      // which of two invalid arguments is complained about is left open
      rejected = i != 0 || j != 0;
    }
    Sym.check(rejected, "null is rejected");
  }

  @Harness(property = "C27", bounds = "every int outside the range, every number up to 65536 (expected size: 64) inside it, as capacity, expected size, repeat count and length of a lazy text")
  public static void ranges() {
    int n = Sym.intIn("n", Integer.MIN_VALUE, 65536);
    boolean ok, rejected = false;
    int op = Sym.choose("op", 4);
    FastPrintf f = op == 0 ? formatter() : null;
    try {
      if (op == 0) {
        ok = n >= 1;
        Sym.check(f.setStringBuilderInitialCapacity(n) != null, "formatter");
      } else if (op == 1) {
        ok = n >= 0;
        Sym.assume(n <= 64);
        Sym.checkEq(Args.createWithExpectedSize(n).toString(), "[]", "list");
      } else if (op == 2) {
        ok = n >= 1;
        Sym.check(Seq.repeated('x', n).length() == n, "repeated");
      } else {
        ok = n >= 0;
        Sym.check(Seq.lazy(b -> b.append('x'), n).length() == n, "lazy");
      }
    } catch (IllegalArgumentException e) {
      rejected = true;
      ok = op == 0 || op == 2 ? n >= 1 : n >= 0;
    }
    Sym.check(ok != rejected, "out of range is rejected");
  }
}
