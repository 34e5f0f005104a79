package h;

import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.io.IOException;
import java.util.ArrayList;
import java.util.List;
import sym.Harness;
import sym.Sym;

/** Sequences compared with the strings they denote. */
public final class SeqHarness {
  static final char MIN = '\0', MAX = '￿';

  /** collects what is appended, whichever method is used */
  static final class Sink implements Appendable {
    final StringBuilder sb = new StringBuilder("<");

    @Override
    public Appendable append(CharSequence c) {
      sb.append(c);
      return this;
    }

    @Override
    public Appendable append(CharSequence c, int start, int end) {
      for (int i = start; i < end; i++) sb.append(c.charAt(i));
      return this;
    }

    @Override
    public Appendable append(char c) {
      sb.append(c);
      return this;
    }
  }

  private static final int[] ALL = {0, 1, 2, 3, 4, 5, 6, 7}, FEW = {2, 5, 6}, WATCH = {2, 4, 5, 6, 7};
  private static int[] kinds;
  private static Seq seq;
  private static String text;

  static char up(char c) {
    return c >= 'a' && c <= 'z' ? (char) (c - 32) : c;
  }

  static String upper(String s) {
    char[] c = new char[s.length()];
    for (int i = 0; i < c.length; i++) c[i] = up(s.charAt(i));
    return new String(c);
  }

  /** a leaf of at most n chars */
  private static AtomicSeq leaf(int n) {
    String s;
    switch (kinds[Sym.choose("leaf", kinds.length)]) {
      case 0:
        text = "";
        return Seq.empty();
      case 1:
        char c = Sym.ch("c", MIN, MAX);
        text = String.valueOf(c);
        return Seq.ch(c);
      case 2:
        c = Sym.ch("c", MIN, MAX);
        int k = 1 + Sym.choose("count", n);
        StringBuilder sb = new StringBuilder();
        for (int i = 0; i < k; i++) sb.append(c);
        text = sb.toString();
        return Seq.repeated(c, k);
      case 3:
        s = Sym.str("s", n, MIN, MAX);
        text = s;
        return Seq.wrap(s);
      case 4:
        s = Sym.str("s", n + 1, MIN, MAX);
        text = s.substring(1);
        return Seq.wrap(s, 1);
      case 5:
        s = Sym.str("s", n + 1, MIN, MAX);
        text = s.substring(0, n);
        return Seq.wrap(s, 0, n);
      case 6:
        s = Sym.str("s", n + 2, MIN, MAX);
        text = s.substring(1, n + 1);
        return Seq.forArray(s.toCharArray(), 1, n);
      default:
        String l = Sym.str("s", n, MIN, MAX);
        text = l;
        return Seq.lazy(b -> b.append(l), n);
    }
  }

  private static void build(int leafSize, int ops) {
    seq = leaf(leafSize);
    String t = text;
    for (int i = 0; i < ops; i++) {
      Seq s = seq;
      switch (Sym.choose("op", 6)) {
        case 0:
          seq = s.append(leaf(leafSize));
          t = t + text;
          break;
        case 1:
          seq = s.prepend(leaf(leafSize));
          t = text + t;
          break;
        case 2:
          seq = s.upperCase();
          t = upper(t);
          break;
        case 3:
          int b = Sym.choose("begin", t.length() + 1), e = b + Sym.choose("size", t.length() - b + 1);
          if (t.isEmpty()) break;
          seq = s.subSequence(b, e);
          t = t.substring(b, e);
          break;
        case 4:
          // a composite on the right
          AtomicSeq x = leaf(1);
          t = t + text;
          Seq y = x.append(Seq.ch('q'));
          t = t + "q";
          seq = Seq.concat(s, y);
          break;
        default:
          List<AtomicSeq> l = new ArrayList<>();
          l.add(leaf(leafSize));
          String head = text;
          l.add(leaf(1));
          seq = Seq.join(l).append(s);
          t = head + text + t;
      }
    }
    text = t;
  }

  /** any index around a text; of long texts those at the ends and in the middle */
  private static int index(String name, int n) {
    if (n <= 17) return Sym.intIn(name, -1, n + 1);
    return new int[] {-1, 0, 1, n / 2, n - 1, n, n + 1}[Sym.choose(name, 7)];
  }

  private static void observe(boolean leaf) {
    Seq s = seq;
    String t = text;
    int n = t.length();
    Sym.check(s.length() == n, "length");
    switch (kinds == FEW ? WATCH[Sym.choose("observe", WATCH.length)] : Sym.choose("observe", 10)) {
      case 0:
        Sym.checkEq(s.toString(), t, "text");
        break;
      case 1:
        Sym.check(s.isEmpty() == (n == 0), "isEmpty");
        int i = leaf ? Sym.intIn("index", Integer.MIN_VALUE, Integer.MAX_VALUE) : index("index", n);
        char c = 0;
        boolean thrown = false;
        try {
          c = s.charAt(i);
        } catch (IndexOutOfBoundsException e) {
          thrown = true;
        }
        Sym.check(thrown == (i < 0 || i >= n), "charAt range");
        if (!thrown) Sym.check(c == t.charAt(i), "charAt");
        break;
      case 2:
        c = Sym.ch("wanted", MIN, MAX);
        Sym.check(s.indexOf(c) == t.indexOf(c), "indexOf");
        Sym.check(s.startsWith(c) == (n > 0 && t.charAt(0) == c), "startsWith");
        break;
      case 3:
        Sym.checkEq(s.upperCase().toString(), upper(t), "upperCase");
        break;
      case 4:
        int b = index("from", n), e = index("to", n);
        if (n == 0) break;
        Seq sub = null;
        try {
          sub = s.subSequence(b, e);
        } catch (IndexOutOfBoundsException x) {
          // as for a string
        }
        Sym.check((sub == null) == (b < 0 || e < b || e > n), "subSequence range");
        if (sub != null) {
          Sym.check(sub.length() == e - b, "subSequence length");
          Sym.checkEq(sub.toString(), t.substring(b, e), "subSequence");
        }
        break;
      case 5:
        StringBuilder sb = new StringBuilder(">");
        s.appendTo(sb);
        Sym.checkEq(sb.toString(), ">" + t, "appendTo a builder");
        break;
      case 6:
        Sink k = new Sink();
        try {
          s.appendTo(k);
        } catch (IOException x) {
          Sym.fail("IOException");
        }
        Sym.checkEq(k.sb.toString(), "<" + t, "appendTo an Appendable");
        break;
      case 7:
        sb = new StringBuilder();
        s.upperCase().appendTo(sb);
        Sym.checkEq(sb.toString(), upper(t), "upperCase then append");
        break;
      case 8:
        c = Sym.ch("wanted", MIN, MAX);
        Sym.check(s.upperCase().indexOf(c) == upper(t).indexOf(c), "upperCase then indexOf");
        break;
      default:
        k = new Sink();
        try {
          s.upperCase().appendTo(k);
        } catch (IOException x) {
          Sym.fail("IOException");
        }
        Sym.checkEq(k.sb.toString(), "<" + upper(t), "upperCase then append to an Appendable");
        if (n > 0) Sym.check(s.upperCase().charAt(n - 1) == up(t.charAt(n - 1)), "upperCase then charAt");
    }
    // no operation changes the sequence
    Sym.checkEq(s.toString(), t, "text after the operation");
    Sym.check(s.length() == n, "length after the operation");
  }

  @Harness(property = "C13", bounds = "8 kinds of leaves of up to 2 (thorough: 3) arbitrary chars, at most 1 combinator out of 6, 10 observations with arbitrary char arguments and indexes (all ints on leaves, one beyond the text elsewhere)")
  public static void single() {
    kinds = ALL;
    int ops = Sym.choose("ops", 2);
    build(Sym.thorough() ? 3 : 2, ops);
    observe(ops == 0);
  }

  @Harness(property = "C13", bounds = "3 (thorough: 8) kinds of leaves of 2 arbitrary chars, 2 combinators out of 6, 5 (thorough: 10) observations")
  public static void nested() {
    kinds = Sym.thorough() ? ALL : FEW;
    build(2, 2);
    observe(false);
  }

  @Harness(property = "C13", bounds = "runs of 1..65536 of any char: length, charAt, slices, upper case, both appends")
  public static void runs() {
    char c = Sym.ch("c", MIN, MAX);
    int n = Sym.intIn("count", 1, Ref.MAX);
    Seq s = Seq.repeated(c, n);
    StringBuilder sb = new StringBuilder();
    Sym.rep(sb, c, n);
    Sym.check(s.length() == n, "length");
    int b = Sym.intIn("from", -2, Ref.MAX + 2), e = Sym.intIn("to", -2, Ref.MAX + 2);
    switch (Sym.choose("observe", 4)) {
      case 0:
        StringBuilder out = new StringBuilder("#");
        s.appendTo(out);
        Sym.checkEq(out.toString(), "#" + sb, "append");
        break;
      case 1:
        Seq sub = null;
        try {
          sub = s.subSequence(b, e);
        } catch (IndexOutOfBoundsException x) {
          // as for a string
        }
        Sym.check((sub == null) == (b < 0 || e < b || e > n), "range");
        if (sub != null) {
          out = new StringBuilder();
          sub.append(Seq.ch('!')).appendTo(out);
          Sym.checkEq(out.toString(), sb.substring(b, e) + "!", "slice");
        }
        break;
      case 2:
        out = new StringBuilder();
        s.upperCase().appendTo(out);
        StringBuilder want = new StringBuilder();
        Sym.rep(want, up(c), n);
        Sym.checkEq(out.toString(), want.toString(), "upper case");
        break;
      default:
        char d = Sym.ch("wanted", MIN, MAX);
        Seq t = Seq.wrap("ab").append(s);
        Sym.check(t.indexOf(d) == (d == 'a' ? 0 : d == 'b' ? 1 : d == c ? 2 : -1), "indexOf behind a prefix");
        boolean thrown = false;
        try {
          char x = t.charAt(b);
          Sym.check(x == (b == 0 ? 'a' : b == 1 ? 'b' : c), "charAt behind a prefix");
        } catch (IndexOutOfBoundsException x) {
          thrown = true;
        }
        Sym.check(thrown == (b < 0 || b >= n + 2), "charAt range");
    }
  }

  @Harness(property = "C13", bounds = "texts of 15..17 chars, of which 3 arbitrary, as string, slice, array and lazy text: upper case with all observations")
  public static void upperCase() {
    kinds = ALL;
    int n = 15 + Sym.choose("length", 3);
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < n; i++) sb.append(i == 0 || i == 7 || i == n - 1 ? Sym.ch("c", MIN, MAX) : (char) ('T' + i));
    String t = sb.toString();
    switch (Sym.choose("kind", 4)) {
      case 0:
        seq = Seq.wrap(t);
        break;
      case 1:
        seq = Seq.wrap("z" + t + "z", 1, n + 1);
        break;
      case 2:
        seq = Seq.forArray(("z" + t + "z").toCharArray(), 1, n);
        break;
      default:
        seq = Seq.lazy(b -> b.append(t), n);
    }
    text = t;
    observe(false);
  }

  @Harness(property = "C13", bounds = "3..7, 9, 17 and 33 leaves of all kinds, three arbitrary chars among them, appended, prepended, in turns, chain to chain or joined; all observations, also of a slice, behind a joined one and of joined ones appended to each other")
  public static void chains() {
    kinds = ALL;
    int[] sizes = {3, 4, 5, 6, 7, 9, 17, 33};
    int n = sizes[Sym.choose("leaves", sizes.length)], first = Sym.choose("first", n < 6 ? 3 : 1);
    AtomicSeq[] leaves = new AtomicSeq[n];
    String[] texts = new String[n];
    for (int i = 0; i < n; i++) {
      char c = i == 1 || i == n / 2 || i == n - 1 ? Sym.ch("c", MIN, MAX) : (char) ('Z' + i);
      String t = (i + first) % 5 == 0 ? String.valueOf(c) : (i + first) % 5 == 1 ? "" + c + c : "" + c + (char) ('a' + i);
      texts[i] = t;
      leaves[i] = (i + first) % 5 == 0 ? Seq.ch(c) : (i + first) % 5 == 1 ? Seq.repeated(c, 2) : (i + first) % 5 == 2 ? Seq.wrap(t) : (i + first) % 5 == 3 ? Seq.forArray(("x" + t + "y").toCharArray(), 1, 2) : Seq.lazy(b -> b.append(t), 2);
    }
    int way = Sym.choose("way", 9);
    if (way >= 4) {
      List<AtomicSeq> l = new ArrayList<>();
      StringBuilder b = new StringBuilder();
      for (int i = 0; i < n; i++) {
        l.add(leaves[i]);
        b.append(texts[i]);
      }
      seq = Seq.join(l);
      text = b.toString();
      if (way == 5) {
        seq = Seq.wrap("<<").append(seq).append(Seq.ch('>')).prepend(seq);
        text = text + "<<" + text + ">";
      } else if (way == 6) {
        seq = seq.upperCase().subSequence(1, text.length() - 1);
        text = upper(text).substring(1, text.length() - 1);
      } else if (way == 7) {
        seq = seq.append(seq.upperCase());
        text = text + upper(text);
      } else if (way == 8) {
        seq = Seq.concat(seq.upperCase(), seq).prepend(seq);
        text = text + upper(text) + text;
      }
    } else {
      seq = leaves[0];
      text = texts[0];
      for (int i = 1; i < n; i++) {
        if (way == 0 || way == 2 && i % 2 == 0) {
          seq = seq.append(leaves[i]);
          text = text + texts[i];
        } else if (way == 1 || way == 2) {
          seq = seq.prepend(leaves[i]);
          text = texts[i] + text;
        } else {
          seq = i % 3 == 0 ? Seq.concat(seq, leaves[i].append(Seq.ch('-'))) : seq.append(leaves[i].prepend(Seq.ch('-')));
          text = text + (i % 3 == 0 ? texts[i] + "-" : "-" + texts[i]);
        }
      }
    }
    observe(false);
  }

  @Harness(property = "C13", bounds = "texts of 33, 65, 130, 260 (thorough also 1030) chars, three arbitrary, as string, slice, array, lazy text and composite: upper case, appends, slices")
  public static void longOnes() {
    kinds = FEW;
    int[] lengths = {33, 65, 130, 260, 1030};
    int n = lengths[Sym.choose("length", Sym.thorough() ? 5 : 4)];
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < n; i++) sb.append(i == 0 || i == 7 || i == n - 1 ? Sym.ch("c", MIN, MAX) : (char) ('N' + i % 48));
    String t = sb.toString();
    switch (Sym.choose("kind", 5)) {
      case 0:
        seq = Seq.wrap(t);
        break;
      case 1:
        seq = Seq.wrap("z" + t + "z", 1, n + 1);
        break;
      case 2:
        seq = Seq.forArray(("z" + t + "z").toCharArray(), 1, n);
        break;
      case 3:
        seq = Seq.lazy(b -> b.append(t), n);
        break;
      default:
        seq = Seq.wrap(t.substring(0, 5)).append(Seq.wrap(t, 5, n - 2)).append(Seq.forArray(t.toCharArray(), n - 2, 2));
    }
    text = t;
    if (Sym.choose("upper", 2) == 1) {
      seq = seq.upperCase();
      text = upper(t);
    }
    int b = Sym.choose("sliced", 3);
    if (b > 0) {
      seq = seq.subSequence(b, n - b);
      text = text.substring(b, n - b);
    }
    Sym.checkEq(seq.toString(), text, "text");
    switch (Sym.choose("watch", 4)) {
      case 0:
        StringBuilder o = new StringBuilder(">");
        seq.appendTo(o);
        Sym.checkEq(o.toString(), ">" + text, "appendTo a builder");
        break;
      case 1:
        Sink k = new Sink();
        try {
          seq.appendTo(k);
        } catch (IOException x) {
          Sym.fail("IOException");
        }
        Sym.checkEq(k.sb.toString(), "<" + text, "appendTo an Appendable");
        break;
      case 2:
        Sym.checkEq(seq.upperCase().toString(), upper(text), "upperCase");
        break;
      default:
        for (int i = 0; i < text.length(); i++) Sym.check(seq.charAt(i) == text.charAt(i), "charAt");
        char c = (char) ('N' + Sym.choose("wanted", 48));
        Sym.check(seq.indexOf(c) == text.indexOf(c), "indexOf");
    }
  }

  @Harness(property = "C13", bounds = "string and array slices with every int start and end or length over 3 arbitrary chars: accepted exactly when in range")
  public static void slices() {
    String s = Sym.str("s", 3, MIN, MAX);
    int a = Sym.intIn("start", Integer.MIN_VALUE, Integer.MAX_VALUE), b = Sym.intIn("end", Integer.MIN_VALUE, Integer.MAX_VALUE);
    Seq q = null;
    boolean ok;
    String want;
    switch (Sym.choose("kind", 3)) {
      case 0:
        ok = a >= 0 && a <= b && b <= 3;
        try {
          q = Seq.wrap(s, a, b);
        } catch (IndexOutOfBoundsException x) {
          // out of range
        }
        break;
      case 1:
        ok = a >= 0 && a <= 3;
        b = 3;
        try {
          q = Seq.wrap(s, a);
        } catch (IndexOutOfBoundsException x) {
          // out of range
        }
        break;
      default:
        ok = a >= 0 && b >= 0 && a <= 3 && b <= 3 - a;
        try {
          q = Seq.forArray(s.toCharArray(), a, b);
        } catch (IndexOutOfBoundsException x) {
          // out of range
        }
        b = a + b;
    }
    Sym.check((q != null) == ok, "range");
    if (ok) Sym.checkEq(q.toString(), s.substring(a, b), "slice");
  }
}
