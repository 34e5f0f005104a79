package h;

import io.fastprintf.seq.Seq;
import sym.Harness;
import sym.Sym;

/** Equality and hash codes of sequences over char arrays. */
public final class ArrayHarness {
  /** a sequence over an array, and its text in text */
  private static Seq make(String name, int limit) {
    int n = Sym.choose(name + ".length", limit + 1), before = Sym.choose(name + ".before", 2), after = Sym.choose(name + ".after", 2);
    String t = Sym.str(name, n, '\0', '￿');
    char[] a = new char[before + n + after];
    if (before == 1) a[0] = Sym.ch(name + ".first", '\0', '￿');
    for (int i = 0; i < n; i++) a[before + i] = t.charAt(i);
    if (after == 1) a[before + n] = Sym.ch(name + ".last", '\0', '￿');
    Seq s = Seq.forArray(a, before, n);
    if (n > 0 && name.equals("s") && Sym.choose("asked", 2) == 1) Sym.check(s.hashCode() == t.hashCode(), "hash code asked before");
    int up = Sym.choose(name + ".kind", 3);
    if (up == 1) {
      s = s.upperCase();
      char[] u = t.toCharArray();
      for (int i = 0; i < n; i++) if (u[i] >= 'a' && u[i] <= 'z') u[i] -= 32;
      t = new String(u);
    } else if (up == 2 && n > 2) {
      s = s.subSequence(1, n);
      t = t.substring(1);
    }
    text = t;
    return s;
  }

  private static String text;

  @Harness(property = "C24", bounds = "slices of arrays, 1..3 (thorough 4) arbitrary chars, as they are, upper-cased or cut: hash code")
  public static void hash() {
    Seq s = make("s", Sym.thorough() ? 4 : 3);
    if (text.length() == 0) return;
    Sym.check(s.hashCode() == text.hashCode(), "hash code");
    Sym.check(s.hashCode() == text.hashCode(), "hash code asked again");
    Sym.checkEq(s.toString(), text, "text");
  }

  @Harness(property = "C24", bounds = "two slices of arrays, 1..2 (thorough 3) arbitrary chars each, as they are, upper-cased or cut: equality")
  public static void equality() {
    int limit = Sym.thorough() ? 3 : 2;
    Seq a = make("a", limit);
    String ta = text;
    Seq b = make("b", limit);
    String tb = text;
    if (ta.length() == 0 || tb.length() == 0) return;
    boolean same = ta.equals(tb);
    if (Sym.choose("hashed", 2) == 1) Sym.check((a.hashCode() == b.hashCode()) == (ta.hashCode() == tb.hashCode()), "hash codes");
    Sym.check(a.equals(b) == same, "equality");
    Sym.check(b.equals(a) == same, "symmetric");
    Sym.check(a.equals(a) && !a.equals(null) && !a.equals(ta), "itself, null and a String");
    if (same) Sym.check(a.hashCode() == b.hashCode(), "equal hash codes");
  }

  private static final int[] POSITIONS = {0, 15, 16, 31, 32, 39, 62, 63, 64, 98, 99, 127, 128, 199};

  /** letters with one arbitrary char, as a part of a longer array */
  private static Seq makeLong(String name, int n, int at, int shift) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < n; i++) sb.append((char) ('a' + i % 26));
    sb.setCharAt(at, Sym.ch(name, '\0', '\uFFFF'));
    String t = sb.toString();
    char[] a = new char[shift + n + 3];
    for (int i = 0; i < shift; i++) a[i] = 'q';
    for (int i = 0; i < n; i++) a[shift + i] = t.charAt(i);
    Seq s = Seq.forArray(a, shift, n);
    if (Sym.choose(name + ".upper", 2) == 1) {
      s = s.upperCase();
      t = Sym.upper(t);
    }
    text = t;
    return s;
  }

  @Harness(property = "C24", bounds = "two slices of arrays at different offsets, 200 (also 17, 65 and 100) letters with one arbitrary char at 14 places, as they are or upper-cased: equality and hash code")
  public static void longOnes() {
    int at = POSITIONS[Sym.choose("place", POSITIONS.length)];
    int n = new int[] {200, 100, 65, 17}[Sym.choose("length", 4)];
    if (at >= n) return;
    Seq a = makeLong("a", n, at, 0);
    String ta = text;
    Seq b = makeLong("b", n, at, 2);
    String tb = text;
    boolean same = ta.equals(tb);
    Sym.check(a.hashCode() == ta.hashCode(), "hash code");
    Sym.check(a.equals(b) == same, "equality");
    Sym.check(b.equals(a) == same, "symmetric");
    if (same) Sym.check(a.hashCode() == b.hashCode(), "equal hash codes");
  }
}
