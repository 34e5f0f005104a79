package symx;

import java.util.*;

/** Immutable text: runs of (char, count), each possibly symbolic. */
final class Rope {
  final Object[] ch; // Integer or Term(32)
  final Object[] cnt; // null: all 1
  final Object len; // Integer or Term(32)
  static final Rope EMPTY = new Rope(new Object[0], null, 0);
  private static final Integer[] SMALL = new Integer[256];

  static {
    for (int i = 0; i < 256; i++) SMALL[i] = i;
  }

  Rope(Object[] ch, Object[] cnt, Object len) {
    this.ch = ch;
    this.cnt = cnt;
    this.len = len;
  }

  static Rope units(Object[] ch) {
    return ch.length == 0 ? EMPTY : new Rope(ch, null, ch.length);
  }

  static Rope of(String s) {
    Object[] c = new Object[s.length()];
    for (int i = 0; i < c.length; i++) {
      char x = s.charAt(i);
      c[i] = x < 256 ? SMALL[x] : Integer.valueOf(x);
    }
    return units(c);
  }

  static Rope run(Object c, Object n) {
    if (n instanceof Integer) {
      int k = (Integer) n;
      if (k <= 0) return EMPTY;
      Object[] a = new Object[Math.min(k, 1)];
      a[0] = c;
      if (k == 1) return units(a);
      if (k <= 64) {
        a = new Object[k];
        Arrays.fill(a, c);
        return units(a);
      }
    }
    return new Rope(new Object[] {c}, new Object[] {n}, n);
  }

  Object count(int i) {
    return cnt == null ? 1 : cnt[i];
  }

  boolean unitsOnly() {
    return cnt == null;
  }

  boolean concrete() {
    if (cnt != null) return false;
    for (Object o : ch) if (!(o instanceof Integer)) return false;
    return true;
  }

  String host() {
    StringBuilder sb = new StringBuilder(ch.length);
    for (Object o : ch) sb.append((char) (int) (Integer) o);
    return sb.toString();
  }

  static Rope concat(Engine e, Rope a, Rope b) {
    if (a.ch.length == 0) return b;
    if (b.ch.length == 0) return a;
    int n = a.ch.length, m = b.ch.length;
    Object[] c = Arrays.copyOf(a.ch, n + m);
    System.arraycopy(b.ch, 0, c, n, m);
    Object[] k = null;
    if (a.cnt != null || b.cnt != null) {
      k = new Object[n + m];
      for (int i = 0; i < n; i++) k[i] = a.count(i);
      for (int i = 0; i < m; i++) k[n + i] = b.count(i);
    }
    return new Rope(c, k, e.iadd(a.len, b.len));
  }

  Object[] toUnits(Engine e) {
    if (cnt == null) return ch;
    ArrayList<Object> l = new ArrayList<>();
    for (int i = 0; i < ch.length; i++) {
      int k = e.concretize(cnt[i], "text run length");
      for (int j = 0; j < k; j++) l.add(ch[i]);
    }
    return l.toArray();
  }

  Object charAt(Engine e, Object idx) {
    if (cnt == null) {
      if (idx instanceof Integer) return ch[(Integer) idx];
      return e.selectInts(ch, (Term) idx);
    }
    Object cum = 0;
    for (int i = 0; i < ch.length; i++) {
      cum = e.iadd(cum, cnt[i]);
      if (i == ch.length - 1 || e.decide(e.ilt(idx, cum))) return ch[i];
    }
    throw new IllegalStateException();
  }

  /** splits at pos (0 <= pos <= len already ensured) */
  Rope[] split(Engine e, Object pos) {
    if (pos instanceof Integer && (Integer) pos == 0) return new Rope[] {EMPTY, this};
    if (e.same(pos, len)) return new Rope[] {this, EMPTY};
    if (cnt == null) {
      int p = e.concretize(pos, "text index");
      return new Rope[] {units(Arrays.copyOf(ch, p)), units(Arrays.copyOfRange(ch, p, ch.length))};
    }
    Object cum = 0;
    for (int i = 0; i < ch.length; i++) {
      Object c2 = e.iadd(cum, cnt[i]);
      if (i == ch.length - 1 || e.decide(e.ile(pos, c2))) {
        Object l = e.isub(pos, cum), r = e.isub(c2, pos);
        ArrayList<Object> c = new ArrayList<>(), k = new ArrayList<>();
        for (int j = 0; j < i; j++) {
          c.add(ch[j]);
          k.add(cnt[j]);
        }
        c.add(ch[i]);
        k.add(l);
        Rope left = mk(c, k, pos);
        c.clear();
        k.clear();
        c.add(ch[i]);
        k.add(r);
        for (int j = i + 1; j < ch.length; j++) {
          c.add(ch[j]);
          k.add(cnt[j]);
        }
        return new Rope[] {left, mk(c, k, e.isub(len, pos))};
      }
      cum = c2;
    }
    throw new IllegalStateException();
  }

  private static Rope mk(List<Object> c, List<Object> k, Object len) {
    ArrayList<Object> c2 = new ArrayList<>(), k2 = new ArrayList<>();
    boolean unit = true;
    for (int i = 0; i < c.size(); i++) {
      Object n = k.get(i);
      if (n instanceof Integer && (Integer) n == 0) continue;
      c2.add(c.get(i));
      k2.add(n);
      unit &= n instanceof Integer && (Integer) n == 1;
    }
    if (c2.isEmpty()) return EMPTY;
    if (unit) return units(c2.toArray());
    return new Rope(c2.toArray(), k2.toArray(), len);
  }

  Rope sub(Engine e, Object from, Object to) {
    if (from instanceof Integer && to instanceof Integer && cnt == null) {
      int f = (Integer) from, t = (Integer) to;
      if (f == 0 && t == ch.length) return this;
      return units(Arrays.copyOfRange(ch, f, t));
    }
    Rope l = split(e, to)[0];
    return l.split(e, from)[1];
  }

  /** maximal runs of equal characters */
  private static void runs(Engine e, Rope r, List<Object> c, List<Object> k) {
    for (int i = 0; i < r.ch.length; i++) {
      Object n = r.count(i);
      int s = c.size();
      if (s > 0 && e.same(c.get(s - 1), r.ch[i])) k.set(s - 1, e.iadd(k.get(s - 1), n));
      else {
        c.add(r.ch[i]);
        k.add(n);
      }
    }
  }

  /** equality as Boolean or Term(0) */
  static Term eq(Engine e, Rope a, Rope b) {
    if (a == b) return e.tf.T;
    TF tf = e.tf;
    if (a.cnt == null && b.cnt == null) {
      if (a.ch.length != b.ch.length) return tf.F;
      Term r = tf.T;
      for (int i = 0; i < a.ch.length; i++) {
        r = tf.band(r, e.ieq(a.ch[i], b.ch[i]));
        if (r == tf.F) return r;
      }
      return r;
    }
    Term le = e.ieq(a.len, b.len);
    if (!e.decide(le)) return tf.F;
    ArrayList<Object> ca = new ArrayList<>(), ka = new ArrayList<>(), cb = new ArrayList<>(), kb = new ArrayList<>();
    runs(e, a, ca, ka);
    runs(e, b, cb, kb);
    Term r = tf.T;
    int i = 0, j = 0;
    Object ra = null, rb = null;
    while (true) {
      if (ra == null) {
        if (i >= ca.size()) break;
        ra = ka.get(i);
        if (e.decide(e.ile(ra, 0))) {
          ra = null;
          i++;
          continue;
        }
      }
      if (rb == null) {
        if (j >= cb.size()) break;
        rb = kb.get(j);
        if (e.decide(e.ile(rb, 0))) {
          rb = null;
          j++;
          continue;
        }
      }
      r = tf.band(r, e.ieq(ca.get(i), cb.get(j)));
      if (r == tf.F) return r;
      if (e.decide(e.ieq(ra, rb))) {
        ra = null;
        rb = null;
        i++;
        j++;
      } else if (e.decide(e.ilt(ra, rb))) {
        rb = e.isub(rb, ra);
        ra = null;
        i++;
      } else {
        ra = e.isub(ra, rb);
        rb = null;
        j++;
      }
    }
    return r;
  }

  String show(TF.Eval ev) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < ch.length; i++) {
      char c = (char) val(ch[i], ev);
      long n = val(count(i), ev);
      for (long j = 0; j < n; j++) sb.append(c);
    }
    return sb.toString();
  }

  static long val(Object o, TF.Eval ev) {
    return o instanceof Term ? ev.eval((Term) o) : o instanceof Integer ? (Integer) o : (Long) o;
  }

  @Override
  public String toString() {
    if (concrete()) return '"' + host() + '"';
    StringBuilder sb = new StringBuilder("\"");
    for (int i = 0; i < ch.length; i++) {
      if (ch[i] instanceof Integer) sb.append((char) (int) (Integer) ch[i]);
      else sb.append('<').append(ch[i]).append('>');
      if (!(count(i) instanceof Integer) || (Integer) count(i) != 1) sb.append("{x").append(count(i)).append('}');
    }
    return sb.append('"').toString();
  }
}
