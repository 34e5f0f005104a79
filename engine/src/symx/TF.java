package symx;

import java.util.*;
import symx.Term.Op;

/** Term factory: hash-consing, constant folding, light canonicalisation. One per worker. */
public final class TF {
  private static final Term[] NO = new Term[0];
  private final HashMap<Key, Term> table = new HashMap<>();
  private final HashMap<String, Term> vars = new HashMap<>();
  private final HashMap<Key, long[]> tables = new HashMap<>();
  private int next = 0;
  public final Term T, F;

  public TF() {
    T = mk(Op.TRUE, 0, NO, null, null, 0, 0);
    F = mk(Op.FALSE, 0, NO, null, null, 0, 0);
  }

  public int count() {
    return table.size();
  }

  private static final class Key {
    final Op op;
    final int w;
    final Term[] a;
    final long[] k;
    final Object x;
    final int h;

    Key(Op op, int w, Term[] a, long[] k, Object x) {
      this.op = op;
      this.w = w;
      this.a = a;
      this.k = k;
      this.x = x;
      int h = op == null ? 7 : op.ordinal() * 31 + w;
      for (Term t : a) h = h * 31 + t.id;
      h = h * 31 + Arrays.hashCode(k);
      if (x != null) h = h * 31 + (x instanceof long[] ? System.identityHashCode(x) : x.hashCode());
      this.h = h;
    }

    public int hashCode() {
      return h;
    }

    public boolean equals(Object o) {
      Key q = (Key) o;
      if (q.h != h || q.op != op || q.w != w || q.a.length != a.length) return false;
      for (int i = 0; i < a.length; i++) if (a[i] != q.a[i]) return false;
      if (!Arrays.equals(k, q.k)) return false;
      if (x == null) return q.x == null;
      return x instanceof long[] ? x == q.x : x.equals(q.x);
    }
  }

  private Term mk(Op op, int w, Term[] a, long[] k, Object x, long lo, long hi) {
    Key key = new Key(op, w, a, k, x);
    Term t = table.get(key);
    if (t == null) {
      t = new Term(op, w, a, k, x, next++, lo, hi, key.h);
      table.put(key, t);
    }
    return t;
  }

  private Term mk(Op op, int w, Term... a) {
    return mk(op, w, a, null, null, min(w), max(w));
  }

  public static long min(int w) {
    return w == 0 ? 0 : w == 64 ? Long.MIN_VALUE : -(1L << (w - 1));
  }

  public static long max(int w) {
    return w == 0 ? 0 : w == 64 ? Long.MAX_VALUE : (1L << (w - 1)) - 1;
  }

  static long norm(int w, long v) {
    return w == 64 ? v : (v << (64 - w)) >> (64 - w);
  }

  public Term cst(int w, long v) {
    v = norm(w, v);
    return mk(Op.CONST, w, NO, new long[] {v}, null, v, v);
  }

  public Term var(String name, int w, long lo, long hi) {
    // the range is part of the identity: another path may use the name with other bounds
    Term t = mk(Op.VAR, w, NO, new long[] {lo, hi}, name, lo, hi);
    return t;
  }

  public Term bool(boolean b) {
    return b ? T : F;
  }

  // ---------------------------------------------------------------- linear
  private Term linOf(int w, long c, LinkedHashMap<Term, Long> m) {
    c = norm(w, c);
    m.values().removeIf(v -> v == 0L);
    if (m.size() >= 2 && m.size() <= 8) digitize(w, m);
    if (m.isEmpty()) return cst(w, c);
    if (c == 0 && m.size() == 1) {
      Map.Entry<Term, Long> e = m.entrySet().iterator().next();
      if (e.getValue() == 1L) return e.getKey();
    }
    Term[] ts = m.keySet().toArray(NO);
    Arrays.sort(ts, Comparator.comparingInt(t -> t.id));
    long[] k = new long[ts.length + 1];
    k[0] = c;
    for (int i = 0; i < ts.length; i++) k[i + 1] = m.get(ts[i]);
    long lo, hi;
    try {
      lo = c;
      hi = c;
      if (ts.length == 2) {
        long md = modulus(ts[0], k[1], ts[1], k[2]), cf = k[1];
        if (md == 0) {
          md = modulus(ts[1], k[2], ts[0], k[1]);
          cf = k[2];
        }
        if (md > 0) {
          long x = Math.multiplyExact(cf, md - 1);
          lo = Math.addExact(lo, Math.min(x, 0));
          hi = Math.addExact(hi, Math.max(x, 0));
          if (lo >= min(w) && hi <= max(w)) return mk(Op.LIN, w, ts, k, null, lo, hi);
          lo = hi = c;
        }
      }
      for (int i = 0; i < ts.length; i++) {
        long x = Math.multiplyExact(k[i + 1], ts[i].lo), y = Math.multiplyExact(k[i + 1], ts[i].hi);
        lo = Math.addExact(lo, Math.min(x, y));
        hi = Math.addExact(hi, Math.max(x, y));
      }
      if (lo < min(w) || hi > max(w)) {
        lo = min(w);
        hi = max(w);
      }
    } catch (ArithmeticException e) {
      lo = min(w);
      hi = max(w);
    }
    return mk(Op.LIN, w, ts, k, null, lo, hi);
  }

  /** the dividend of a quotient by a positive constant (or the term itself), looking through L2I; null if it may be negative. */
  private static Term dividend(Term t) {
    if (t.op == Op.L2I) t = t.a[0];
    if (t.op == Op.SDIV && t.a[1].isConst() && t.a[1].val() > 0) t = t.a[0];
    return t.lo >= 0 ? t : null;
  }

  private static long divisor(Term t) {
    if (t.op == Op.L2I) t = t.a[0];
    return t.op == Op.SDIV && t.a[1].isConst() && t.a[1].val() > 0 && t.a[0].lo >= 0 ? t.a[1].val() : 1;
  }

  /** m if ca*a + cb*b is ca*(a mod m), i.e. b = a / m and cb = -m*ca; else 0. */
  private static long modulus(Term a, long ca, Term b, long cb) {
    if (ca == 0 || cb % ca != 0) return 0;
    long m = -(cb / ca);
    if (m <= 1 || m > 1L << 31) return 0;
    if (b.op != Op.SDIV && !(b.op == Op.L2I && b.a[0].op == Op.SDIV)) return 0;
    if ((a.op == Op.L2I) != (b.op == Op.L2I)) return 0;
    if (a.op == Op.L2I && m > Integer.MAX_VALUE) return 0;
    Term x = dividend(b);
    if (x == null || dividend(a) != x) return 0;
    long da = divisor(a), db = divisor(b);
    return db % da == 0 && db / da == m ? m : 0;
  }

  private static int log10(long d) {
    for (int i = 0; i < 19; i++) if (P10[i] == d) return i;
    return -1;
  }

  /** canonical decimal digits: c*(x/10^k) - 10c*(x/10^(k+1)) is c times digit k of x, and back when they recombine. */
  private void digitize(int w, LinkedHashMap<Term, Long> m) {
    boolean again = true;
    while (again && m.size() >= 2) {
      again = false;
      search:
      for (Term b : m.keySet()) {
        boolean q = b.op == Op.SDIV || b.op == Op.L2I && b.a[0].op == Op.SDIV;
        if (!q) continue;
        Term x = dividend(b);
        int kb = x == null ? -1 : log10(divisor(b));
        if (kb <= 0) continue;
        long cb = m.get(b);
        for (Term a : m.keySet()) {
          if (a == b) continue;
          long ca = m.get(a);
          if (cb == -10 * ca && modulus(a, ca, b, cb) == 10) {
            m.remove(a);
            m.remove(b);
            Term d = dig(x, kb - 1);
            if (w == 64) d = i2l(d);
            addLin(m, w, d, ca); // a constant digit can only be 0
            again = true;
            break search;
          }
        }
      }
    }
    m.values().removeIf(v -> v == 0L);
  }

  private long addLin(LinkedHashMap<Term, Long> m, int w, Term t, long coef) {
    if (t.op == Op.CONST) return t.k[0] * coef;
    if (t.op == Op.LIN) {
      for (int i = 0; i < t.a.length; i++) m.put(t.a[i], norm(w, m.getOrDefault(t.a[i], 0L) + t.k[i + 1] * coef));
      return t.k[0] * coef;
    }
    m.put(t, norm(w, m.getOrDefault(t, 0L) + coef));
    return 0;
  }

  public Term lin(int w, Term a, long ca, Term b, long cb, long c) {
    LinkedHashMap<Term, Long> m = new LinkedHashMap<>();
    c += addLin(m, w, a, ca);
    if (b != null) c += addLin(m, w, b, cb);
    return linOf(w, c, m);
  }

  public Term add(Term a, Term b) {
    if (a.isConst() && b.isConst()) return cst(a.w, a.val() + b.val());
    return lin(a.w, a, 1, b, 1, 0);
  }

  public Term sub(Term a, Term b) {
    if (a.isConst() && b.isConst()) return cst(a.w, a.val() - b.val());
    return lin(a.w, a, 1, b, -1, 0);
  }

  public Term neg(Term a) {
    return lin(a.w, a, -1, null, 0, 0);
  }

  public Term mulc(Term a, long c) {
    return lin(a.w, a, norm(a.w, c), null, 0, 0);
  }

  public Term mul(Term a, Term b) {
    if (a.isConst()) return mulc(b, a.val());
    if (b.isConst()) return mulc(a, b.val());
    if (a.id > b.id) {
      Term t = a;
      a = b;
      b = t;
    }
    long[] iv = mulIv(a.w, a, b);
    return mk(Op.MUL, a.w, new Term[] {a, b}, null, null, iv[0], iv[1]);
  }

  private long[] mulIv(int w, Term a, Term b) {
    try {
      long p1 = Math.multiplyExact(a.lo, b.lo), p2 = Math.multiplyExact(a.lo, b.hi);
      long p3 = Math.multiplyExact(a.hi, b.lo), p4 = Math.multiplyExact(a.hi, b.hi);
      long lo = Math.min(Math.min(p1, p2), Math.min(p3, p4)), hi = Math.max(Math.max(p1, p2), Math.max(p3, p4));
      if (lo >= min(w) && hi <= max(w)) return new long[] {lo, hi};
    } catch (ArithmeticException ignored) {
    }
    return new long[] {min(w), max(w)};
  }

  public Term mulh(Term a, Term b) {
    if (a.isConst() && b.isConst()) return cst(64, Math.multiplyHigh(a.val(), b.val()));
    if (a.isConst() && a.val() == 0 || b.isConst() && b.val() == 0) return cst(64, 0);
    if (a.id > b.id) {
      Term t = a;
      a = b;
      b = t;
    }
    long h1 = Math.multiplyHigh(a.lo, b.lo), h2 = Math.multiplyHigh(a.lo, b.hi);
    long h3 = Math.multiplyHigh(a.hi, b.lo), h4 = Math.multiplyHigh(a.hi, b.hi);
    return mk(Op.MULH, 64, new Term[] {a, b}, null, null,
        Math.min(Math.min(h1, h2), Math.min(h3, h4)), Math.max(Math.max(h1, h2), Math.max(h3, h4)));
  }

  /** signed division; caller guarantees b != 0. */
  public Term sdiv(Term a, Term b) {
    if (a.isConst() && b.isConst()) return cst(a.w, a.val() / b.val());
    if (b.isConst()) {
      long c = b.val();
      if (c == 1) return a;
      if (c > 0) {
        if (a.lo / c == a.hi / c) return cst(a.w, a.lo / c);
        if (a.op == Op.LIN && a.a.length <= 3) {
          Term q = exactQuotient(a, c);
          if (q != null) return q;
        }
        // nested division of non-negatives by constants
        if (a.lo >= 0 && a.op == Op.SDIV && a.a[1].isConst() && a.a[1].val() > 0 && a.a[0].lo >= 0) {
          long c2 = a.a[1].val();
          long hi = Math.multiplyHigh(c, c2);
          if (hi == 0 && c * c2 > 0 && (a.w == 64 || c * c2 <= max(a.w))) return sdiv(a.a[0], cst(a.w, c * c2));
        }
        // (x mod m) / c with c | m is (x / c) mod (m / c)
        if (a.op == Op.LIN && a.a.length == 2 && a.k[0] == 0) {
          int i = a.k[1] == 1 && modulus(a.a[0], 1, a.a[1], a.k[2]) % c == 0 && modulus(a.a[0], 1, a.a[1], a.k[2]) > 0 ? 0
              : a.k[2] == 1 && modulus(a.a[1], 1, a.a[0], a.k[1]) % c == 0 && modulus(a.a[1], 1, a.a[0], a.k[1]) > 0 ? 1 : -1;
          if (i >= 0 && a.a[i].op != Op.L2I) {
            long md = -a.k[2 - i];
            if (md == c) return cst(a.w, 0);
            return lin(a.w, sdiv(a.a[i], b), 1, a.a[1 - i], -(md / c), 0);
          }
        }
        return mk(Op.SDIV, a.w, new Term[] {a, b}, null, null, a.lo / c, a.hi / c);
      }
    }
    if (a.lo >= 0 && b.lo > 0) return mk(Op.SDIV, a.w, new Term[] {a, b}, null, null, a.lo / b.hi, a.hi / b.lo);
    return mk(Op.SDIV, a.w, a, b);
  }

  /** the linear term divided by c if every coefficient is a multiple of c and nothing overflows, else null */
  private Term exactQuotient(Term a, long c) {
    long lo = a.k[0], hi = a.k[0];
    for (long k : a.k) if (k % c != 0) return null;
    try {
      for (int i = 0; i < a.a.length; i++) {
        long x = Math.multiplyExact(a.k[i + 1], a.a[i].lo), y = Math.multiplyExact(a.k[i + 1], a.a[i].hi);
        lo = Math.addExact(lo, Math.min(x, y));
        hi = Math.addExact(hi, Math.max(x, y));
      }
    } catch (ArithmeticException e) {
      return null;
    }
    if (lo < min(a.w) || hi > max(a.w)) return null;
    Term r = cst(a.w, a.k[0] / c);
    for (int i = 0; i < a.a.length; i++) r = lin(a.w, r, 1, a.a[i], a.k[i + 1] / c, 0);
    return r;
  }

  public Term srem(Term a, Term b) {
    if (a.isConst() && b.isConst()) return cst(a.w, a.val() % b.val());
    if (b.isConst() && b.val() > 0) {
      long c = b.val();
      if (a.lo >= 0 && a.hi < c) return a;
      // canonicalise x % c as x - (x / c) * c
      return lin(a.w, a, 1, sdiv(a, b), -c, 0);
    }
    return mk(Op.SREM, a.w, a, b);
  }

  public Term udiv(Term a, Term b) {
    if (a.isConst() && b.isConst()) {
      if (a.w == 64) return cst(64, Long.divideUnsigned(a.val(), b.val()));
      return cst(a.w, Integer.toUnsignedLong((int) a.val()) / Integer.toUnsignedLong((int) b.val()));
    }
    if (a.lo >= 0 && b.lo > 0) return sdiv(a, b);
    return mk(Op.UDIV, a.w, a, b);
  }

  public Term urem(Term a, Term b) {
    if (a.isConst() && b.isConst()) {
      if (a.w == 64) return cst(64, Long.remainderUnsigned(a.val(), b.val()));
      return cst(a.w, Integer.toUnsignedLong((int) a.val()) % Integer.toUnsignedLong((int) b.val()));
    }
    if (a.lo >= 0 && b.lo > 0) return srem(a, b);
    return mk(Op.UREM, a.w, a, b);
  }

  // shift amounts: same width as a, already masked to [0, w)
  public Term shl(Term a, Term b) {
    if (b.isConst()) {
      long s = b.val();
      if (s == 0) return a;
      return mulc(a, 1L << s);
    }
    return mk(Op.SHL, a.w, a, b);
  }

  public Term lshr(Term a, Term b) {
    if (b.isConst()) {
      int s = (int) b.val();
      if (s == 0) return a;
      if (a.isConst()) return cst(a.w, (a.w == 64 ? a.val() : a.val() & 0xFFFFFFFFL) >>> s);
      if (a.op == Op.LSHR && a.a[1].isConst()) {
        long s2 = s + a.a[1].val();
        return s2 >= a.w ? cst(a.w, 0) : lshr(a.a[0], cst(a.w, s2));
      }
      if (a.lo >= 0) {
        if (a.hi >> s == a.lo >> s) return cst(a.w, a.lo >> s);
        return mk(Op.LSHR, a.w, new Term[] {a, b}, null, null, a.lo >> s, a.hi >> s);
      }
      return mk(Op.LSHR, a.w, new Term[] {a, b}, null, null, 0, a.w == 64 ? -1L >>> s : 0xFFFFFFFFL >>> s);
    }
    if (a.isConst() && a.val() == 0) return a;
    if (a.lo >= 0) return mk(Op.LSHR, a.w, new Term[] {a, b}, null, null, 0, a.hi);
    return mk(Op.LSHR, a.w, a, b);
  }

  public Term ashr(Term a, Term b) {
    if (a.lo >= 0) return lshr(a, b);
    if (b.isConst()) {
      int s = (int) b.val();
      if (s == 0) return a;
      if (a.isConst()) return cst(a.w, a.val() >> s);
      return mk(Op.ASHR, a.w, new Term[] {a, b}, null, null, a.lo >> s, a.hi >> s);
    }
    return mk(Op.ASHR, a.w, new Term[] {a, b}, null, null, Math.min(a.lo, 0), Math.max(a.hi, 0));
  }

  private static boolean isBoolIte(Term t) {
    return t.op == Op.ITE && t.a[1].isConst() && t.a[2].isConst() && t.a[1].val() == 1 && t.a[2].val() == 0;
  }

  private Term asBool(Term t) {
    if (t.isConst() && (t.val() == 0 || t.val() == 1)) return bool(t.val() == 1);
    if (isBoolIte(t)) return t.a[0];
    return null;
  }

  public Term b2i(Term b) {
    return ite(b, cst(32, 1), cst(32, 0));
  }

  public Term and(Term a, Term b) {
    if (a.isConst() && b.isConst()) return cst(a.w, a.val() & b.val());
    if (a == b) return a;
    if (a.isConst()) {
      Term t = a;
      a = b;
      b = t;
    }
    if (b.isConst()) {
      long m = b.val();
      if (m == 0) return b;
      if (m == -1) return a;
      if (m > 0 && ((m + 1) & m) == 0 && a.lo >= 0 && a.hi <= m) return a;
      if (m == max(a.w) && a.op == Op.LIN && a.k[0] == min(a.w)) return and(lin(a.w, a, 1, null, 0, min(a.w)), b);
      if (a.op == Op.AND && a.a[1].isConst()) return and(a.a[0], cst(a.w, m & a.a[1].val()));
      if (m > 0 && ((m + 1) & m) == 0 && a.op == Op.LIN && a.k[0] != 0 && (a.k[0] & m) == 0) return and(lin(a.w, a, 1, null, 0, -a.k[0]), b);
      // (x << s) & ~0.. handled by solver
      if (m > 0) return mk(Op.AND, a.w, new Term[] {a, b}, null, null, 0, a.lo >= 0 ? Math.min(a.hi, m) : m);
      if (a.lo >= 0) return mk(Op.AND, a.w, new Term[] {a, b}, null, null, 0, a.hi);
      return mk(Op.AND, a.w, a, b);
    }
    Term x = asBool(a), y = asBool(b);
    if (x != null && y != null) return ite(band(x, y), cst(a.w, 1), cst(a.w, 0));
    if (a.id > b.id) {
      Term t = a;
      a = b;
      b = t;
    }
    if (a.lo >= 0 || b.lo >= 0) {
      long hi = a.lo >= 0 && b.lo >= 0 ? Math.min(a.hi, b.hi) : a.lo >= 0 ? a.hi : b.hi;
      return mk(Op.AND, a.w, new Term[] {a, b}, null, null, 0, hi);
    }
    return mk(Op.AND, a.w, a, b);
  }

  private static long fillOnes(long v) {
    return v <= 0 ? 0 : (Long.highestOneBit(v) << 1) - 1;
  }

  public Term or(Term a, Term b) {
    if (a.isConst() && b.isConst()) return cst(a.w, a.val() | b.val());
    if (a == b) return a;
    if (a.isConst()) {
      Term t = a;
      a = b;
      b = t;
    }
    if (b.isConst()) {
      if (b.val() == 0) return a;
      if (b.val() == -1) return b;
      // c a power of two above a's range: a | c == a + c
      long c = b.val();
      if (a.lo >= 0 && c > 0 && (c & fillOnes(a.hi)) == 0) return add(a, b);
    }
    Term x = asBool(a), y = asBool(b);
    if (x != null && y != null) return ite(bor(x, y), cst(a.w, 1), cst(a.w, 0));
    if (!b.isConst() && a.id > b.id) {
      Term t = a;
      a = b;
      b = t;
    }
    if (a.lo >= 0 && b.lo >= 0)
      return mk(Op.OR, a.w, new Term[] {a, b}, null, null, Math.max(a.lo, b.lo), Math.min(fillOnes(a.hi) | fillOnes(b.hi), a.hi > max(a.w) - b.hi ? max(a.w) : a.hi + b.hi));
    return mk(Op.OR, a.w, a, b);
  }

  public Term xor(Term a, Term b) {
    if (a.isConst() && b.isConst()) return cst(a.w, a.val() ^ b.val());
    if (a == b) return cst(a.w, 0);
    if (a.isConst()) {
      Term t = a;
      a = b;
      b = t;
    }
    if (b.isConst()) {
      if (b.val() == 0) return a;
      if (b.val() == -1) return lin(a.w, a, -1, null, 0, -1);
      if (b.val() == min(a.w)) return lin(a.w, a, 1, null, 0, min(a.w));
    }
    Term x = asBool(a), y = asBool(b);
    if (x != null && y != null) return ite(bor(band(x, not(y)), band(not(x), y)), cst(a.w, 1), cst(a.w, 0));
    if (!b.isConst() && a.id > b.id) {
      Term t = a;
      a = b;
      b = t;
    }
    if (a.lo >= 0 && b.lo >= 0)
      return mk(Op.XOR, a.w, new Term[] {a, b}, null, null, 0, fillOnes(a.hi) | fillOnes(b.hi));
    return mk(Op.XOR, a.w, a, b);
  }

  /** sign-extend the low n bits within the same width. */
  public Term sx(Term a, int n) {
    if (a.isConst()) return cst(a.w, norm(n, a.val()));
    if (a.lo >= min(n) && a.hi <= max(n)) return a;
    return mk(Op.SX, a.w, new Term[] {a}, new long[] {n}, null, min(n), max(n));
  }

  public Term zx(Term a, int n) {
    return and(a, cst(a.w, (1L << n) - 1));
  }

  public Term l2i(Term a) {
    if (a.isConst()) return cst(32, a.val());
    if (a.op == Op.I2L) return a.a[0];
    if (a.op == Op.LIN) {
      LinkedHashMap<Term, Long> m = new LinkedHashMap<>();
      long c = a.k[0];
      for (int i = 0; i < a.a.length; i++) c += addLin(m, 32, l2i(a.a[i]), norm(32, a.k[i + 1]));
      Term r = linOf(32, c, m);
      return r;
    }
    if (a.op == Op.ITE && (a.a[1].isConst() || a.a[2].isConst())) return ite(a.a[0], l2i(a.a[1]), l2i(a.a[2]));
    if (a.op == Op.AND && a.a[1].isConst() && a.a[1].val() == 0xFFFFFFFFL) return l2i(a.a[0]);
    boolean in = a.lo >= Integer.MIN_VALUE && a.hi <= Integer.MAX_VALUE;
    return mk(Op.L2I, 32, new Term[] {a}, null, null, in ? a.lo : Integer.MIN_VALUE, in ? a.hi : Integer.MAX_VALUE);
  }

  public Term i2l(Term a) {
    if (a.isConst()) return cst(64, a.val());
    if (a.op == Op.L2I && a.a[0].lo >= Integer.MIN_VALUE && a.a[0].hi <= Integer.MAX_VALUE) return a.a[0];
    if (a.op == Op.LIN && (a.lo > Integer.MIN_VALUE || a.hi < Integer.MAX_VALUE)) {
      LinkedHashMap<Term, Long> m = new LinkedHashMap<>();
      long c = a.k[0];
      for (int i = 0; i < a.a.length; i++) c += addLin(m, 64, i2l(a.a[i]), a.k[i + 1]);
      return linOf(64, c, m);
    }
    if (a.op == Op.ITE && (a.a[1].isConst() || a.a[2].isConst())) return ite(a.a[0], i2l(a.a[1]), i2l(a.a[2]));
    return mk(Op.I2L, 64, new Term[] {a}, null, null, a.lo, a.hi);
  }

  public Term nlz(Term a) {
    if (a.isConst()) return cst(32, a.w == 64 ? Long.numberOfLeadingZeros(a.val()) : Integer.numberOfLeadingZeros((int) a.val()));
    if (a.lo < 0) return mk(Op.NLZ, 32, new Term[] {a}, null, null, 0, a.w);
    long lo = Long.numberOfLeadingZeros(a.hi) + a.w - 64, hi = Long.numberOfLeadingZeros(a.lo) + a.w - 64;
    return lo == hi ? cst(32, lo) : mk(Op.NLZ, 32, new Term[] {a}, null, null, lo, hi);
  }

  public static final long[] P10 = new long[19];

  static {
    P10[0] = 1;
    for (int i = 1; i < 19; i++) P10[i] = P10[i - 1] * 10;
  }

  /** i-th decimal digit of the unsigned 64-bit value. */
  public Term dig(Term v, int i) {
    if (v.w == 32) v = i2l(v);
    if (v.isConst()) {
      long q = i < 19 ? Long.divideUnsigned(v.val(), P10[i]) : i == 19 ? Long.divideUnsigned(Long.divideUnsigned(v.val(), P10[18]), 10) : 0;
      return cst(32, Long.remainderUnsigned(q, 10));
    }
    if (v.lo >= 0 && i < 19 && v.hi < P10[i]) return cst(32, 0);
    if (i == 0 && v.lo >= 0 && v.hi <= 9) return l2i(v);
    if (v.op == Op.SDIV && v.a[1].isConst() && v.a[0].lo >= 0) {
      int k = log10(v.a[1].val());
      if (k > 0) return dig(v.a[0], i + k);
    }
    return mk(Op.DIG, 32, new Term[] {v}, new long[] {i}, null, 0, 9);
  }

  public long[] internTable(long[] t) {
    Key k = new Key(null, 0, NO, t, null);
    long[] r = tables.get(k);
    if (r == null) {
      tables.put(k, t);
      r = t;
    }
    return r;
  }

  public Term select(int w, long[] tab, Term idx) {
    if (idx.isConst()) return cst(w, tab[(int) idx.val()]);
    int lo = (int) Math.max(0, idx.lo), hi = (int) Math.min(tab.length - 1, idx.hi);
    long mn = Long.MAX_VALUE, mx = Long.MIN_VALUE;
    boolean affine = true;
    long d = hi > lo ? tab[lo + 1] - tab[lo] : 0;
    for (int i = lo; i <= hi; i++) {
      mn = Math.min(mn, tab[i]);
      mx = Math.max(mx, tab[i]);
      if (i > lo && tab[i] - tab[i - 1] != d) affine = false;
    }
    if (affine && d <= max(32) && d >= min(32)) {
      Term i = w == 64 ? i2l(idx) : idx;
      return lin(w, i, d, null, 0, tab[lo] - d * lo);
    }
    return mk(Op.SELECT, w, new Term[] {idx}, null, internTable(tab), mn, mx);
  }

  private static final Term MANY = new Term(Op.CONST, 0, NO, null, null, -1, 0, 0, 0), NONE = new Term(Op.CONST, 0, NO, null, null, -2, 0, 0, 0);

  /** the one small table entry a term is a function of; NONE if it is constant */
  private static Term table(Term t, Term found, int depth) {
    if (found == null) found = NONE;
    if (found == MANY || depth == 0) return MANY;
    switch (t.op) {
      case CONST: case TRUE: case FALSE: return found;
      case SELECT:
        if (((long[]) t.x).length > 64) return MANY;
        return found == NONE || found == t ? t : MANY;
      case LIN: case AND: case OR: case XOR: case EQ: case SLT: case BAND: case BOR: case BNOT: case ITE: case I2L: case L2I:
        for (Term a : t.a) found = table(a, found, depth - 1);
        return found;
      default: return MANY;
    }
  }

  private long at(Term t, Term s, long v) {
    if (t == s) return v;
    Term[] a = t.a;
    switch (t.op) {
      case CONST: return t.val();
      case TRUE: return 1;
      case FALSE: return 0;
      case BAND:
        for (Term x : a) if (at(x, s, v) == 0) return 0;
        return 1;
      case BOR:
        for (Term x : a) if (at(x, s, v) != 0) return 1;
        return 0;
      case ITE: return at(a[0], s, v) != 0 ? at(a[1], s, v) : at(a[2], s, v);
      case LIN: {
        long r = t.k[0];
        for (int i = 0; i < a.length; i++) r += t.k[i + 1] * at(a[i], s, v);
        return t.w == 32 ? (int) r : r;
      }
      case AND: return at(a[0], s, v) & at(a[1], s, v);
      case OR: return at(a[0], s, v) | at(a[1], s, v);
      case XOR: return at(a[0], s, v) ^ at(a[1], s, v);
      case EQ: return at(a[0], s, v) == at(a[1], s, v) ? 1 : 0;
      case SLT: return at(a[0], s, v) < at(a[1], s, v) ? 1 : 0;
      case BNOT: return at(a[0], s, v) == 0 ? 1 : 0;
      case I2L: return at(a[0], s, v);
      default: return (int) at(a[0], s, v);
    }
  }

  public Term ite(Term c, Term t, Term e) {
    if (c == T) return t;
    if (c == F) return e;
    if (t == e) return t;
    if (t.w == 0) return bor(band(c, t), band(not(c), e));
    if (c.op == Op.BNOT) return ite(c.a[0], e, t);
    Term s = table(t, null, 6);
    if (s != null && s != MANY) s = table(c, s, 6);
    if (s != null && s != MANY) s = table(e, s, 6);
    if (s != null && s != MANY && s != NONE) {
      // a function of one table entry is another table
      long[] old = (long[]) s.x, tab = new long[old.length];
      for (int i = 0; i < tab.length; i++) tab[i] = at(at(c, s, old[i]) != 0 ? t : e, s, old[i]);
      return select(t.w, internTable(tab), s.a[0]);
    }
    return mk(Op.ITE, t.w, new Term[] {c, t, e}, null, null, Math.min(t.lo, e.lo), Math.max(t.hi, e.hi));
  }

  // ---------------------------------------------------------------- boolean
  public Term not(Term a) {
    if (a == T) return F;
    if (a == F) return T;
    if (a.op == Op.BNOT) return a.a[0];
    return mk(Op.BNOT, 0, a);
  }

  private Term nary(Op op, Term a, Term b) {
    Term unit = op == Op.BAND ? T : F, zero = op == Op.BAND ? F : T;
    if (a == zero || b == zero) return zero;
    if (a == unit) return b;
    if (b == unit) return a;
    if (a == b) return a;
    LinkedHashSet<Term> s = new LinkedHashSet<>();
    if (a.op == op) s.addAll(Arrays.asList(a.a)); else s.add(a);
    if (b.op == op) s.addAll(Arrays.asList(b.a)); else s.add(b);
    for (Term t : s) if (t.op == Op.BNOT && s.contains(t.a[0])) return zero;
    if (s.size() == 1) return s.iterator().next();
    Term[] ts = s.toArray(NO);
    Arrays.sort(ts, Comparator.comparingInt(t -> t.id));
    return mk(op, 0, ts);
  }

  public Term band(Term a, Term b) {
    return nary(Op.BAND, a, b);
  }

  public Term bor(Term a, Term b) {
    return nary(Op.BOR, a, b);
  }

  public Term eq(Term a, Term b) {
    if (a == b) return T;
    if (a.w == 0) return bor(band(a, b), band(not(a), not(b)));
    if (a.w != b.w) throw new IllegalStateException("width " + a + " " + b);
    if (a.hi < b.lo || b.hi < a.lo) return F;
    if (a.isConst()) {
      Term t = a;
      a = b;
      b = t;
    }
    if (b.isConst() && a.op == Op.ITE) {
      Term x = a.a[1], y = a.a[2];
      boolean xc = x.isConst(), yc = y.isConst();
      if (xc && yc) {
        boolean ex = x == b, ey = y == b;
        return ex ? (ey ? T : a.a[0]) : (ey ? not(a.a[0]) : F);
      }
      if (xc) return x == b ? bor(a.a[0], eq(y, b)) : band(not(a.a[0]), eq(y, b));
      if (yc) return y == b ? bor(not(a.a[0]), eq(x, b)) : band(a.a[0], eq(x, b));
    }
    Term d = sub(a, b);
    if (d.isConst()) return bool(d.val() == 0);
    if (d.lo > 0 || d.hi < 0) return F;
    if (d.op == Op.LIN) {
      // move constant right; make leading coefficient positive
      long c = d.k[0];
      Term v = lin(d.w, d, 1, null, 0, -c);
      long lead = v.op == Op.LIN ? v.k[1] : 1;
      if (lead < 0) {
        v = neg(v);
        c = -c;
      }
      Term rhs = cst(d.w, -c);
      if (v.op == Op.LIN && v.a.length == 1 && v.k[0] == 0 && v.w <= 64) {
        // k*x == c with no overflow possible: divide
        long kk = v.k[1];
        if (kk != 1 && kk != -1 && (v.lo > min(v.w) || v.hi < max(v.w))) {
          if (rhs.val() % kk != 0) return F;
          return eq(v.a[0], cst(v.w, rhs.val() / kk));
        }
      }
      if (rhs.val() < v.lo || rhs.val() > v.hi) return F;
      if (v.op == Op.I2L) return eq(v.a[0], cst(32, rhs.val()));
      if (v.op == Op.ITE && (v.a[1].isConst() || v.a[2].isConst())) return eq(v, rhs);
      return mk(Op.EQ, 0, v, rhs);
    }
    Term z = cst(d.w, 0);
    if (d.op == Op.I2L) return eq(d.a[0], cst(32, 0));
    if (d.op == Op.ITE) return eq0(d, z);
    return mk(Op.EQ, 0, d, z);
  }

  private Term eq0(Term d, Term z) {
    Term x = d.a[1], y = d.a[2];
    if (x.isConst() || y.isConst()) return eq(d, z);
    return mk(Op.EQ, 0, d, z);
  }

  /** exact difference a-b if no overflow is possible, else null */
  private Term diffExact(Term a, Term b) {
    try {
      long lo = Math.subtractExact(a.lo, b.hi), hi = Math.subtractExact(a.hi, b.lo);
      if (lo < min(a.w) || hi > max(a.w)) return null;
    } catch (ArithmeticException e) {
      return null;
    }
    return sub(a, b);
  }

  public Term slt(Term a, Term b) {
    if (a == b) return F;
    if (a.hi < b.lo) return T;
    if (a.lo >= b.hi) return F;
    if (b.isConst() && a.op == Op.ITE && (a.a[1].isConst() || a.a[2].isConst()))
      return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b));
    if (a.isConst() && b.op == Op.ITE && (b.a[1].isConst() || b.a[2].isConst()))
      return ite(b.a[0], slt(a, b.a[1]), slt(a, b.a[2]));
    if (!(b.isConst() && a.op != Op.LIN)) {
      Term d = diffExact(a, b);
      if (d != null) {
        // d < 0
        if (d.isConst()) return bool(d.val() < 0);
        if (d.hi < 0) return T;
        if (d.lo >= 0) return F;
        if (d.op == Op.LIN) {
          long c = d.k[0];
          if (c != Long.MIN_VALUE) {
            Term v = lin(d.w, d, 1, null, 0, -c); // v < -c
            boolean noOvf = v.lo > min(v.w) || v.hi < max(v.w) || v.op != Op.LIN;
            if (noOvf && -c >= min(d.w) && -c <= max(d.w)) {
              long rhs = -c;
              if (v.op == Op.LIN && v.a.length == 1) {
                long kk = v.k[1];
                Term x = v.a[0];
                if (kk > 0) { // x < ceil(rhs/kk)
                  return lessConst(x, -Math.floorDiv(-rhs, kk));
                } else if (kk != Long.MIN_VALUE) { // kk*x < rhs, kk<0  =>  x > rhs/kk  => x > floor(rhs/kk)... exact: x > rhs/kk
                  long p = -kk; // -p*x < rhs => x > -rhs/p => x >= floor(-rhs/p)+1
                  return not(lessConst(x, Math.floorDiv(-rhs, p) + 1));
                }
              }
              if (v.op == Op.LIN && v.k[1] < 0) { // normalise sign: v < rhs <=> -rhs < -v <=> !(-v < -rhs+1)
                Term nv = neg(v);
                if ((nv.lo > min(v.w) || nv.hi < max(v.w)) && -rhs + 1 <= max(v.w)) return not(lessConst(nv, -rhs + 1));
              }
              return lessConst(v, rhs);
            }
          }
        }
        return lessConst(d, 0);
      }
    }
    if (b.isConst()) return lessConst(a, b.val());
    if (a.isConst() && a.val() < max(a.w)) return not(lessConst(b, a.val() + 1));
    return mk(Op.SLT, 0, a, b);
  }

  private Term lessConst(Term x, long c) {
    if (x.hi < c) return T;
    if (x.lo >= c) return F;
    if (x.op == Op.I2L) return lessConst(x.a[0], c);
    if (x.op == Op.L2I && x.a[0].lo >= Integer.MIN_VALUE && x.a[0].hi <= Integer.MAX_VALUE) return lessConst(x.a[0], c);
    if (x.op == Op.ITE && x.a[1].isConst() && x.a[2].isConst())
      return ite(x.a[0], bool(x.a[1].val() < c), bool(x.a[2].val() < c));
    return mk(Op.SLT, 0, x, cst(x.w, c));
  }

  public Term sle(Term a, Term b) {
    return not(slt(b, a));
  }

  public Term ult(Term a, Term b) {
    if (a == b) return F;
    if (a.lo >= 0 && b.lo >= 0) return slt(a, b);
    if (a.lo >= 0 && b.hi < 0) return T;
    if (b.lo >= 0 && a.hi < 0) return F;
    if (a.hi < 0 && b.hi < 0) return slt(a, b);
    return mk(Op.ULT, 0, a, b);
  }

  public Term ule(Term a, Term b) {
    return not(ult(b, a));
  }

  public Term uf(String name, int w, long lo, long hi, Term... args) {
    return mk(Op.UF, w, args, null, name, lo, hi);
  }

  // ---------------------------------------------------------------- fp
  public Term fp(Op op, int w, Term... a) {
    boolean all = true;
    for (Term t : a) all &= t.isConst();
    if (all) {
      long r = evalFp(op, a[0].w, a[0].val(), a.length > 1 ? a[1].val() : 0);
      if (w == 0) return bool(r != 0);
      return cst(w, r);
    }
    if (w == 64 && op == Op.I2D || op == Op.L2D) return mk(op, w, a);
    return mk(op, w, a);
  }

  static long evalFp(Op op, int w, long x, long y) {
    if (w == 64) {
      double a = Double.longBitsToDouble(x), b = Double.longBitsToDouble(y);
      switch (op) {
        case FADD: return Double.doubleToRawLongBits(a + b);
        case FSUB: return Double.doubleToRawLongBits(a - b);
        case FMUL: return Double.doubleToRawLongBits(a * b);
        case FDIV: return Double.doubleToRawLongBits(a / b);
        case FNEG: return Double.doubleToRawLongBits(-a);
        case FLT: return a < b ? 1 : 0;
        case FLE: return a <= b ? 1 : 0;
        case FEQ: return a == b ? 1 : 0;
        case D2F: return Float.floatToRawIntBits((float) a);
        case D2I: return (int) a;
        case D2L: return (long) a;
        case L2F: return Float.floatToRawIntBits((float) x);
        case L2D: return Double.doubleToRawLongBits((double) x);
        default: throw new IllegalStateException(op.toString());
      }
    }
    float a = Float.intBitsToFloat((int) x), b = Float.intBitsToFloat((int) y);
    switch (op) {
      case FADD: return Float.floatToRawIntBits(a + b);
      case FSUB: return Float.floatToRawIntBits(a - b);
      case FMUL: return Float.floatToRawIntBits(a * b);
      case FDIV: return Float.floatToRawIntBits(a / b);
      case FNEG: return Float.floatToRawIntBits(-a);
      case FLT: return a < b ? 1 : 0;
      case FLE: return a <= b ? 1 : 0;
      case FEQ: return a == b ? 1 : 0;
      case F2D: return Double.doubleToRawLongBits((double) a);
      case F2I: return (int) a;
      case F2L: return (long) a;
      case I2F: return Float.floatToRawIntBits((float) (int) x);
      case I2D: return Double.doubleToRawLongBits((double) (int) x);
      default: throw new IllegalStateException(op.toString());
    }
  }

  // ---------------------------------------------------------------- evaluation
  public interface Env {
    long get(Term var);

    default long uf(Term t, long[] args) {
      throw new IllegalStateException("uf " + t.x);
    }
  }

  public static final class Eval {
    final HashMap<Term, Long> memo = new HashMap<>();
    final Env env;

    public Eval(Env env) {
      this.env = env;
    }

    public boolean bool(Term t) {
      return eval(t) != 0;
    }

    public long eval(Term t) {
      switch (t.op) {
        case CONST: return t.k[0];
        case TRUE: return 1;
        case FALSE: return 0;
        default:
      }
      Long m = memo.get(t);
      if (m != null) return m;
      long r = eval0(t);
      if (t.w > 0) r = norm(t.w, r);
      memo.put(t, r);
      return r;
    }

    private long eval0(Term t) {
      Term[] a = t.a;
      switch (t.op) {
        case VAR: return env.get(t);
        case LIN: {
          long s = t.k[0];
          for (int i = 0; i < a.length; i++) s += t.k[i + 1] * eval(a[i]);
          return s;
        }
        case ITE: return eval(a[0]) != 0 ? eval(a[1]) : eval(a[2]);
        case BAND:
          for (Term x : a) if (eval(x) == 0) return 0;
          return 1;
        case BOR:
          for (Term x : a) if (eval(x) != 0) return 1;
          return 0;
        case UF: {
          long[] v = new long[a.length];
          for (int i = 0; i < v.length; i++) v[i] = eval(a[i]);
          return env.uf(t, v);
        }
        default:
      }
      long x = eval(a[0]), y = a.length > 1 ? eval(a[1]) : 0;
      int w = t.op == Op.EQ || t.op == Op.SLT || t.op == Op.ULT ? a[0].w : t.w;
      switch (t.op) {
        case MUL: return x * y;
        case MULH: return Math.multiplyHigh(x, y);
        case SDIV: return y == 0 ? 0 : x / y;
        case SREM: return y == 0 ? 0 : x % y;
        case UDIV: return y == 0 ? 0 : w == 64 ? Long.divideUnsigned(x, y) : (x & 0xFFFFFFFFL) / (y & 0xFFFFFFFFL);
        case UREM: return y == 0 ? 0 : w == 64 ? Long.remainderUnsigned(x, y) : (x & 0xFFFFFFFFL) % (y & 0xFFFFFFFFL);
        case SHL: return x << y;
        case LSHR: return (w == 64 ? x : x & 0xFFFFFFFFL) >>> y;
        case ASHR: return x >> y;
        case AND: return x & y;
        case OR: return x | y;
        case XOR: return x ^ y;
        case SX: return norm((int) t.k[0], x);
        case L2I: return (int) x;
        case I2L: return x;
        case NLZ: return a[0].w == 64 ? Long.numberOfLeadingZeros(x) : Integer.numberOfLeadingZeros((int) x);
        case DIG: {
          int i = (int) t.k[0];
          long q = i < 19 ? Long.divideUnsigned(x, P10[i]) : i == 19 ? Long.divideUnsigned(Long.divideUnsigned(x, P10[18]), 10) : 0;
          return Long.remainderUnsigned(q, 10);
        }
        case SELECT: {
          long[] tab = (long[]) t.x;
          return x >= 0 && x < tab.length ? tab[(int) x] : 0;
        }
        case EQ: return x == y ? 1 : 0;
        case SLT: return x < y ? 1 : 0;
        case ULT: return Long.compareUnsigned(x, y) < 0 ? 1 : 0;
        case BNOT: return x == 0 ? 1 : 0;
        default: return evalFp(t.op, a[0].w, x, y);
      }
    }
  }
}
