package symx;

import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;
import symx.Term.Op;

/** Symbolic interpreter for JVM bytecode; explores one path per run following a decision prefix. */
final class Engine {
  final TF tf = new TF();
  final Solver solver;
  final ClassRepo repo;
  /** runtime capability set: "jdk21" or "jdk8" */
  final String mode;
  final HashMap<String, Klass> classes = new HashMap<>();
  final HashMap<String, Native> natives = new HashMap<>();
  final HashMap<String, Obj> interned = new HashMap<>();
  Explorer explorer;

  // ------------------------------------------------------------ path state
  ArrayList<Term> pc = new ArrayList<>();
  HashSet<Term> asserted = new HashSet<>();
  HashMap<Term, long[]> iv = new HashMap<>();
  int[] prefix = new int[0];
  int pos;
  IntList log = new IntList();
  HashMap<String, Long> witness = new HashMap<>();
  boolean witnessOk = true;
  TF.Eval ev;
  LinkedHashMap<String, Object> inputs = new LinkedHashMap<>();
  HashMap<String, Integer> names = new HashMap<>();
  ArrayList<Object> outs = new ArrayList<>();
  ArrayList<String> covers = new ArrayList<>();
  HashMap<Object, Object> threadLocalMap = new HashMap<>();
  int thread;
  HashMap<Term, Term[]> decimals = new HashMap<>();
  /** fractions of the doubles nearest to integers */
  HashMap<Term, Term> doubles = new HashMap<>();
  ArrayList<Object[]> journal = new ArrayList<>();
  HashMap<Object, Obj> merges = new HashMap<>();
  /** the shortest decimal of an unknown double is some decimal, the same one each time */
  boolean abstractDecimals;
  /** products are unknown values within their range where only the feasibility of a branch depends on them */
  boolean opaque;
  /** the code running is the reference and has the newer operations */
  boolean reference;
  LinkedHashMap<Object, Rope> opaques = new LinkedHashMap<>();

  int initDepth, depth, maxDepth;
  long steps, maxSteps = 4_000_000, allocs;
  long decisions;
  int nextId = 1;
  long shareMark = -1;
  String sharedWrite;
  boolean validate = true;

  // statistics
  long pathsRun, obligations, trivialObligations, totalSteps, forks, undecidedChecks;
  final HashSet<String> repoMethods = new HashSet<>();
  final HashSet<String> repoInsns = new HashSet<>();

  static final class IntList {
    int[] a = new int[64];
    int n;

    void add(int v) {
      if (n == a.length) a = Arrays.copyOf(a, 2 * n);
      a[n++] = v;
    }

    int[] with(int v) {
      int[] r = Arrays.copyOf(a, n + 1);
      r[n] = v;
      return r;
    }
  }

  Engine(ClassRepo repo, String mode, long seed) {
    this.repo = repo;
    this.mode = mode;
    this.solver = new Solver(tf, seed);
    Natives.register(this);
  }

  // ------------------------------------------------------------ path control
  void begin(int[] prefix, Map<String, Long> wit) {
    pc = new ArrayList<>();
    asserted = new HashSet<>();
    iv = new HashMap<>();
    this.prefix = prefix;
    pos = 0;
    log = new IntList();
    witness = wit == null ? new HashMap<>() : new HashMap<>(wit);
    witnessOk = wit != null;
    newEval();
    inputs = new LinkedHashMap<>();
    names = new HashMap<>();
    outs = new ArrayList<>();
    covers = new ArrayList<>();
    threadLocalMap = new HashMap<>();
    thread = 0;
    decimals = new HashMap<>();
    doubles = new HashMap<>();
    merges = new HashMap<>();
    opaques = new LinkedHashMap<>();
    abstractDecimals = false;
    opaque = false;
    solver.timeoutMs = Solver.TIMEOUT_MS;
    reference = false;
    solver.hints.clear();
    depth = 0;
    maxDepth = 0;
    initDepth = 0;
    steps = 0;
    decisions = 0;
    nextId = 1;
    shareMark = -1;
    sharedWrite = null;
    other = null;
    validate = true;
    pathsRun++;
  }

  void end() {
    for (int i = journal.size() - 1; i >= 0; i--) {
      Object[] j = journal.get(i);
      int s = (Integer) j[1];
      if (j[0] instanceof Object[]) ((Object[]) j[0])[s] = j[2];
      else if (s == -1) ((Obj) j[0]).x = j[2];
      else ((Arr) j[0]).e = (Object[]) j[2];
    }
    journal.clear();
    totalSteps += steps;
  }

  void newEval() {
    ev = new TF.Eval(v -> {
      Long x = witness.get((String) v.x);
      return x != null ? x : Solver.dflt(v);
    });
  }

  HashMap<Object, Object> threadLocals() {
    return threadLocalMap;
  }

  boolean inPrefix() {
    return pos < prefix.length;
  }

  String fresh(String n) {
    int k = names.merge(n, 1, Integer::sum);
    return k == 1 ? n : n + "#" + k;
  }

  // ------------------------------------------------------------ intervals
  long[] range(Term t) {
    return range(t, 5);
  }

  private long[] range(Term t, int d) {
    long lo = t.lo, hi = t.hi;
    long[] s = iv.get(t);
    if (s != null) {
      lo = Math.max(lo, s[0]);
      hi = Math.min(hi, s[1]);
    }
    if (d > 0 && lo < hi) {
      switch (t.op) {
        case LIN: {
          if (t.a.length > 6) break;
          try {
            long l = t.k[0], h = t.k[0];
            for (int i = 0; i < t.a.length; i++) {
              long[] r = range(t.a[i], d - 1);
              long x = Math.multiplyExact(t.k[i + 1], r[0]), y = Math.multiplyExact(t.k[i + 1], r[1]);
              l = Math.addExact(l, Math.min(x, y));
              h = Math.addExact(h, Math.max(x, y));
            }
            if (l >= TF.min(t.w) && h <= TF.max(t.w)) {
              lo = Math.max(lo, l);
              hi = Math.min(hi, h);
            }
          } catch (ArithmeticException ignored) {
          }
          break;
        }
        case I2L: {
          long[] r = range(t.a[0], d - 1);
          lo = Math.max(lo, r[0]);
          hi = Math.min(hi, r[1]);
          break;
        }
        case L2I: {
          long[] r = range(t.a[0], d - 1);
          if (r[0] >= Integer.MIN_VALUE && r[1] <= Integer.MAX_VALUE) {
            lo = Math.max(lo, r[0]);
            hi = Math.min(hi, r[1]);
          }
          break;
        }
        case SDIV:
          if (t.a[1].isConst() && t.a[1].val() > 0) {
            long[] r = range(t.a[0], d - 1);
            lo = Math.max(lo, r[0] / t.a[1].val());
            hi = Math.min(hi, r[1] / t.a[1].val());
          }
          break;
        case LSHR:
        case ASHR:
          if (t.a[1].isConst()) {
            long[] r = range(t.a[0], d - 1);
            if (r[0] >= 0 || t.op == Op.ASHR) {
              lo = Math.max(lo, r[0] >> t.a[1].val());
              hi = Math.min(hi, r[1] >> t.a[1].val());
            }
          }
          break;
        case AND:
          if (t.a[1].isConst()) {
            long[] r = range(t.a[0], d - 1);
            if (r[0] >= 0) hi = Math.min(hi, r[1]);
            long m = t.a[1].val();
            if (r[0] >= 0 && m > 0 && (m & (m + 1)) == 0 && r[1] <= m) lo = Math.max(lo, r[0]);
            if (r[1] < 0 && m == TF.max(t.w) && t.w == 64) {
              lo = Math.max(lo, r[0] & m);
              hi = Math.min(hi, r[1] & m);
            }
          }
          break;
        case FDIV:
        case FMUL:
        case FADD:
          // the bits of finite doubles of one sign are ordered like their magnitudes
          if (t.w == 64) {
            long[] r = range(t.a[0], d - 1), q = range(t.a[1], d - 1);
            if (t.op != Op.FADD && (q[0] != q[1] || q[0] <= 0)) break;
            if (!oneSign(r) || !oneSign(q)) break;
            boolean rn = r[0] < 0, qn = q[0] < 0;
            long l = TF.evalFp(t.op, 64, r[rn ? 1 : 0], q[qn ? 1 : 0]), h = TF.evalFp(t.op, 64, r[rn ? 0 : 1], q[qn ? 0 : 1]);
            if (l < 0 && h < 0) {
              long x = l;
              l = h;
              h = x;
            }
            if (l <= h && oneSign(new long[] {l, h})) {
              lo = Math.max(lo, l);
              hi = Math.min(hi, h);
            }
          }
          break;
        case ITE: {
          int q = quick(t.a[0], d - 1);
          if (q == 1) return range(t.a[1], d - 1);
          if (q == 0) return range(t.a[2], d - 1);
          long[] x = range(t.a[1], d - 1), y = range(t.a[2], d - 1);
          lo = Math.max(lo, Math.min(x[0], y[0]));
          hi = Math.min(hi, Math.max(x[1], y[1]));
          break;
        }
        case SELECT: {
          long[] r = range(t.a[0], d - 1);
          long[] tab = (long[]) t.x;
          int a = (int) Math.max(0, r[0]), b = (int) Math.min(tab.length - 1, r[1]);
          if (b - a <= 300) {
            long mn = Long.MAX_VALUE, mx = Long.MIN_VALUE;
            for (int i = a; i <= b; i++) {
              mn = Math.min(mn, tab[i]);
              mx = Math.max(mx, tab[i]);
            }
            if (mn <= mx) {
              lo = Math.max(lo, mn);
              hi = Math.min(hi, mx);
            }
          }
          break;
        }
        default:
      }
    }
    return new long[] {lo, hi};
  }

  /** whether all bit patterns of the range are finite doubles of one sign */
  private static boolean oneSign(long[] r) {
    return r[0] >= 0 && r[1] < 0x7FF0000000000000L || r[1] < 0 && (r[1] & Long.MAX_VALUE) < 0x7FF0000000000000L;
  }

  /** 1 true, 0 false, -1 unknown without the solver */
  int quick(Term c, int d) {
    if (c == tf.T) return 1;
    if (c == tf.F) return 0;
    if (asserted.contains(c)) return 1;
    if (asserted.contains(tf.not(c))) return 0;
    if (d <= 0) return -1;
    switch (c.op) {
      case BNOT: {
        int q = quick(c.a[0], d - 1);
        return q < 0 ? q : 1 - q;
      }
      case BAND: {
        int r = 1;
        for (Term t : c.a) {
          int q = quick(t, d - 1);
          if (q == 0) return 0;
          if (q < 0) r = -1;
        }
        return r;
      }
      case BOR: {
        int r = 0;
        for (Term t : c.a) {
          int q = quick(t, d - 1);
          if (q == 1) return 1;
          if (q < 0) r = -1;
        }
        return r;
      }
      case SLT: {
        long[] x = range(c.a[0], d), y = range(c.a[1], d);
        if (x[1] < y[0]) return 1;
        if (x[0] >= y[1]) return 0;
        return -1;
      }
      case EQ: {
        long[] x = range(c.a[0], d), y = range(c.a[1], d);
        if (x[1] < y[0] || y[1] < x[0]) return 0;
        if (x[0] == x[1] && y[0] == y[1]) return x[0] == y[0] ? 1 : 0;
        return -1;
      }
      default:
        return -1;
    }
  }

  private void note(Term c) {
    if (!asserted.add(c)) return;
    switch (c.op) {
      case BAND:
        for (Term t : c.a) note(t);
        break;
      case SLT:
        if (c.a[1].isConst()) narrow(c.a[0], Long.MIN_VALUE, c.a[1].val() - 1);
        else if (c.a[0].isConst()) narrow(c.a[1], c.a[0].val() + 1, Long.MAX_VALUE);
        break;
      case EQ:
        if (c.a[1].isConst()) narrow(c.a[0], c.a[1].val(), c.a[1].val());
        break;
      case BNOT: {
        Term q = c.a[0];
        if (q.op == Op.BOR) for (Term t : q.a) note(tf.not(t));
        else if (q.op == Op.SLT) {
          if (q.a[1].isConst()) narrow(q.a[0], q.a[1].val(), Long.MAX_VALUE);
          else if (q.a[0].isConst()) narrow(q.a[1], Long.MIN_VALUE, q.a[0].val());
        } else if (q.op == Op.EQ && q.a[1].isConst()) {
          long[] r = range(q.a[0]);
          long v = q.a[1].val();
          if (r[0] == v && v < Long.MAX_VALUE) narrow(q.a[0], v + 1, Long.MAX_VALUE);
          else if (r[1] == v && v > Long.MIN_VALUE) narrow(q.a[0], Long.MIN_VALUE, v - 1);
        }
        break;
      }
      default:
    }
  }

  private void narrow(Term t, long lo, long hi) {
    long[] r = iv.get(t);
    if (r == null) iv.put(t, new long[] {Math.max(lo, t.lo), Math.min(hi, t.hi)});
    else {
      r[0] = Math.max(r[0], lo);
      r[1] = Math.min(r[1], hi);
    }
    // k*x + c with a single atom: propagate to the atom
    if (t.op == Op.LIN && t.a.length == 1 && Math.abs(t.k[1]) == 1 && (t.lo > TF.min(t.w) || t.hi < TF.max(t.w))) {
      long[] q = iv.get(t);
      try {
        long a = Math.subtractExact(q[0], t.k[0]), b = Math.subtractExact(q[1], t.k[0]);
        if (t.k[1] == 1) narrow(t.a[0], a, b);
        else narrow(t.a[0], -b, -a);
      } catch (ArithmeticException ignored) {
      }
    }
    if (t.op == Op.I2L) narrow(t.a[0], lo, hi);
  }

  void assertPc(Term c) {
    pc.add(c);
    note(c);
  }

  // ------------------------------------------------------------ decisions
  private Map<String, Long> overlay(Map<Term, Long> m) {
    HashMap<String, Long> w = new HashMap<>(witness);
    for (Map.Entry<Term, Long> e : m.entrySet()) w.put((String) e.getKey().x, e.getValue());
    return w;
  }

  void ensureWitness() {
    if (witnessOk) return;
    Solver.Res r = solver.checkAll(pc);
    if (r.st == Solver.UNSAT) throw new Infeasible("path condition");
    if (r.st == Solver.UNKNOWN) throw new Unsupported("solver gave no answer for a branch");
    witness = new HashMap<>(overlay(r.model));
    witnessOk = true;
    newEval();
  }

  boolean decide(Term c) {
    int q = quick(c, 6);
    if (q >= 0) return q == 1;
    if (++decisions > 3000) throw new Unsupported("too many decisions");
    if (initDepth > 0) throw new IllegalStateException("symbolic decision in class initialisation");
    if (pos < prefix.length) {
      int v = prefix[pos++];
      log.add(v);
      boolean o = (v & 1) != 0;
      Term a = o ? c : tf.not(c);
      if ((v & 2) != 0) note(a);
      else assertPc(a);
      return o;
    }
    explorer.inTime();
    if (!opaque) ensureWitness();
    boolean side = !witnessOk || ev.bool(c);
    Term a = side ? c : tf.not(c), b = side ? tf.not(c) : c;
    solver.opaque = opaque;
    Solver.Res r = solver.check(pc, b);
    solver.opaque = false;
    int v = side ? 1 : 0;
    if (!witnessOk && r.st != Solver.UNSAT) {
      // a path whose feasibility is open: stay on a side that has a witness if there is one
      solver.opaque = true;
      Solver.Res s = solver.check(pc, a);
      solver.opaque = false;
      if (s.st == Solver.UNSAT) {
        log.add(1 - v | 2);
        note(b);
        return !side;
      }
      if (s.st == Solver.SAT) {
        witness = new HashMap<>(overlay(s.model));
        witnessOk = true;
        newEval();
      }
    }
    if (r.st == Solver.UNSAT) {
      log.add(v | 2);
      note(a);
      return side;
    }
    forks++;
    if (System.getProperty("symx.forks") != null) System.err.println("fork " + pc.size() + " " + witnessOk + " " + c);
    explorer.push(log.with(1 - v), r.st == Solver.SAT ? overlay(r.model) : null);
    log.add(v);
    assertPc(a);
    return side;
  }

  /** explicit n-way case split */
  int choose(String name, int n) {
    String nm = fresh(name);
    int v;
    if (n == 1) v = 0;
    else if (pos < prefix.length) {
      v = prefix[pos++];
      log.add(v);
    } else {
      v = 0;
      for (int i = n - 1; i > 0; i--) explorer.push(log.with(i), witnessOk ? witness : null);
      log.add(0);
    }
    inputs.put(nm, v);
    return v;
  }

  void assume(Term c) {
    int q = quick(c, 6);
    if (q == 1) return;
    if (q == 0) throw new Infeasible("assume");
    if (pos < prefix.length) {
      assertPc(c);
      return;
    }
    ensureWitness();
    if (!ev.bool(c)) {
      Solver.Res r = solver.check(pc, c);
      if (r.st == Solver.UNSAT) throw new Infeasible("assume");
      if (r.st == Solver.UNKNOWN) throw new Unsupported("solver gave no answer for an assumption");
      witness = new HashMap<>(overlay(r.model));
      newEval();
    }
    assertPc(c);
  }

  void check(Term c, String msg) {
    if (pos < prefix.length) {
      note(c);
      return;
    }
    obligations++;
    int q = quick(c, 6);
    if (q == 1) {
      trivialObligations++;
      return;
    }
    if (!opaque) ensureWitness();
    if (witnessOk && (q == 0 || !ev.bool(c))) {
      explorer.violation(this, msg, witness);
      throw new PathEnd("violation");
    }
    Solver.Res r = witnessOk ? solver.check(pc, tf.not(c)) : solver.whole(pc, tf.not(c));
    if (r.st == Solver.SAT) {
      explorer.violation(this, msg, overlay(r.model));
      throw new PathEnd("violation");
    }
    if (r.st == Solver.UNKNOWN) {
      undecidedChecks++;
      explorer.undecided(this, "obligation: " + msg);
      return;
    }
    note(c);
  }

  /** adds the values that no number of leading zeros in t admits */
  private void impossible(Term t, long[] r, Set<Long> out) {
    if (r[1] - r[0] > 20) return;
    Term n = leadingZeros(t, 9);
    if (n == null || n.a[0].w != 64) return;
    Term x = n.a[0];
    long k0 = 0, k1 = 1;
    if (x.op == Op.LIN && x.a.length == 1 && x.k[1] > 0) {
      k0 = x.k[0];
      k1 = x.k[1];
      x = x.a[0];
    }
    long[] rn = range(n), rx = range(x);
    if (rn[0] < 1 || rx[0] < 0) return;
    Set<Long> ok = new HashSet<>();
    long[] on = iv.get(n), ox = iv.get(x);
    for (long z = rn[0]; z <= rn[1]; z++) {
      long lo = z == 64 ? 0 : 1L << 63 - z, hi = z == 64 ? 0 : (lo << 1) - 1;
      lo = Math.max(rx[0], Math.floorDiv(lo - k0 + k1 - 1, k1));
      hi = Math.min(rx[1], Math.floorDiv(hi - k0, k1));
      if (lo > hi) continue;
      iv.put(n, new long[] {z, z});
      iv.put(x, new long[] {lo, hi});
      long[] q = range(t, 14);
      for (long v = q[0]; v <= q[1]; v++) ok.add(v);
    }
    restore(n, on);
    restore(x, ox);
    for (long v = r[0]; v <= r[1]; v++) if (!ok.contains(v)) out.add(v);
  }

  private void restore(Term t, long[] r) {
    if (r == null) iv.remove(t);
    else iv.put(t, r);
  }

  private static Term leadingZeros(Term t, int d) {
    if (t.op == Op.NLZ) return t;
    if (d == 0) return null;
    for (Term a : t.a) {
      Term n = leadingZeros(a, d - 1);
      if (n != null) return n;
    }
    return null;
  }

  int concretize(Object o, String why) {
    if (o instanceof Integer) return (Integer) o;
    Term t = (Term) o;
    Set<Long> tried = new HashSet<>();
    for (int i = 0; i < 400; i++) {
      long[] r = range(t);
      if (r[0] == r[1]) return (int) r[0];
      // without a witness the values are tried in order, and none may remain
      if (opaque && i == 0) impossible(t, r, tried);
      long low = r[0];
      while (low <= r[1] && tried.contains(low)) low++;
      if (low > r[1]) throw new PathEnd("infeasible");
      long v;
      if (pos < prefix.length) {
        // the value tried is recorded in the log before the decision
        v = prefix[pos++];
        log.add((int) v);
      } else {
        if (!opaque) ensureWitness();
        v = witnessOk ? ev.eval(t) : low;
        log.add((int) v);
      }
      tried.add(v);
      if (decide(tf.eq(t, tf.cst(t.w, v)))) return (int) v;
    }
    throw new Unsupported("too many values: " + why);
  }

  // ------------------------------------------------------------ value helpers
  Term t(Object o) {
    if (o instanceof Term) return (Term) o;
    if (o instanceof Integer) return tf.cst(32, (Integer) o);
    if (o instanceof Long) return tf.cst(64, (Long) o);
    if (o instanceof Character) return tf.cst(32, (Character) o);
    if (o instanceof Float) return tf.cst(32, Float.floatToRawIntBits((Float) o));
    if (o instanceof Double) return tf.cst(64, Double.doubleToRawLongBits((Double) o));
    throw new IllegalStateException("not a number: " + o);
  }

  Object I(Term t) {
    return t.isConst() ? (Object) (t.w == 32 ? (Object) (int) t.val() : (Object) t.val()) : t;
  }

  Object D(Term t) {
    if (!t.isConst()) return t;
    return t.w == 64 ? (Object) Double.longBitsToDouble(t.val()) : (Object) Float.intBitsToFloat((int) t.val());
  }

  Object B(Term b) {
    if (b == tf.T) return 1;
    if (b == tf.F) return 0;
    return tf.b2i(b);
  }

  /** truth of a Java boolean value */
  Term truth(Object o) {
    if (o instanceof Integer) return tf.bool((Integer) o != 0);
    return tf.not(tf.eq((Term) o, tf.cst(32, 0)));
  }

  boolean isTrue(Object o) {
    if (o instanceof Integer) return (Integer) o != 0;
    return decide(truth(o));
  }

  Object iadd(Object a, Object b) {
    if (a instanceof Integer && b instanceof Integer) return (Integer) a + (Integer) b;
    return I(tf.add(t(a), t(b)));
  }

  Object isub(Object a, Object b) {
    if (a instanceof Integer && b instanceof Integer) return (Integer) a - (Integer) b;
    return I(tf.sub(t(a), t(b)));
  }

  Term ilt(Object a, Object b) {
    if (a instanceof Integer && b instanceof Integer) return tf.bool((Integer) a < (Integer) b);
    return tf.slt(t(a), t(b));
  }

  Term ile(Object a, Object b) {
    if (a instanceof Integer && b instanceof Integer) return tf.bool((Integer) a <= (Integer) b);
    return tf.sle(t(a), t(b));
  }

  Term ieq(Object a, Object b) {
    if (a instanceof Integer && b instanceof Integer) return tf.bool(((Integer) a).intValue() == (Integer) b);
    return tf.eq(t(a), t(b));
  }

  boolean same(Object a, Object b) {
    return a == b || a != null && a.equals(b);
  }

  /** turns a term whose range is a single value into a constant */
  Object simp(Object o) {
    if (!(o instanceof Term)) return o;
    Term t = (Term) o;
    long[] r = range(t);
    if (r[0] == r[1]) return t.w == 32 ? (Object) (int) r[0] : (Object) r[0];
    return o;
  }

  Object selectInts(Object[] a, Term idx) {
    long[] r = range(idx);
    int lo = (int) Math.max(0, r[0]), hi = (int) Math.min(a.length - 1, r[1]);
    if (lo == hi) return a[lo];
    boolean conc = true, same = true;
    int w = 32;
    for (int i = lo; i <= hi; i++) {
      conc &= !(a[i] instanceof Term);
      same &= same(a[i], a[lo]);
      if (a[i] instanceof Long || a[i] instanceof Term && ((Term) a[i]).w == 64) w = 64;
      if (a[i] instanceof Float || a[i] instanceof Double) throw new Unsupported("symbolic index of floating point array");
    }
    if (same) return a[lo];
    if (conc) {
      long[] tab = new long[hi + 1];
      for (int i = 0; i <= hi; i++) tab[i] = a[i] instanceof Term ? 0 : a[i] instanceof Integer ? (Integer) a[i] : (Long) a[i];
      for (int i = 0; i < lo; i++) tab[i] = tab[lo];
      return I(tf.select(w, tf.internTable(tab), idx));
    }
    if (hi - lo > 40) return a[concretize(idx, "index")];
    Term x = t(a[hi]);
    for (int i = hi - 1; i >= lo; i--) x = tf.ite(tf.eq(idx, tf.cst(32, i)), t(a[i]), x);
    return I(x);
  }

  static boolean wide(Object v) {
    return v instanceof Long || v instanceof Double || v instanceof Term && ((Term) v).w == 64;
  }

  // ------------------------------------------------------------ classes
  Klass klass(String name) {
    Klass k = classes.get(name);
    if (k != null) return k;
    k = load(name);
    if (k == null) throw new Unsupported("class not found: " + name);
    return k;
  }

  Klass klassOrNull(String name) {
    Klass k = classes.get(name);
    return k != null ? k : load(name);
  }

  static final String PRIMS = "ZBCSIJFDV";

  private Klass load(String name) {
    if (name.startsWith("[")) {
      Klass k = new Klass(name);
      String el = name.substring(1);
      k.elem = el.startsWith("[") ? klass(el) : el.startsWith("L") ? klass(el.substring(1, el.length() - 1)) : prim(el);
      k.sup = klass("java/lang/Object");
      k.supers.add(k.sup);
      k.state = 2;
      classes.put(name, k);
      return k;
    }
    ClassNode n = repo.node(name);
    if (n == null) return null;
    Klass k = new Klass(name);
    classes.put(name, k);
    k.node = n;
    k.origin = repo.origin(name);
    k.isInterface = (n.access & Opcodes.ACC_INTERFACE) != 0;
    if (n.superName != null) k.sup = klass(n.superName);
    k.ifs = new Klass[n.interfaces.size()];
    for (int i = 0; i < k.ifs.length; i++) k.ifs[i] = klass(n.interfaces.get(i));
    k.supers.add(k);
    if (k.sup != null) k.supers.addAll(k.sup.supers);
    for (Klass i : k.ifs) k.supers.addAll(i.supers);
    int slot = k.sup == null ? 0 : k.sup.nfields, st = 0;
    ArrayList<Object> defs = new ArrayList<>();
    if (k.sup != null && k.sup.defaults != null) defs.addAll(Arrays.asList(k.sup.defaults));
    ArrayList<Fld> inst = new ArrayList<>();
    if (k.sup != null && k.sup.allInst != null) inst.addAll(Arrays.asList(k.sup.allInst));
    ArrayList<Object> sts = new ArrayList<>();
    for (FieldNode f : n.fields) {
      Fld x = new Fld(k, f.name, f.desc, f.access);
      if (x.isStatic) {
        x.slot = st++;
        Object v = dflt(f.desc);
        if (f.value != null) {
          v = f.value instanceof String ? null : f.value;
          if (f.value instanceof String) v = literal((String) f.value);
        }
        sts.add(v);
      } else {
        x.slot = slot++;
        defs.add(dflt(f.desc));
        inst.add(x);
      }
      k.fields.put(f.name, x);
    }
    k.nfields = slot;
    k.defaults = defs.toArray();
    k.statics = sts.toArray();
    k.allInst = inst.toArray(new Fld[0]);
    for (MethodNode m : n.methods) {
      Meth x = new Meth(k, m);
      x.nat = natives.get(name + "." + x.key);
      k.methods.put(x.key, x);
    }
    return k;
  }

  Klass prim(String d) {
    Klass k = classes.get(d);
    if (k == null) {
      k = new Klass(d);
      k.primitive = true;
      k.state = 2;
      classes.put(d, k);
    }
    return k;
  }

  static Object dflt(String desc) {
    switch (desc.charAt(0)) {
      case 'Z': case 'B': case 'C': case 'S': case 'I': return 0;
      case 'J': return 0L;
      case 'F': return 0f;
      case 'D': return 0d;
      default: return null;
    }
  }

  void init(Klass k) {
    if (k.state != 0) {
      if (k.state == 3) throw new Unsupported("static initialiser of " + k.name + " is not supported");
      return;
    }
    k.state = 1;
    if (k.sup != null) init(k.sup);
    Meth m = k.methods.get("<clinit>()V");
    if (m != null) {
      initDepth++;
      try {
        call(m, new Object[0]);
      } catch (JThrow t) {
        k.state = 3;
        throw new Unsupported("static initialiser of " + k.name + " threw " + describe(t.ex));
      } catch (RuntimeException t) {
        k.state = 3;
        throw t;
      } finally {
        initDepth--;
      }
    }
    k.state = 2;
  }

  Obj mirror(Klass k) {
    if (k.mirror == null) {
      Obj o = new Obj(klass("java/lang/Class"), klass("java/lang/Class").nfields);
      o.x = k;
      o.base = true;
      k.mirror = o;
    }
    return k.mirror;
  }

  // ------------------------------------------------------------ heap
  Obj alloc(Klass k) {
    Obj o = new Obj(k, k.nfields);
    if (k.nfields > 0) System.arraycopy(k.defaults, 0, o.f, 0, k.nfields);
    o.base = initDepth > 0;
    o.owner = nextId++;
    allocs++;
    return o;
  }

  Arr array(String elemDesc, Object len) {
    Klass k = klass("[" + elemDesc);
    len = simp(len);
    if (len instanceof Term) {
      Term t = (Term) len;
      if (decide(tf.slt(t, tf.cst(32, 0)))) throw thr("java/lang/NegativeArraySizeException", null);
      long[] r = range(t);
      if (elemDesc.equals("C") && r[1] - r[0] > 40) {
        Arr a = new Arr(k, null);
        a.x = Rope.run(0, t);
        a.owner = nextId++;
        return a;
      }
      len = concretize(t, "array length");
    }
    int n = (Integer) len;
    if (n < 0) throw thr("java/lang/NegativeArraySizeException", Integer.toString(n));
    Object[] e = new Object[n];
    Object d = dflt(elemDesc);
    if (d != null) Arrays.fill(e, d);
    return arr(k, e);
  }

  Arr arr(Klass k, Object[] e) {
    Arr a = new Arr(k, e);
    a.base = initDepth > 0;
    a.owner = nextId++;
    return a;
  }

  Arr chars(Object[] e) {
    return arr(klass("[C"), e);
  }

  /** concrete-length elements of an array */
  Object[] elems(Arr a) {
    if (a.e == null) {
      Object[] u = ((Rope) a.x).toUnits(this).clone();
      if (a.base && initDepth == 0) throw new Unsupported("lazy base array");
      a.e = u;
      a.x = null;
    }
    return a.e;
  }

  Object alen(Arr a) {
    return a.e == null ? ((Rope) a.x).len : (Object) a.e.length;
  }

  Rope ropeOf(Arr a) {
    return a.e == null ? (Rope) a.x : Rope.units(a.e.clone());
  }

  void write(Obj o, Object[] f, int i, Object v) {
    if (o.merged) throw new Unsupported("write to merged object");
    if (initDepth == 0) {
      if (o.base) journal.add(new Object[] {f, i, f[i]});
      if (o.base || o.owner <= shareMark) shared(o.k.name);
    }
    f[i] = v;
  }

  void payload(Obj o, Object v) {
    if (initDepth == 0) {
      if (o.base) journal.add(new Object[] {o, -1, o.x});
      if (o.x != null && (o.base || o.owner <= shareMark)) shared(o.k.name);
    }
    o.x = v;
  }

  void shared(String what) {
    if (shareMark < 0 || what.equals("java/lang/String")) return;
    if (sharedWrite == null) sharedWrite = what;
    sharedWrites.add(what);
  }

  /** a place in the repository's code where another thread may run; counted the same way by sym.Weave */
  private void point(Insn in, Object[] s, int sp) {
    switch (in.op) {
      case Opcodes.GETFIELD: at(s[sp - 1]); break;
      case Opcodes.PUTFIELD: at(s[sp - 2]); break;
      case Opcodes.IALOAD: case Opcodes.LALOAD: case Opcodes.FALOAD: case Opcodes.DALOAD: case Opcodes.AALOAD:
      case Opcodes.BALOAD: case Opcodes.CALOAD: case Opcodes.SALOAD:
        at(s[sp - 2]);
        break;
      case Opcodes.IASTORE: case Opcodes.LASTORE: case Opcodes.FASTORE: case Opcodes.DASTORE: case Opcodes.AASTORE:
      case Opcodes.BASTORE: case Opcodes.CASTORE: case Opcodes.SASTORE:
        at(s[sp - 3]);
        break;
      case Opcodes.GETSTATIC: case Opcodes.PUTSTATIC: {
        FieldInsnNode fi = (FieldInsnNode) in.x;
        preempt(sharedWrites.contains("static " + klass(fi.owner).field(fi.name).owner.name + "." + fi.name));
        break;
      }
      case Opcodes.INVOKEVIRTUAL: case Opcodes.INVOKEINTERFACE: case Opcodes.INVOKESPECIAL: case Opcodes.INVOKESTATIC: {
        MethodInsnNode mi = (MethodInsnNode) in.x;
        if (mi.owner.startsWith("io/fastprintf/")) break;
        Object o = in.op == Opcodes.INVOKESTATIC ? null : s[sp - Type.getArgumentTypes(mi.desc).length - 1];
        preempt(o instanceof Obj && !((Obj) o).k.name.equals("java/lang/String") && !((Obj) o).k.name.startsWith("io/fastprintf/") && isShared((Obj) o));
        break;
      }
      default:
    }
  }

  private boolean isShared(Obj o) {
    return o.base || o.owner <= shareMark;
  }

  private void at(Object o) {
    preempt(o != null && isShared((Obj) o) && sharedWrites.contains(((Obj) o).k.name));
  }

  private void preempt(boolean relevant) {
    points++;
    if (!relevant || monitors > 0 || choose("switch", 2) == 0) return;
    inputs.put("preempt", points);
    Obj b = other;
    other = null;
    otherResult = onThread(2, b);
    ran = true;
  }

  private Object onThread(int t, Obj call) {
    int was = thread;
    thread = t;
    Object r = callVirtual(call, "call()Ljava/lang/String;");
    thread = was;
    return r;
  }

  /**
   * Runs the three calls of a set-up one after the other. If none of them writes anything the others
   * can see, any schedule gives the same results. Otherwise the second call is also run at each place
   * of the first that touches what was written.
   */
  Object interleave(Obj setup) {
    String key = "make()[Lsym/Sym$Call;";
    Object[] res = new Object[6];
    Arr c = (Arr) callVirtual(setup, key);
    shareMark = nextId - 1;
    sharedWrite = null;
    sharedWrites = new HashSet<>();
    for (int i = 0; i < 3; i++) res[i] = onThread(i + 1, (Obj) c.e[i]);
    if (sharedWrite != null) {
      for (String w : sharedWrites) covers.add("written while shared: " + w);
      shareMark = -1;
      c = (Arr) callVirtual(setup, key);
      shareMark = nextId - 1;
      points = 0;
      monitors = 0;
      ran = false;
      other = (Obj) c.e[1];
      inputs.put("preempt", -1);
      try {
        res[3] = onThread(1, (Obj) c.e[0]);
        if (!ran) {
          Obj b = other;
          other = null;
          otherResult = onThread(2, b);
        }
      } finally {
        other = null;
      }
      res[4] = otherResult;
      res[5] = onThread(3, (Obj) c.e[2]);
    }
    shareMark = -1;
    Arr a = array("Ljava/lang/String;", 6);
    System.arraycopy(res, 0, a.e, 0, 6);
    return a;
  }

  private HashSet<String> sharedWrites = new HashSet<>();
  private Obj other;
  private Object otherResult;
  private boolean ran;
  private int points, monitors;

  Obj str(Rope r) {
    Obj o = new Obj(klass("java/lang/String"), klass("java/lang/String").nfields);
    System.arraycopy(o.k.defaults, 0, o.f, 0, o.f.length);
    o.x = r;
    o.base = initDepth > 0;
    o.owner = nextId++;
    return o;
  }

  Obj str(String s) {
    return str(Rope.of(s));
  }

  Obj literal(String s) {
    Obj o = interned.get(s);
    if (o == null) {
      o = str(Rope.of(s));
      o.base = true;
      o.owner = 0;
      interned.put(s, o);
    }
    return o;
  }

  Rope rope(Object o) {
    return (Rope) ((Obj) o).x;
  }

  String host(Object o) {
    if (o == null) return null;
    Rope r = rope(o);
    if (!r.concrete()) {
      if (!r.unitsOnly()) r = Rope.units(r.toUnits(this));
      if (!r.concrete()) throw new Unsupported("concrete text needed: " + r);
    }
    return r.host();
  }

  JThrow thr(String cls, String msg) {
    Klass k = klass(cls);
    init(k);
    Obj o = alloc(k);
    Fld f = k.field("detailMessage");
    o.f[f.slot] = msg == null ? null : str(msg);
    return new JThrow(o);
  }

  String describe(Obj ex) {
    String s = ex.k.name.replace('/', '.');
    Fld f = ex.k.field("detailMessage");
    if (f != null && ex.f[f.slot] != null) s += ": " + rope(ex.f[f.slot]);
    return s;
  }

  Object getField(Obj o, String name) {
    Fld f = o.k.field(name);
    if (f == null) throw new Unsupported("no field " + name + " in " + o.k.name);
    return o.f[f.slot];
  }

  void setField(Obj o, String name, Object v) {
    Fld f = o.k.field(name);
    if (f == null) throw new Unsupported("no field " + name + " in " + o.k.name);
    write(o, o.f, f.slot, v);
  }

  // ------------------------------------------------------------ calls
  Object call(Meth m, Object... args) {
    if (m.nat != null) return m.nat.call(this, args);
    return exec(m, args);
  }

  /** interprets the bytecode of a method that has a model */
  Object body(Meth m, Object... args) {
    return exec(m, args);
  }

  Object callStatic(String cls, String key, Object... args) {
    Klass k = klass(cls);
    init(k);
    Meth m = k.find(key);
    if (m == null) throw new Unsupported("no method " + cls + "." + key);
    return call(m, args);
  }

  Object callVirtual(Object recv, String key, Object... rest) {
    if (recv == null) throw thr("java/lang/NullPointerException", null);
    Obj o = (Obj) recv;
    Meth m = o.k.virt(key);
    if (m == null) throw new Unsupported("no method " + o.k.name + "." + key);
    Object[] a = new Object[rest.length + 1];
    a[0] = recv;
    System.arraycopy(rest, 0, a, 1, rest.length);
    return call(m, a);
  }

  Obj newObj(String cls, String initDesc, Object... args) {
    Klass k = klass(cls);
    init(k);
    Obj o = alloc(k);
    Object[] a = new Object[args.length + 1];
    a[0] = o;
    System.arraycopy(args, 0, a, 1, args.length);
    call(k.methods.get("<init>" + initDesc), a);
    return o;
  }

  Obj box(char p, Object v) {
    String c = boxName(p);
    Klass k = klass(c);
    init(k);
    Obj o = alloc(k);
    o.f[k.field("value").slot] = v;
    return o;
  }

  static String boxName(char p) {
    switch (p) {
      case 'Z': return "java/lang/Boolean";
      case 'B': return "java/lang/Byte";
      case 'C': return "java/lang/Character";
      case 'S': return "java/lang/Short";
      case 'I': return "java/lang/Integer";
      case 'J': return "java/lang/Long";
      case 'F': return "java/lang/Float";
      default: return "java/lang/Double";
    }
  }

  Object unbox(Object o) {
    if (o == null) throw thr("java/lang/NullPointerException", null);
    return getField((Obj) o, "value");
  }

  boolean isMethodHandleCall(MethodInsnNode in) {
    return in.owner.equals("java/lang/invoke/MethodHandle") && (in.name.equals("invokeExact") || in.name.equals("invoke"));
  }

  // ------------------------------------------------------------ interpreter
  private Object exec(Meth m, Object[] args) {
    if (!m.linked) m.link();
    if (m.code == null) throw new Unsupported((m.isNative ? "native method " : "abstract method ") + m);
    if (++depth > maxDepth) maxDepth = depth;
    if (depth > 2500) {
      depth--;
      throw thr("java/lang/StackOverflowError", null);
    }
    boolean inRepo = m.owner.origin == "repo";
    if (inRepo && m.executed++ == 0) repoMethods.add(m.toString());
    Object[] l = new Object[m.maxLocals], s = new Object[m.maxStack + 2];
    for (int i = 0; i < args.length; i++) l[m.argSlots[i]] = args[i];
    int pcx = 0, sp = 0;
    if (m.isSync) monitors++;
    Insn[] code = m.code;
    try {
      while (true) {
        Insn in = code[pcx];
        if (++steps > maxSteps) throw new Unsupported("step limit");
        try {
          if (other != null && inRepo && initDepth == 0 && !m.name.equals("<clinit>")) point(in, s, sp);
          switch (in.op) {
            case Opcodes.NOP: break;
            case Opcodes.ACONST_NULL: s[sp++] = null; break;
            case Opcodes.ICONST_M1: case Opcodes.ICONST_0: case Opcodes.ICONST_1: case Opcodes.ICONST_2:
            case Opcodes.ICONST_3: case Opcodes.ICONST_4: case Opcodes.ICONST_5:
              s[sp++] = in.op - Opcodes.ICONST_0;
              break;
            case Opcodes.LCONST_0: s[sp++] = 0L; break;
            case Opcodes.LCONST_1: s[sp++] = 1L; break;
            case Opcodes.FCONST_0: s[sp++] = 0f; break;
            case Opcodes.FCONST_1: s[sp++] = 1f; break;
            case Opcodes.FCONST_2: s[sp++] = 2f; break;
            case Opcodes.DCONST_0: s[sp++] = 0d; break;
            case Opcodes.DCONST_1: s[sp++] = 1d; break;
            case Opcodes.BIPUSH: case Opcodes.SIPUSH: s[sp++] = in.i; break;
            case Opcodes.LDC:
              if (in.cache == null) {
                Object c = in.x;
                if (c instanceof String) c = literal((String) c);
                else if (c instanceof Type) {
                  Type ty = (Type) c;
                  c = mirror(klass(ty.getSort() == Type.ARRAY ? ty.getDescriptor() : ty.getInternalName()));
                }
                in.cache = c;
              }
              s[sp++] = in.cache;
              break;
            case Opcodes.ILOAD: case Opcodes.LLOAD: case Opcodes.FLOAD: case Opcodes.DLOAD: case Opcodes.ALOAD:
              s[sp++] = l[in.i];
              break;
            case Opcodes.ISTORE: case Opcodes.LSTORE: case Opcodes.FSTORE: case Opcodes.DSTORE: case Opcodes.ASTORE:
              l[in.i] = s[--sp];
              break;
            case Opcodes.IALOAD: case Opcodes.LALOAD: case Opcodes.FALOAD: case Opcodes.DALOAD: case Opcodes.AALOAD:
            case Opcodes.BALOAD: case Opcodes.CALOAD: case Opcodes.SALOAD:
              sp--;
              s[sp - 1] = aload((Arr) s[sp - 1], s[sp], in.op);
              break;
            case Opcodes.IASTORE: case Opcodes.LASTORE: case Opcodes.FASTORE: case Opcodes.DASTORE: case Opcodes.AASTORE:
            case Opcodes.BASTORE: case Opcodes.CASTORE: case Opcodes.SASTORE: {
              sp -= 3;
              astore((Arr) s[sp], s[sp + 1], s[sp + 2], in.op);
              break;
            }
            case Opcodes.POP: sp--; break;
            case Opcodes.POP2: sp -= wide(s[sp - 1]) ? 1 : 2; break;
            case Opcodes.DUP: s[sp] = s[sp - 1]; sp++; break;
            case Opcodes.DUP_X1: {
              Object a = s[sp - 1], b = s[sp - 2];
              s[sp - 2] = a; s[sp - 1] = b; s[sp++] = a;
              break;
            }
            case Opcodes.DUP_X2: {
              Object a = s[sp - 1], b = s[sp - 2];
              if (wide(b)) { s[sp - 2] = a; s[sp - 1] = b; s[sp++] = a; }
              else {
                Object c = s[sp - 3];
                s[sp - 3] = a; s[sp - 2] = c; s[sp - 1] = b; s[sp++] = a;
              }
              break;
            }
            case Opcodes.DUP2: {
              Object a = s[sp - 1];
              if (wide(a)) s[sp++] = a;
              else { Object b = s[sp - 2]; s[sp++] = b; s[sp++] = a; }
              break;
            }
            case Opcodes.DUP2_X1: {
              Object a = s[sp - 1], b = s[sp - 2];
              if (wide(a)) { s[sp - 2] = a; s[sp - 1] = b; s[sp++] = a; }
              else {
                Object c = s[sp - 3];
                s[sp - 3] = b; s[sp - 2] = a; s[sp - 1] = c; s[sp++] = b; s[sp++] = a;
              }
              break;
            }
            case Opcodes.DUP2_X2: {
              Object a = s[sp - 1], b = s[sp - 2];
              if (wide(a)) {
                if (wide(b)) { s[sp - 2] = a; s[sp - 1] = b; s[sp++] = a; }
                else { Object c = s[sp - 3]; s[sp - 3] = a; s[sp - 2] = c; s[sp - 1] = b; s[sp++] = a; }
              } else {
                Object c = s[sp - 3];
                if (wide(c)) { s[sp - 3] = b; s[sp - 2] = a; s[sp - 1] = c; s[sp++] = b; s[sp++] = a; }
                else {
                  Object d = s[sp - 4];
                  s[sp - 4] = b; s[sp - 3] = a; s[sp - 2] = d; s[sp - 1] = c; s[sp++] = b; s[sp++] = a;
                }
              }
              break;
            }
            case Opcodes.SWAP: { Object a = s[sp - 1]; s[sp - 1] = s[sp - 2]; s[sp - 2] = a; break; }
            case Opcodes.IADD: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Integer && b instanceof Integer ? (Object) ((Integer) a + (Integer) b) : I(tf.add(t(a), t(b))); break; }
            case Opcodes.ISUB: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Integer && b instanceof Integer ? (Object) ((Integer) a - (Integer) b) : I(tf.sub(t(a), t(b))); break; }
            case Opcodes.IMUL: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Integer && b instanceof Integer ? (Object) ((Integer) a * (Integer) b) : I(tf.mul(t(a), t(b))); break; }
            case Opcodes.IDIV: case Opcodes.IREM: case Opcodes.LDIV: case Opcodes.LREM: {
              sp--;
              s[sp - 1] = div(s[sp - 1], s[sp], in.op == Opcodes.IREM || in.op == Opcodes.LREM);
              break;
            }
            case Opcodes.INEG: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Integer ? (Object) (-(Integer) a) : I(tf.neg(t(a))); break; }
            case Opcodes.LADD: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Long && b instanceof Long ? (Object) ((Long) a + (Long) b) : I(tf.add(t(a), t(b))); break; }
            case Opcodes.LSUB: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Long && b instanceof Long ? (Object) ((Long) a - (Long) b) : I(tf.sub(t(a), t(b))); break; }
            case Opcodes.LMUL: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Long && b instanceof Long ? (Object) ((Long) a * (Long) b) : I(tf.mul(t(a), t(b))); break; }
            case Opcodes.LNEG: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Long ? (Object) (-(Long) a) : I(tf.neg(t(a))); break; }
            case Opcodes.ISHL: case Opcodes.ISHR: case Opcodes.IUSHR: case Opcodes.LSHL: case Opcodes.LSHR: case Opcodes.LUSHR:
              sp--;
              s[sp - 1] = shift(s[sp - 1], s[sp], in.op);
              break;
            case Opcodes.IAND: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Integer && b instanceof Integer ? (Object) ((Integer) a & (Integer) b) : I(tf.and(t(a), t(b))); break; }
            case Opcodes.IOR: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Integer && b instanceof Integer ? (Object) ((Integer) a | (Integer) b) : I(tf.or(t(a), t(b))); break; }
            case Opcodes.IXOR: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Integer && b instanceof Integer ? (Object) ((Integer) a ^ (Integer) b) : I(tf.xor(t(a), t(b))); break; }
            case Opcodes.LAND: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Long && b instanceof Long ? (Object) ((Long) a & (Long) b) : I(tf.and(t(a), t(b))); break; }
            case Opcodes.LOR: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Long && b instanceof Long ? (Object) ((Long) a | (Long) b) : I(tf.or(t(a), t(b))); break; }
            case Opcodes.LXOR: { sp--; Object a = s[sp - 1], b = s[sp]; s[sp - 1] = a instanceof Long && b instanceof Long ? (Object) ((Long) a ^ (Long) b) : I(tf.xor(t(a), t(b))); break; }
            case Opcodes.IINC: { Object a = l[in.i]; l[in.i] = a instanceof Integer ? (Object) ((Integer) a + in.j) : I(tf.lin(32, (Term) a, 1, null, 0, in.j)); break; }
            case Opcodes.I2L: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Integer ? (Object) (long) (Integer) a : I(tf.i2l((Term) a)); break; }
            case Opcodes.L2I: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Long ? (Object) (int) (long) (Long) a : I(tf.l2i((Term) a)); break; }
            case Opcodes.I2B: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Integer ? (Object) (int) (byte) (int) (Integer) a : I(tf.sx((Term) a, 8)); break; }
            case Opcodes.I2S: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Integer ? (Object) (int) (short) (int) (Integer) a : I(tf.sx((Term) a, 16)); break; }
            case Opcodes.I2C: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Integer ? (Object) (int) (char) (int) (Integer) a : I(i2c((Term) a)); break; }
            case Opcodes.I2F: case Opcodes.I2D: case Opcodes.L2F: case Opcodes.L2D: case Opcodes.F2I: case Opcodes.F2L:
            case Opcodes.F2D: case Opcodes.D2I: case Opcodes.D2L: case Opcodes.D2F:
              s[sp - 1] = conv(s[sp - 1], in.op);
              break;
            case Opcodes.FADD: case Opcodes.FSUB: case Opcodes.FMUL: case Opcodes.FDIV: case Opcodes.FREM:
            case Opcodes.DADD: case Opcodes.DSUB: case Opcodes.DMUL: case Opcodes.DDIV: case Opcodes.DREM:
              sp--;
              s[sp - 1] = farith(s[sp - 1], s[sp], in.op);
              break;
            case Opcodes.FNEG: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Float ? (Object) (-(Float) a) : D(tf.xor(t(a), tf.cst(32, Integer.MIN_VALUE))); break; }
            case Opcodes.DNEG: { Object a = s[sp - 1]; s[sp - 1] = a instanceof Double ? (Object) (-(Double) a) : D(tf.xor(t(a), tf.cst(64, Long.MIN_VALUE))); break; }
            case Opcodes.LCMP: {
              sp--;
              Object a = s[sp - 1], b = s[sp];
              if (a instanceof Long && b instanceof Long) s[sp - 1] = Long.compare((Long) a, (Long) b);
              else {
                Term x = t(a), y = t(b);
                s[sp - 1] = I(tf.ite(tf.slt(x, y), tf.cst(32, -1), tf.ite(tf.eq(x, y), tf.cst(32, 0), tf.cst(32, 1))));
              }
              break;
            }
            case Opcodes.FCMPL: case Opcodes.FCMPG: case Opcodes.DCMPL: case Opcodes.DCMPG:
              sp--;
              s[sp - 1] = fcmp(s[sp - 1], s[sp], in.op == Opcodes.FCMPL || in.op == Opcodes.DCMPL ? -1 : 1);
              break;
            case Opcodes.IFEQ: case Opcodes.IFNE: case Opcodes.IFLT: case Opcodes.IFGE: case Opcodes.IFGT: case Opcodes.IFLE: {
              Object a = s[--sp];
              boolean r;
              if (a instanceof Integer) {
                int v = (Integer) a;
                switch (in.op) {
                  case Opcodes.IFEQ: r = v == 0; break;
                  case Opcodes.IFNE: r = v != 0; break;
                  case Opcodes.IFLT: r = v < 0; break;
                  case Opcodes.IFGE: r = v >= 0; break;
                  case Opcodes.IFGT: r = v > 0; break;
                  default: r = v <= 0;
                }
              } else {
                Term c = cmp0((Term) a, in.op);
                int j = mergeBranch(m, pcx, c, l, s, sp);
                if (j >= 0) {
                  if (j == code.length) return spec.ret;
                  sp = spec.sp;
                  pcx = j;
                  continue;
                }
                r = decide(c);
              }
              if (r) { pcx = in.i; continue; }
              break;
            }
            case Opcodes.IF_ICMPEQ: case Opcodes.IF_ICMPNE: case Opcodes.IF_ICMPLT: case Opcodes.IF_ICMPGE: case Opcodes.IF_ICMPGT: case Opcodes.IF_ICMPLE: {
              sp -= 2;
              Object a = s[sp], b = s[sp + 1];
              boolean r;
              if (a instanceof Integer && b instanceof Integer) {
                int v = (Integer) a, w = (Integer) b;
                switch (in.op) {
                  case Opcodes.IF_ICMPEQ: r = v == w; break;
                  case Opcodes.IF_ICMPNE: r = v != w; break;
                  case Opcodes.IF_ICMPLT: r = v < w; break;
                  case Opcodes.IF_ICMPGE: r = v >= w; break;
                  case Opcodes.IF_ICMPGT: r = v > w; break;
                  default: r = v <= w;
                }
              } else {
                Term c = icmp(t(a), t(b), in.op);
                int j = mergeBranch(m, pcx, c, l, s, sp);
                if (j >= 0) {
                  if (j == code.length) return spec.ret;
                  sp = spec.sp;
                  pcx = j;
                  continue;
                }
                r = decide(c);
              }
              if (r) { pcx = in.i; continue; }
              break;
            }
            case Opcodes.IF_ACMPEQ: case Opcodes.IF_ACMPNE: {
              sp -= 2;
              Object a = s[sp], b = s[sp + 1];
              boolean eq = a == b;
              if (!eq && a != null && b != null && (((Obj) a).merged || ((Obj) b).merged))
                throw new Unsupported("identity of merged object");
              if (eq == (in.op == Opcodes.IF_ACMPEQ)) { pcx = in.i; continue; }
              break;
            }
            case Opcodes.IFNULL: if (s[--sp] == null) { pcx = in.i; continue; } break;
            case Opcodes.IFNONNULL: if (s[--sp] != null) { pcx = in.i; continue; } break;
            case Opcodes.GOTO: pcx = in.i; continue;
            case Opcodes.LOOKUPSWITCH: {
              Object a = s[--sp];
              int[][] kt = (int[][]) in.x;
              if (a instanceof Integer) {
                int v = (Integer) a, tgt = in.i;
                for (int i = 0; i < kt[0].length; i++) if (kt[0][i] == v) { tgt = kt[1][i]; break; }
                pcx = tgt;
                continue;
              }
              pcx = symSwitch((Term) a, kt, in.i);
              continue;
            }
            case Opcodes.IRETURN: case Opcodes.LRETURN: case Opcodes.FRETURN: case Opcodes.DRETURN: case Opcodes.ARETURN:
              return s[--sp];
            case Opcodes.RETURN: return null;
            case Opcodes.GETSTATIC: {
              Fld f = (Fld) in.cache;
              if (f == null) {
                FieldInsnNode fi = (FieldInsnNode) in.x;
                f = klass(fi.owner).field(fi.name);
                if (f == null) throw new Unsupported("no field " + fi.owner + "." + fi.name);
                in.cache = f;
              }
              if (f.owner.state != 2) init(f.owner);
              s[sp++] = f.owner.statics[f.slot];
              break;
            }
            case Opcodes.PUTSTATIC: {
              Fld f = (Fld) in.cache;
              if (f == null) {
                FieldInsnNode fi = (FieldInsnNode) in.x;
                f = klass(fi.owner).field(fi.name);
                in.cache = f;
              }
              if (f.owner.state != 2) init(f.owner);
              if (initDepth == 0) {
                journal.add(new Object[] {f.owner.statics, f.slot, f.owner.statics[f.slot]});
                shared("static " + f.owner.name + "." + f.name);
              }
              f.owner.statics[f.slot] = s[--sp];
              break;
            }
            case Opcodes.GETFIELD: {
              Obj o = (Obj) s[sp - 1];
              if (o == null) throw thr("java/lang/NullPointerException", null);
              Fld f = (Fld) in.cache;
              if (f == null) {
                FieldInsnNode fi = (FieldInsnNode) in.x;
                f = klass(fi.owner).field(fi.name);
                if (f == null) throw new Unsupported("no field " + fi.owner + "." + fi.name);
                in.cache = f;
              }
              if (o.x != null && f.owner.name.equals("java/lang/String") && f.name.equals("value"))
                s[sp - 1] = chars(((Rope) o.x).toUnits(this).clone());
              else s[sp - 1] = o.f[f.slot];
              break;
            }
            case Opcodes.PUTFIELD: {
              sp -= 2;
              Obj o = (Obj) s[sp];
              if (o == null) throw thr("java/lang/NullPointerException", null);
              Fld f = (Fld) in.cache;
              if (f == null) {
                FieldInsnNode fi = (FieldInsnNode) in.x;
                f = klass(fi.owner).field(fi.name);
                in.cache = f;
              }
              if (f.name.equals("value") && f.owner.name.equals("java/lang/String")) payload(o, ropeOf((Arr) s[sp + 1]));
              else write(o, o.f, f.slot, s[sp + 1]);
              break;
            }
            case Opcodes.INVOKEVIRTUAL: case Opcodes.INVOKEINTERFACE: case Opcodes.INVOKESPECIAL: case Opcodes.INVOKESTATIC: {
              CallSite cs = (CallSite) in.cache;
              if (cs == null) in.cache = cs = new CallSite(this, in);
              sp -= cs.n;
              Object[] a = new Object[cs.n];
              System.arraycopy(s, sp, a, 0, cs.n);
              Object r;
              if (cs.mh) r = Natives.invokeHandle(this, (Obj) a[0], a);
              else {
                Meth tgt;
                if (in.op == Opcodes.INVOKESTATIC) {
                  tgt = cs.fixed;
                  if (tgt.owner.state != 2) init(tgt.owner);
                } else {
                  Obj o = (Obj) a[0];
                  if (o == null) throw thr("java/lang/NullPointerException", null);
                  if (in.op == Opcodes.INVOKESPECIAL) tgt = cs.fixed;
                  else if (cs.lastK == o.k) tgt = cs.lastM;
                  else {
                    tgt = o.k.virt(cs.key);
                    if (tgt == null) throw new Unsupported("no method " + o.k.name + "." + cs.key);
                    cs.lastK = o.k;
                    cs.lastM = tgt;
                  }
                }
                if (tgt.nat != null) r = tgt.nat.call(this, a);
                else r = exec(tgt, a);
              }
              if (cs.ret != 'V') s[sp++] = r;
              break;
            }
            case Opcodes.INVOKEDYNAMIC: {
              Lambda lm = (Lambda) in.cache;
              if (lm == null) in.cache = lm = new Lambda(this, (InvokeDynamicInsnNode) in.x);
              sp -= lm.ncap;
              Obj o = new Obj(lm.k, lm.ncap);
              o.base = initDepth > 0;
              o.owner = nextId++;
              System.arraycopy(s, sp, o.f, 0, lm.ncap);
              s[sp++] = o;
              break;
            }
            case Opcodes.NEW: {
              Klass k = (Klass) in.cache;
              if (k == null) in.cache = k = klass(((TypeInsnNode) in.x).desc);
              if (k.state != 2) init(k);
              s[sp++] = alloc(k);
              break;
            }
            case Opcodes.NEWARRAY:
              s[sp - 1] = array(String.valueOf("ZCFDBSIJ".charAt(in.i - 4)), s[sp - 1]);
              break;
            case Opcodes.ANEWARRAY: {
              String d = ((TypeInsnNode) in.x).desc;
              s[sp - 1] = array(d.startsWith("[") ? d : "L" + d + ";", s[sp - 1]);
              break;
            }
            case Opcodes.MULTIANEWARRAY: {
              int[] dims = new int[in.i];
              for (int i = in.i - 1; i >= 0; i--) dims[i] = concretize(s[--sp], "array length");
              s[sp++] = multi((String) in.x, dims, 0);
              break;
            }
            case Opcodes.ARRAYLENGTH: {
              Arr a = (Arr) s[sp - 1];
              if (a == null) throw thr("java/lang/NullPointerException", null);
              s[sp - 1] = alen(a);
              break;
            }
            case Opcodes.ATHROW: {
              Obj o = (Obj) s[--sp];
              if (o == null) throw thr("java/lang/NullPointerException", null);
              throw new JThrow(o);
            }
            case Opcodes.CHECKCAST: {
              Obj o = (Obj) s[sp - 1];
              if (o != null) {
                Klass k = (Klass) in.cache;
                if (k == null) in.cache = k = klass(((TypeInsnNode) in.x).desc);
                if (!o.k.subOf(k)) throw thr("java/lang/ClassCastException", o.k.name + " cannot be cast to " + k.name);
              }
              break;
            }
            case Opcodes.INSTANCEOF: {
              Obj o = (Obj) s[sp - 1];
              if (o == null) s[sp - 1] = 0;
              else {
                Klass k = (Klass) in.cache;
                if (k == null) in.cache = k = klass(((TypeInsnNode) in.x).desc);
                s[sp - 1] = o.k.subOf(k) ? 1 : 0;
              }
              break;
            }
            case Opcodes.MONITORENTER: sp--; monitors++; break;
            case Opcodes.MONITOREXIT: sp--; monitors--; break;
            default:
              throw new Unsupported("opcode " + in.op);
          }
          pcx++;
        } catch (JThrow t) {
          int tgt = -1;
          for (Handler h : m.handlers) {
            if (pcx >= h.start && pcx < h.end && (h.type == null || t.ex.k.subOf(klass(h.type)))) {
              tgt = h.target;
              break;
            }
          }
          if (tgt < 0) {
            if (explorer.debug) t.where.append("\n    at ").append(m).append(':').append(in.line);
            throw t;
          }
          sp = 0;
          s[sp++] = t.ex;
          pcx = tgt;
        } catch (Unsupported u) {
          if (u.depth++ < 12) u.where.append("\n    at ").append(m).append(':').append(in.line);
          throw u;
        } catch (ClassCastException | NullPointerException | ArrayIndexOutOfBoundsException e) {
          if (System.getProperty("symx.debug") != null) e.printStackTrace();
          throw new Unsupported("engine: " + e + " at " + m + " line " + in.line);
        }
      }
    } finally {
      if (m.isSync) monitors--;
      depth--;
    }
  }

  final Spec spec = new Spec(this);
  private static final boolean MERGE = !Boolean.getBoolean("symx.nomerge");

  private int mergeBranch(Meth m, int pc, Term c, Object[] l, Object[] s, int sp) {
    if (!MERGE || other != null || c == tf.T || c == tf.F || quick(c, 6) >= 0) return -1;
    return spec.merge(m, pc, c, l, s, sp);
  }

  Term icmp(Term x, Term y, int op) {
    switch (op) {
      case Opcodes.IF_ICMPEQ: return tf.eq(x, y);
      case Opcodes.IF_ICMPNE: return tf.not(tf.eq(x, y));
      case Opcodes.IF_ICMPLT: return tf.slt(x, y);
      case Opcodes.IF_ICMPGE: return tf.sle(y, x);
      case Opcodes.IF_ICMPGT: return tf.slt(y, x);
      default: return tf.sle(x, y);
    }
  }

  Term i2c(Term a) {
    return tf.and(a, tf.cst(32, 0xFFFF));
  }

  private int symSwitch(Term a, int[][] kt, int dflt) {
    LinkedHashMap<Integer, Term> by = new LinkedHashMap<>();
    for (int i = 0; i < kt[0].length; i++) {
      if (kt[1][i] == dflt) continue;
      Term c = tf.eq(a, tf.cst(32, kt[0][i]));
      Term o = by.get(kt[1][i]);
      by.put(kt[1][i], o == null ? c : tf.bor(o, c));
    }
    for (Map.Entry<Integer, Term> e : by.entrySet()) if (decide(e.getValue())) return e.getKey();
    return dflt;
  }

  Term cmp0(Term a, int op) {
    Term z = tf.cst(32, 0);
    switch (op) {
      case Opcodes.IFEQ: return tf.eq(a, z);
      case Opcodes.IFNE: return tf.not(tf.eq(a, z));
      case Opcodes.IFLT: return tf.slt(a, z);
      case Opcodes.IFGE: return tf.sle(z, a);
      case Opcodes.IFGT: return tf.slt(z, a);
      default: return tf.sle(a, z);
    }
  }

  Arr multi(String desc, int[] dims, int i) {
    String el = desc.substring(1);
    if (i == dims.length - 1) return array(el, dims[i]);
    Arr a = array(el, dims[i]);
    for (int j = 0; j < dims[i]; j++) a.e[j] = multi(el, dims, i + 1);
    return a;
  }

  Object div(Object a, Object b, boolean rem) {
    if (a instanceof Integer && b instanceof Integer) {
      if ((Integer) b == 0) throw thr("java/lang/ArithmeticException", "/ by zero");
      return rem ? (Integer) a % (Integer) b : (Integer) a / (Integer) b;
    }
    if (a instanceof Long && b instanceof Long) {
      if ((Long) b == 0) throw thr("java/lang/ArithmeticException", "/ by zero");
      return rem ? (Long) a % (Long) b : (Long) a / (Long) b;
    }
    Term x = t(a), y = t(simp(b));
    if (decide(tf.eq(y, tf.cst(y.w, 0)))) throw thr("java/lang/ArithmeticException", "/ by zero");
    return I(rem ? tf.srem(x, y) : tf.sdiv(x, y));
  }

  Object shift(Object a, Object b, int op) {
    boolean lng = op == Opcodes.LSHL || op == Opcodes.LSHR || op == Opcodes.LUSHR;
    if (!(a instanceof Term) && b instanceof Integer) {
      int n = (Integer) b;
      switch (op) {
        case Opcodes.ISHL: return (Integer) a << n;
        case Opcodes.ISHR: return (Integer) a >> n;
        case Opcodes.IUSHR: return (Integer) a >>> n;
        case Opcodes.LSHL: return (Long) a << n;
        case Opcodes.LSHR: return (Long) a >> n;
        default: return (Long) a >>> n;
      }
    }
    int w = lng ? 64 : 32;
    b = simp(b);
    Term n = b instanceof Integer ? tf.cst(w, (Integer) b & (w - 1)) : tf.and(t(b), tf.cst(32, w - 1));
    if (lng && n.w == 32) n = tf.i2l(n);
    Term x = t(a);
    switch (op) {
      case Opcodes.ISHL: case Opcodes.LSHL: return I(tf.shl(x, n));
      case Opcodes.ISHR: case Opcodes.LSHR: return I(tf.ashr(x, n));
      default: return I(tf.lshr(x, n));
    }
  }

  // ------------------------------------------------------------ arrays
  private void bounds(Arr a, Object idx) {
    if (a == null) throw thr("java/lang/NullPointerException", null);
    Object n = alen(a);
    if (idx instanceof Integer && n instanceof Integer) {
      int i = (Integer) idx;
      if (i < 0 || i >= (Integer) n) throw thr("java/lang/ArrayIndexOutOfBoundsException", Integer.toString(i));
      return;
    }
    if (!decide(tf.band(ile(0, idx), ilt(idx, n)))) throw thr("java/lang/ArrayIndexOutOfBoundsException", null);
  }

  private Object aload(Arr a, Object idx, int op) {
    bounds(a, idx);
    idx = simp(idx);
    if (a.e == null) return ((Rope) a.x).charAt(this, idx);
    if (idx instanceof Integer) return a.e[(Integer) idx];
    Term t = (Term) idx;
    if (op == Opcodes.AALOAD) {
      Object r = mergeRefs(a.e, t);
      return r == this ? a.e[concretize(t, "array index")] : r;
    }
    return selectInts(a.e, t);
  }

  /** an object standing for a.e[idx], or this engine if merging is impossible */
  private Object mergeRefs(Object[] e, Term idx) {
    long[] r = range(idx);
    int lo = (int) Math.max(0, r[0]), hi = (int) Math.min(e.length - 1, r[1]);
    if (lo == hi) return e[lo];
    boolean all = true;
    for (int i = lo; i <= hi; i++) all &= e[i] == e[lo];
    if (all) return e[lo];
    for (int i = lo; i <= hi; i++) {
      if (!(e[i] instanceof Obj) || e[i] instanceof Arr) return this;
      Obj o = (Obj) e[i];
      if (o.k != ((Obj) e[lo]).k || o.x != null || o.merged) return this;
    }
    if (hi - lo < 3) return this;
    Obj f = (Obj) e[lo];
    List<Object> key = Arrays.asList(e, idx, lo, hi);
    Obj m = merges.get(key);
    if (m != null) return m;
    m = new Obj(f.k, f.f.length);
    m.merged = true;
    m.owner = nextId++;
    for (int j = 0; j < f.f.length; j++) {
      Object[] vs = new Object[hi + 1];
      boolean same = true, num = true;
      for (int i = lo; i <= hi; i++) {
        vs[i] = ((Obj) e[i]).f[j];
        same &= same(vs[i], vs[lo]);
        num &= vs[i] instanceof Integer || vs[i] instanceof Long || vs[i] instanceof Term;
      }
      for (int i = 0; i < lo; i++) vs[i] = vs[lo];
      if (same) m.f[j] = vs[lo];
      else if (num) m.f[j] = selectInts(vs, idx);
      else {
        // different but interchangeable references (e.g. one marker object per element)
        Object x = mergeRefs(vs, idx);
        if (x == this) return this;
        m.f[j] = x;
      }
    }
    merges.put(key, m);
    return m;
  }

  private void astore(Arr a, Object idx, Object v, int op) {
    bounds(a, idx);
    idx = simp(idx);
    if (op == Opcodes.BASTORE && v instanceof Integer) v = (int) (byte) (int) (Integer) v;
    else if (op == Opcodes.BASTORE && !a.k.name.equals("[Z")) v = I(tf.sx((Term) v, 8));
    else if (op == Opcodes.CASTORE) v = v instanceof Integer ? (Object) (int) (char) (int) (Integer) v : I(i2c((Term) v));
    else if (op == Opcodes.SASTORE) v = v instanceof Integer ? (Object) (int) (short) (int) (Integer) v : I(tf.sx((Term) v, 16));
    else if (op == Opcodes.AASTORE && v != null && !((Obj) v).k.subOf(a.k.elem)) throw thr("java/lang/ArrayStoreException", ((Obj) v).k.name);
    int i = concretize(idx, "store index");
    write(a, elems(a), i, v);
  }

  // ------------------------------------------------------------ floating point
  Term nan(Term b) {
    long inf = b.w == 64 ? 0x7FF0000000000000L : 0x7F800000L;
    return tf.slt(tf.cst(b.w, inf), tf.and(b, tf.cst(b.w, TF.max(b.w))));
  }

  private static boolean isNaNBits(int w, long v) {
    return w == 64 ? Double.isNaN(Double.longBitsToDouble(v)) : Float.isNaN(Float.intBitsToFloat((int) v));
  }

  private Term fzero(Term x) {
    return tf.eq(tf.and(x, tf.cst(x.w, TF.max(x.w))), tf.cst(x.w, 0));
  }

  Term flt(Term x, Term y) {
    int w = x.w;
    if (x.isConst() && y.isConst()) return tf.fp(Op.FLT, 0, x, y);
    if (y.isConst()) {
      long c = y.val();
      if (isNaNBits(w, c)) return tf.F;
      if ((c & TF.max(w)) == 0) c = 0;
      Term neg = tf.slt(x, tf.cst(w, 0));
      if (c == 0) return tf.band(neg, tf.band(tf.not(fzero(x)), tf.not(nan(x))));
      if (c > 0) return tf.bor(tf.band(neg, tf.not(nan(x))), tf.band(tf.not(neg), tf.slt(x, tf.cst(w, c))));
      // negative constant: more negative means larger bits as signed within negatives
      return tf.band(neg, tf.band(tf.not(nan(x)), tf.slt(tf.cst(w, c), x)));
    }
    if (x.isConst()) {
      // c < y  <=>  -y < -c
      long c = x.val();
      if (isNaNBits(w, c)) return tf.F;
      return flt(tf.xor(y, tf.cst(w, TF.min(w))), tf.cst(w, c ^ TF.min(w)));
    }
    return tf.fp(Op.FLT, 0, x, y);
  }

  Term feq(Term x, Term y) {
    int w = x.w;
    if (x == y) return tf.not(nan(x));
    if (x.isConst() && !y.isConst()) {
      Term q = x;
      x = y;
      y = q;
    }
    if (x.isConst()) return tf.fp(Op.FEQ, 0, x, y);
    if (y.isConst()) {
      long c = y.val();
      if (isNaNBits(w, c)) return tf.F;
      if ((c & TF.max(w)) == 0) return fzero(x);
      return tf.eq(x, y);
    }
    return tf.fp(Op.FEQ, 0, x, y);
  }

  private Object fcmp(Object a, Object b, int onNan) {
    if (a instanceof Double && b instanceof Double) {
      double x = (Double) a, y = (Double) b;
      return x < y ? -1 : x > y ? 1 : x == y ? 0 : onNan;
    }
    if (a instanceof Float && b instanceof Float) {
      float x = (Float) a, y = (Float) b;
      return x < y ? -1 : x > y ? 1 : x == y ? 0 : onNan;
    }
    Term x = t(a), y = t(b);
    if (x == y) return I(tf.ite(nan(x), tf.cst(32, onNan), tf.cst(32, 0)));
    return I(tf.ite(flt(x, y), tf.cst(32, -1), tf.ite(feq(x, y), tf.cst(32, 0), tf.ite(flt(y, x), tf.cst(32, 1), tf.cst(32, onNan)))));
  }

  private Object farith(Object a, Object b, int op) {
    if (a instanceof Double && b instanceof Double) {
      double x = (Double) a, y = (Double) b;
      switch (op) {
        case Opcodes.DADD: return x + y;
        case Opcodes.DSUB: return x - y;
        case Opcodes.DMUL: return x * y;
        case Opcodes.DDIV: return x / y;
        default: return x % y;
      }
    }
    if (a instanceof Float && b instanceof Float) {
      float x = (Float) a, y = (Float) b;
      switch (op) {
        case Opcodes.FADD: return x + y;
        case Opcodes.FSUB: return x - y;
        case Opcodes.FMUL: return x * y;
        case Opcodes.FDIV: return x / y;
        default: return x % y;
      }
    }
    Term x = t(a), y = t(b);
    if (op == Opcodes.DMUL && (x.isConst() || y.isConst())) {
      Object r = scale(x.isConst() ? y : x, x.isConst() ? x.val() : y.val());
      if (r != null) return r;
    }
    switch (op) {
      case Opcodes.DADD: case Opcodes.FADD: return D(tf.fp(Op.FADD, x.w, x, y));
      case Opcodes.DSUB: case Opcodes.FSUB: return D(tf.fp(Op.FSUB, x.w, x, y));
      case Opcodes.DMUL: case Opcodes.FMUL: return D(tf.fp(Op.FMUL, x.w, x, y));
      case Opcodes.DDIV: case Opcodes.FDIV: return D(tf.fp(Op.FDIV, x.w, x, y));
      default: throw new Unsupported("floating point remainder");
    }
  }

  /** x * 2^k for a subnormal x, exactly, by cases on the leading bit */
  private Object scale(Term x, long cbits) {
    if ((cbits & 0xFFFFFFFFFFFFFL) != 0 || cbits < 0) return null;
    int k = (int) (cbits >>> 52) - 1023;
    if (k < 53 || k > 1000) return null;
    Term mag = tf.and(x, tf.cst(64, Long.MAX_VALUE));
    if (!decide(tf.slt(mag, tf.cst(64, 1L << 52)))) return null;
    boolean neg = decide(tf.slt(x, tf.cst(64, 0)));
    if (decide(tf.eq(mag, tf.cst(64, 0)))) return neg ? -0.0 : 0.0;
    int top = 51;
    while (top > 0 && decide(tf.slt(mag, tf.cst(64, 1L << top)))) top--;
    // mag = 2^top + r, value = mag * 2^-1074 * 2^k
    long e = top - 1074 + k + 1023;
    Term r = tf.sub(mag, tf.cst(64, 1L << top));
    Term bits = tf.lin(64, r, 1L << (52 - top), null, 0, e << 52);
    if (neg) bits = tf.xor(bits, tf.cst(64, Long.MIN_VALUE));
    return D(bits);
  }

  /** the double with the value of a float, on the bits */
  private Object widen(Term x) {
    boolean neg = decide(tf.slt(x, tf.cst(32, 0)));
    Term mag = tf.and(x, tf.cst(32, Integer.MAX_VALUE));
    Term sign = tf.cst(64, neg ? Long.MIN_VALUE : 0);
    if (decide(tf.slt(mag, tf.cst(32, 0x00800000)))) {
      if (decide(tf.eq(mag, tf.cst(32, 0)))) return neg ? -0.0 : 0.0;
      int top = 22;
      while (top > 0 && decide(tf.slt(mag, tf.cst(32, 1L << top)))) top--;
      Term r = tf.i2l(tf.sub(mag, tf.cst(32, 1L << top)));
      return D(tf.xor(tf.lin(64, r, 1L << (52 - top), null, 0, (long) (top - 149 + 1023) << 52), sign));
    }
    if (decide(tf.slt(mag, tf.cst(32, 0x7F800000)))) return D(tf.xor(tf.lin(64, tf.i2l(mag), 1L << 29, null, 0, 896L << 52), sign));
    if (decide(tf.eq(mag, tf.cst(32, 0x7F800000)))) return neg ? Double.NEGATIVE_INFINITY : Double.POSITIVE_INFINITY;
    return Double.NaN;
  }

  /** the double nearest to an integer, on the bits */
  private Object fromInt(Term x) {
    if (x.w == 32) x = tf.i2l(x);
    if (decide(tf.eq(x, tf.cst(64, 0)))) return 0.0;
    boolean neg = decide(tf.slt(x, tf.cst(64, 0)));
    if (neg && decide(tf.eq(x, tf.cst(64, Long.MIN_VALUE)))) return (double) Long.MIN_VALUE;
    Term mag = neg ? tf.neg(x) : x;
    int lo = 0, hi = 62; // position of the top bit
    while (lo < hi) {
      int mid = (lo + hi) / 2;
      if (decide(tf.slt(mag, tf.cst(64, 1L << (mid + 1))))) hi = mid;
      else lo = mid + 1;
    }
    long e = (long) (lo + 1023) << 52;
    Term bits;
    if (lo <= 52) {
      Term known = doubles.get(x);
      if (known == null) {
        // the fraction as a variable of its own keeps the exponent a constant
        known = tf.var(fresh("fraction"), 64, 0, (1L << 52) - 1);
        assume(tf.eq(tf.lin(64, mag, 1L << (52 - lo), null, 0, -(1L << 52)), known));
        doubles.put(x, known);
      }
      bits = tf.lin(64, known, 1, null, 0, e);
      if (!decimals.containsKey(bits) && !(abstractDecimals && lo > 31)) {
        int n = 1;
        while (n < 18 && !decide(tf.slt(mag, tf.cst(64, TF.P10[n])))) n++;
        decimals.put(bits, new Term[] {mag, tf.cst(32, 0), tf.cst(32, n)});
      }
    } else {
      int s = lo - 52;
      Term q = tf.lshr(mag, tf.cst(64, s)), rem = tf.and(mag, tf.cst(64, (1L << s) - 1)), half = tf.cst(64, 1L << (s - 1));
      boolean up = decide(tf.slt(half, rem)) || decide(tf.eq(half, rem)) && decide(tf.eq(tf.and(q, tf.cst(64, 1)), tf.cst(64, 1)));
      bits = tf.lin(64, q, 1, null, 0, e - (1L << 52) + (up ? 1 : 0));
    }
    return D(neg ? tf.xor(bits, tf.cst(64, Long.MIN_VALUE)) : bits);
  }

  /** the float nearest to an integer, on the bits */
  private Object floatFromInt(Term x) {
    if (x.w == 32) x = tf.i2l(x);
    if (decide(tf.eq(x, tf.cst(64, 0)))) return 0.0f;
    boolean neg = decide(tf.slt(x, tf.cst(64, 0)));
    if (neg && decide(tf.eq(x, tf.cst(64, Long.MIN_VALUE)))) return (float) Long.MIN_VALUE;
    Term mag = neg ? tf.neg(x) : x;
    int lo = 0, hi = 62;
    while (lo < hi) {
      int mid = (lo + hi) / 2;
      if (decide(tf.slt(mag, tf.cst(64, 1L << (mid + 1))))) hi = mid;
      else lo = mid + 1;
    }
    Term q, value;
    if (lo <= 23) {
      q = tf.lin(64, mag, 1L << (23 - lo), null, 0, 0);
      value = mag;
    } else {
      int s = lo - 23;
      Term cut = tf.lshr(mag, tf.cst(64, s)), rem = tf.and(mag, tf.cst(64, (1L << s) - 1)), half = tf.cst(64, 1L << (s - 1));
      boolean up = decide(tf.slt(half, rem)) || decide(tf.eq(half, rem)) && decide(tf.eq(tf.and(cut, tf.cst(64, 1)), tf.cst(64, 1)));
      q = tf.lin(64, cut, 1, null, 0, up ? 1 : 0);
      value = lo > 52 ? null : tf.lin(64, q, 1L << s, null, 0, 0);
    }
    Term bits = tf.lin(32, tf.l2i(q), 1, null, 0, ((lo + 127) << 23) - (1 << 23));
    if (neg) bits = tf.xor(bits, tf.cst(32, Integer.MIN_VALUE));
    Object d = bits.isConst() ? null : widen(bits);
    if (d instanceof Term && value != null) {
      Term m = tf.and((Term) d, tf.cst(64, Long.MAX_VALUE));
      if (!decimals.containsKey(m)) {
        int n = 1;
        while (n < 18 && !decide(tf.slt(value, tf.cst(64, TF.P10[n])))) n++;
        decimals.put(m, new Term[] {value, tf.cst(32, 0), tf.cst(32, n)});
      }
    }
    return D(bits);
  }

  /** a double truncated to an integer of the given size, on the bits */
  private Object truncate(Object d, int w) {
    if (d instanceof Double) return w == 32 ? (Object) (int) (double) (Double) d : (Object) (long) (double) (Double) d;
    Term x = (Term) d;
    Term mag = tf.and(x, tf.cst(64, Long.MAX_VALUE));
    Term[] dec = decimals.get(mag);
    boolean neg = decide(tf.slt(x, tf.cst(64, 0)));
    if (dec != null && dec[1].isConst() && dec[2].isConst()) {
      int e = (int) dec[1].val(), n = (int) dec[2].val();
      if (n + e <= (w == 32 ? 9 : 15)) {
        Term v = e >= 0 ? tf.lin(64, dec[0], TF.P10[e], null, 0, 0) : n + e <= 0 ? tf.cst(64, 0) : t(divide(dec[0], TF.P10[-e]));
        if (neg) v = tf.neg(v);
        return I(w == 32 ? tf.l2i(v) : v);
      }
    }
    if (decide(tf.slt(tf.cst(64, 0x7FF0000000000000L), mag))) return w == 32 ? (Object) 0 : (Object) 0L;
    if (decide(tf.slt(mag, tf.cst(64, 1023L << 52)))) return w == 32 ? (Object) 0 : (Object) 0L;
    if (!decide(tf.slt(mag, tf.cst(64, 1022L + w << 52))))
      return w == 32 ? (Object) (neg ? Integer.MIN_VALUE : Integer.MAX_VALUE) : (Object) (neg ? Long.MIN_VALUE : Long.MAX_VALUE);
    int lo = 0, hi = w - 2;
    while (lo < hi) {
      int mid = (lo + hi) / 2;
      if (decide(tf.slt(mag, tf.cst(64, 1023L + mid + 1 << 52)))) hi = mid;
      else lo = mid + 1;
    }
    Term sig = tf.sub(mag, tf.cst(64, 1022L + lo << 52)); // 2^52 + fraction
    Term v = lo <= 52 ? tf.lshr(sig, tf.cst(64, 52 - lo)) : tf.shl(sig, tf.cst(64, lo - 52));
    if (neg) v = tf.neg(v);
    return I(w == 32 ? tf.l2i(v) : v);
  }

  private Object divide(Term a, long b) {
    return I(tf.sdiv(a, tf.cst(64, b)));
  }

  private Object conv(Object a, int op) {
    if (!(a instanceof Term)) {
      switch (op) {
        case Opcodes.I2F: return (float) (int) (Integer) a;
        case Opcodes.I2D: return (double) (int) (Integer) a;
        case Opcodes.L2F: return (float) (long) (Long) a;
        case Opcodes.L2D: return (double) (long) (Long) a;
        case Opcodes.F2I: return (int) (float) (Float) a;
        case Opcodes.F2L: return (long) (float) (Float) a;
        case Opcodes.F2D: return (double) (float) (Float) a;
        case Opcodes.D2I: return (int) (double) (Double) a;
        case Opcodes.D2L: return (long) (double) (Double) a;
        default: return (float) (double) (Double) a;
      }
    }
    Term x = (Term) a;
    switch (op) {
      case Opcodes.I2F: return floatFromInt(x);
      case Opcodes.I2D: return fromInt(x);
      case Opcodes.L2F: return floatFromInt(x);
      case Opcodes.L2D: return fromInt(x);
      case Opcodes.F2I: return truncate(widen(x), 32);
      case Opcodes.F2L: return truncate(widen(x), 64);
      case Opcodes.F2D: return widen(x);
      case Opcodes.D2I: return truncate(x, 32);
      case Opcodes.D2L: return truncate(x, 64);
      default: return D(tf.fp(Op.D2F, 32, x));
    }
  }
}

/** Resolved call site. */
final class CallSite {
  final int n;
  final char ret;
  final String key;
  final boolean mh;
  Meth fixed;
  Klass lastK;
  Meth lastM;

  CallSite(Engine e, Insn in) {
    MethodInsnNode mi = (MethodInsnNode) in.x;
    key = mi.name + mi.desc;
    mh = e.isMethodHandleCall(mi);
    n = Type.getArgumentTypes(mi.desc).length + (in.op == Opcodes.INVOKESTATIC ? 0 : 1);
    ret = Type.getReturnType(mi.desc).getDescriptor().charAt(0);
    if (!mh && (in.op == Opcodes.INVOKESTATIC || in.op == Opcodes.INVOKESPECIAL)) {
      fixed = e.klass(mi.owner).find(key);
      Native nat = e.natives.get(mi.owner + "." + key);
      if (fixed == null && nat != null) {
        // newer than the class library
        fixed = new Meth(e.klass(mi.owner), new MethodNode(Opcodes.ACC_STATIC | Opcodes.ACC_NATIVE, mi.name, mi.desc, null, null));
        fixed.nat = nat;
      }
      if (fixed == null) throw new Unsupported("no method " + mi.owner + "." + key);
    }
  }
}

/** A lambda or method reference call site. */
final class Lambda {
  final Klass k;
  final int ncap;

  Lambda(Engine e, InvokeDynamicInsnNode in) {
    if (!in.bsm.getOwner().equals("java/lang/invoke/LambdaMetafactory")) throw new Unsupported("invokedynamic " + in.bsm);
    Type[] caps = Type.getArgumentTypes(in.desc);
    ncap = caps.length;
    Type samT = (Type) in.bsmArgs[0];
    Handle impl = (Handle) in.bsmArgs[1];
    Type inst = (Type) in.bsmArgs[2];
    k = new Klass("lambda$" + in.name);
    k.sup = e.klass("java/lang/Object");
    Klass iface = e.klass(Type.getReturnType(in.desc).getInternalName());
    k.ifs = new Klass[] {iface};
    k.supers.add(k);
    k.supers.addAll(k.sup.supers);
    k.supers.addAll(iface.supers);
    k.state = 2;
    k.nfields = ncap;
    k.defaults = new Object[ncap];
    k.allInst = new Fld[0];
    k.statics = new Object[0];
    int tag = impl.getTag();
    boolean isStatic = tag == Opcodes.H_INVOKESTATIC, isNew = tag == Opcodes.H_NEWINVOKESPECIAL;
    Type[] ip = Type.getArgumentTypes(impl.getDesc());
    ArrayList<Type> params = new ArrayList<>();
    if (!isStatic && !isNew) params.add(Type.getObjectType(impl.getOwner()));
    params.addAll(Arrays.asList(ip));
    Type implRet = isNew ? Type.getObjectType(impl.getOwner()) : Type.getReturnType(impl.getDesc());
    Type[] ia = inst.getArgumentTypes();
    Type[] sa = samT.getArgumentTypes();
    Type sr = samT.getReturnType();
    String key = impl.getName() + impl.getDesc();
    MethodNode mn = new MethodNode(Opcodes.ACC_PUBLIC, in.name, samT.getDescriptor(), null, null);
    Meth m = new Meth(k, mn);
    int nc = ncap;
    m.nat = (en, a) -> {
      Obj self = (Obj) a[0];
      Object[] v = new Object[nc + a.length - 1];
      System.arraycopy(self.f, 0, v, 0, nc);
      for (int i = 1; i < a.length; i++) v[nc + i - 1] = adapt(en, a[i], sa[i - 1], params.get(nc + i - 1), ia[i - 1]);
      Klass ok = en.klass(impl.getOwner());
      Object r;
      if (isNew) {
        en.init(ok);
        Obj o = en.alloc(ok);
        Object[] w = new Object[v.length + 1];
        w[0] = o;
        System.arraycopy(v, 0, w, 1, v.length);
        en.call(ok.find(key), w);
        r = o;
      } else if (isStatic) {
        en.init(ok);
        r = en.call(ok.find(key), v);
      } else if (tag == Opcodes.H_INVOKESPECIAL) {
        r = en.call(ok.find(key), v);
      } else {
        if (v[0] == null) throw en.thr("java/lang/NullPointerException", null);
        Meth t = ((Obj) v[0]).k.virt(key);
        if (t == null) throw new Unsupported("no method " + ((Obj) v[0]).k + "." + key);
        r = en.call(t, v);
      }
      if (sr.getSort() == Type.VOID) return null;
      return adapt(en, r, implRet, sr, implRet);
    };
    k.methods.put(in.name + samT.getDescriptor(), m);
  }

  static boolean prim(Type t) {
    return t.getSort() != Type.OBJECT && t.getSort() != Type.ARRAY;
  }

  static Object adapt(Engine e, Object v, Type from, Type to, Type inst) {
    if (prim(from) && !prim(to)) return e.box(from.getDescriptor().charAt(0), v);
    if (!prim(from) && prim(to)) return widen(e, e.unbox(v), to);
    if (prim(from) && prim(to)) return widen(e, v, to);
    return v;
  }

  private static Object widen(Engine e, Object v, Type to) {
    if (to.getSort() == Type.LONG && (v instanceof Integer || v instanceof Term && ((Term) v).w == 32))
      return e.I(e.tf.i2l(e.t(v)));
    return v;
  }
}
