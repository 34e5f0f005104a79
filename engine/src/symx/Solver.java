package symx;

import com.microsoft.z3.*;
import java.math.BigInteger;
import java.util.*;
import symx.Term.Op;

/** Decides conjunctions of boolean terms with z3 (bit-vectors, or exact translation to integers). */
final class Solver {
  static final int SAT = 1, UNSAT = 0, UNKNOWN = -1;

  static final class Res {
    final int st;
    final Map<Term, Long> model;

    Res(int st, Map<Term, Long> model) {
      this.st = st;
      this.model = model;
    }
  }

  static final Res R_UNSAT = new Res(UNSAT, null), R_UNKNOWN = new Res(UNKNOWN, null);

  // statistics
  long queries, cacheHits, modelHits, bvCalls, liaCalls, unknowns, nanos, discharged;
  static final int TIMEOUT_MS = 10000;
  int timeoutMs = TIMEOUT_MS;
  /** products of variables are unknown values: what is not refuted then is unknown */
  boolean opaque;
  /** values of a variable worth trying */
  final HashMap<Term, java.util.function.Supplier<long[]>> hints = new HashMap<>();
  boolean trace = System.getProperty("symx.trace") != null;

  private final TF tf;
  private final Context ctx;
  private final com.microsoft.z3.Solver bv, bvfp, lia;
  private HashMap<Term, Expr<?>> bvMemo = new HashMap<>();
  private final HashMap<Term, Expr<?>> freeMemo = new HashMap<>();
  private final HashMap<Term, Term[]> products = new HashMap<>();
  private final HashMap<Term, Expr<?>> liaMemo = new HashMap<>();
  private final HashMap<Term, Term[]> vars = new HashMap<>();
  private final HashMap<Term, Integer> feats = new HashMap<>();
  private final HashMap<Ints, Res> cache = new HashMap<>();
  private final ArrayDeque<Map<Term, Long>> recent = new ArrayDeque<>();
  private final Random rnd;
  private static final Term[] NOV = new Term[0];

  private static final class Ints {
    final int[] v;
    final int h;

    Ints(int[] v) {
      this.v = v;
      h = Arrays.hashCode(v);
    }

    public int hashCode() {
      return h;
    }

    public boolean equals(Object o) {
      return Arrays.equals(v, ((Ints) o).v);
    }
  }

  Solver(TF tf, long seed) {
    this.tf = tf;
    HashMap<String, String> cfg = new HashMap<>();
    cfg.put("model", "true");
    ctx = new Context(cfg);
    bv = ctx.mkSolver("QF_BV");
    bvfp = ctx.mkSolver();
    lia = ctx.mkSolver();
    rnd = new Random(seed);
  }

  void close() {
    ctx.close();
  }

  static Term[] merge(Term[] x, Term[] y) {
    if (x.length == 0) return y;
    if (y.length == 0 || x == y) return x;
    ArrayList<Term> r = new ArrayList<>(x.length + y.length);
    int i = 0, j = 0;
    while (i < x.length && j < y.length) {
      if (x[i] == y[j]) {
        r.add(x[i++]);
        j++;
      } else if (x[i].id < y[j].id) r.add(x[i++]);
      else r.add(y[j++]);
    }
    while (i < x.length) r.add(x[i++]);
    while (j < y.length) r.add(y[j++]);
    return r.toArray(NOV);
  }

  /** variables of a term, sorted by id */
  Term[] vars(Term t) {
    if (t.op == Op.VAR) {
      Term[] v = vars.get(t);
      if (v == null) vars.put(t, v = new Term[] {t});
      return v;
    }
    if (t.a.length == 0) return NOV;
    Term[] v = vars.get(t);
    if (v != null) return v;
    v = NOV;
    for (Term c : t.a) v = merge(v, vars(c));
    vars.put(t, v);
    return v;
  }

  /** the outermost products in a term */
  private Term[] products(Term t) {
    if (t.op == Op.MUL || t.op == Op.MULH) return new Term[] {t};
    if (t.a.length == 0 || (feats(t) & F_PROD) == 0) return NOV;
    Term[] v = products.get(t);
    if (v != null) return v;
    v = NOV;
    for (Term c : t.a) v = merge(v, products(c));
    products.put(t, v);
    return v;
  }

  static final int F_ARITH = 1, F_BITS = 2, F_FP = 4, F_NL = 8, F_UF = 16, F_PROD = 32;

  int feats(Term t) {
    if (t.a.length == 0) return 0;
    Integer r = feats.get(t);
    if (r != null) return r;
    int f = 0;
    for (Term c : t.a) f |= feats(c);
    switch (t.op) {
      case SDIV: case SREM: case UDIV: case UREM:
        f |= t.a[1].isConst() ? F_ARITH : F_NL;
        break;
      case DIG: f |= F_ARITH; break;
      case MUL: f |= F_NL | F_PROD; break;
      case MULH: f |= F_NL | F_BITS | F_PROD; break;
      case AND:
        if (!(t.a[1].isConst() && maskShift(t.a[1].val(), t.w) != null)) f |= F_BITS;
        break;
      case OR: case XOR: f |= F_BITS; break;
      case SHL: f |= F_BITS; break;
      case LSHR: case ASHR:
        if (!t.a[1].isConst()) f |= F_BITS;
        break;
      case UF: f |= F_UF; break;
      case FADD: case FSUB: case FMUL: case FDIV: case FNEG: case F2D: case D2F: case I2F: case L2F: case I2D: case L2D:
      case F2I: case F2L: case D2I: case D2L: case FLT: case FLE: case FEQ:
        f |= F_FP;
        break;
      default:
    }
    feats.put(t, f);
    return f;
  }

  static int[] maskShift(long m, int w) {
    if (w == 32) m &= 0xFFFFFFFFL;
    if (m == 0) return null;
    int s = Long.numberOfTrailingZeros(m);
    long q = m >>> s;
    if ((q & (q + 1)) != 0) return null;
    return new int[] {s, Long.bitCount(q)};
  }

  /** constraints of pc connected to q through shared variables, plus q */
  List<Term> slice(List<Term> pc, Term q) {
    ArrayList<Term> out = new ArrayList<>();
    out.add(q);
    Term[] vs = vars(q);
    HashSet<Term> have = new HashSet<>(Arrays.asList(vs));
    boolean[] in = new boolean[pc.size()];
    boolean ch = true;
    while (ch) {
      ch = false;
      for (int i = 0; i < in.length; i++) {
        if (in[i]) continue;
        Term[] cv = vars(pc.get(i));
        boolean hit = false;
        for (Term v : cv)
          if (have.contains(v)) {
            hit = true;
            break;
          }
        if (hit) {
          in[i] = true;
          out.add(pc.get(i));
          for (Term v : cv) if (have.add(v)) ch = true;
        }
      }
    }
    return out;
  }

  Res check(List<Term> pc, Term q) {
    if (q == tf.F) return R_UNSAT;
    queries++;
    List<Term> s = slice(pc, q);
    int[] ids = new int[s.size()];
    for (int i = 0; i < ids.length; i++) ids[i] = s.get(i).id;
    Arrays.sort(ids);
    Ints key = new Ints(ids);
    Res r = cache.get(key);
    if (r != null) {
      cacheHits++;
      return r;
    }
    r = solve(s);
    if (!opaque || r.st != UNKNOWN) cache.put(key, r);
    if (r.st == UNSAT) discharged++;
    if (r.st == UNKNOWN) unknowns++;
    return r;
  }

  /** all constraints at once, connected or not */
  Res whole(List<Term> pc, Term q) {
    queries++;
    List<Term> s = new ArrayList<>(pc);
    if (q != tf.T) s.add(q);
    Res r = solve(s);
    if (r.st == UNSAT) discharged++;
    if (r.st == UNKNOWN) unknowns++;
    return r;
  }

  Res checkAll(List<Term> pc) {
    Term q = tf.T;
    // solve components one by one
    HashMap<Term, Long> m = new HashMap<>();
    HashSet<Term> done = new HashSet<>();
    for (Term c : pc) {
      if (done.contains(c)) continue;
      List<Term> s = slice(pc, c);
      done.addAll(s);
      Res r = check(pc, c);
      if (r.st != SAT) return r;
      m.putAll(r.model);
    }
    return new Res(SAT, m);
  }

  private boolean holds(List<Term> s, Map<Term, Long> m) {
    TF.Eval ev = new TF.Eval(v -> {
      Long x = m.get(v);
      return x != null ? x : dflt(v);
    });
    try {
      for (Term t : s) if (!ev.bool(t)) return false;
    } catch (IllegalStateException e) {
      return false;
    }
    return true;
  }

  static long dflt(Term v) {
    return v.lo > 0 ? v.lo : v.hi < 0 ? v.hi : 0;
  }

  private Map<Term, Long> restrict(List<Term> s, Map<Term, Long> m) {
    HashMap<Term, Long> r = new HashMap<>();
    for (Term t : s) for (Term v : vars(t)) {
      Long x = m.get(v);
      r.put(v, x != null ? x : dflt(v));
    }
    return r;
  }

  private long special(Term v) {
    long lo = v.lo, hi = v.hi;
    switch (rnd.nextInt(6)) {
      case 0: {
        long x = lo + rnd.nextInt(3);
        return x <= hi && x >= lo ? x : lo;
      }
      case 1: return hi;
      case 2: {
        long b = 1L << rnd.nextInt(63);
        long x = b + rnd.nextInt(5) - 2;
        return x >= lo && x <= hi ? x : clampRnd(lo, hi);
      }
      case 3: {
        long b = TF.P10[rnd.nextInt(19)];
        long x = b + rnd.nextInt(5) - 2;
        return x >= lo && x <= hi ? x : clampRnd(lo, hi);
      }
      default: return clampRnd(lo, hi);
    }
  }

  private long clampRnd(long lo, long hi) {
    long n = hi - lo + 1;
    long r = rnd.nextLong();
    if (n <= 0) return r >= lo && r <= hi ? r : lo;
    return lo + Long.remainderUnsigned(r, n);
  }

  private Res solve(List<Term> s) {
    long t0 = System.nanoTime();
    try {
      int k = 0;
      for (Map<Term, Long> m : recent) {
        if (k++ > 12) break;
        if (holds(s, m)) {
          modelHits++;
          return new Res(SAT, restrict(s, m));
        }
      }
      int f = 0;
      for (Term t : s) f |= feats(t);
      if (opaque && (f & F_PROD) != 0) return R_UNKNOWN;
      if ((f & (F_NL | F_FP | F_BITS)) != 0) {
        Term[] vs = NOV;
        for (Term t : s) vs = merge(vs, vars(t));
        int tries = (f & (F_NL | F_FP)) != 0 ? 60 : 8;
        for (int i = 0; i < tries; i++) {
          HashMap<Term, Long> m = new HashMap<>();
          for (Term v : vs) m.put(v, special(v));
          if (holds(s, m)) {
            modelHits++;
            remember(m);
            return new Res(SAT, m);
          }
        }
      }
      if ((f & F_PROD) != 0) {
        Res r = bv(s, f, timeoutMs, true);
        if (r.st == UNSAT) return r;
        for (Term t : s)
          for (Term v : vars(t)) {
            if (!hints.containsKey(v)) continue;
            HashMap<Term, Long> m = new HashMap<>();
            for (Term t2 : s) for (Term w : vars(t2)) m.put(w, dflt(w));
            for (long x : hints.get(v).get()) {
              m.put(v, x);
              if (holds(s, m)) return new Res(SAT, m);
            }
            break;
          }
      }
      boolean liaOk = (f & (F_BITS | F_FP | F_UF)) == 0;
      Res r = R_UNKNOWN;
      if (liaOk && (f & (F_ARITH | F_NL)) != 0) {
        r = lia(s, timeoutMs);
        if (r.st == UNKNOWN) r = bv(s, f, timeoutMs, false);
      } else {
        r = bv(s, f, timeoutMs, false);
        if (r.st == UNKNOWN && liaOk) r = lia(s, timeoutMs);
      }
      if (r.st == SAT) remember(r.model);
      return r;
    } finally {
      long d = System.nanoTime() - t0;
      nanos += d;
      if (trace && d > 500_000_000L) {
        System.err.println("slow query " + d / 1000000 + "ms");
        for (Term t : s) System.err.println("   " + t);
      }
    }
  }

  private void remember(Map<Term, Long> m) {
    recent.addFirst(m);
    if (recent.size() > 24) recent.removeLast();
  }

  // ------------------------------------------------------------------ z3 drivers
  private Res bv(List<Term> s, int f, int to, boolean free) {
    bvCalls++;
    if (free) {
      HashMap<Term, Expr<?>> keep = bvMemo;
      bvMemo = freeMemo;
      try {
        return bv0(s, f, to, true);
      } finally {
        bvMemo = keep;
      }
    }
    return bv0(s, f, to, false);
  }

  private Res bv0(List<Term> s, int f, int to, boolean free) {
    com.microsoft.z3.Solver z = (f & (F_FP | F_UF)) != 0 ? bvfp : bv;
    try {
      z.reset();
      Params p = ctx.mkParams();
      p.add("timeout", to);
      z.setParameters(p);
      Term[] vs = NOV;
      for (Term t : s) {
        z.add((BoolExpr) bv(t));
        vs = merge(vs, vars(t));
      }
      for (Term v : vs) {
        if (v.lo > TF.min(v.w)) z.add(ctx.mkBVSGE((BitVecExpr) bv(v), ctx.mkBV(v.lo, v.w)));
        if (v.hi < TF.max(v.w)) z.add(ctx.mkBVSLE((BitVecExpr) bv(v), ctx.mkBV(v.hi, v.w)));
      }
      if (free)
        for (Term t : s) for (Term q : products(t)) {
          if (q.lo > TF.min(q.w)) z.add(ctx.mkBVSGE((BitVecExpr) bv(q), ctx.mkBV(q.lo, q.w)));
          if (q.hi < TF.max(q.w)) z.add(ctx.mkBVSLE((BitVecExpr) bv(q), ctx.mkBV(q.hi, q.w)));
        }
      Status st = z.check();
      if (st == Status.UNSATISFIABLE) return R_UNSAT;
      if (st != Status.SATISFIABLE || free) return R_UNKNOWN;
      Model md = z.getModel();
      HashMap<Term, Long> m = new HashMap<>();
      for (Term v : vs) {
        Expr<?> e = md.eval(bv(v), true);
        long x = ((BitVecNum) e).getBigInteger().longValue();
        m.put(v, TF.norm(v.w, x));
      }
      if (holds(s, m)) return new Res(SAT, m);
      return R_UNKNOWN;
    } catch (Z3Exception e) {
      return R_UNKNOWN;
    }
  }

  private Res lia(List<Term> s, int to) {
    liaCalls++;
    try {
      lia.reset();
      Params p = ctx.mkParams();
      p.add("timeout", to);
      lia.setParameters(p);
      Term[] vs = NOV;
      for (Term t : s) {
        lia.add((BoolExpr) li(t));
        vs = merge(vs, vars(t));
      }
      for (Term v : vs) {
        lia.add(ctx.mkGe((IntExpr) li(v), ctx.mkInt(v.lo)), ctx.mkLe((IntExpr) li(v), ctx.mkInt(v.hi)));
      }
      Status st = lia.check();
      if (st == Status.UNSATISFIABLE) return R_UNSAT;
      if (st != Status.SATISFIABLE) return R_UNKNOWN;
      Model md = lia.getModel();
      HashMap<Term, Long> m = new HashMap<>();
      for (Term v : vs) {
        Expr<?> e = md.eval(li(v), true);
        m.put(v, ((IntNum) e).getBigInteger().longValue());
      }
      if (holds(s, m)) return new Res(SAT, m);
      return R_UNKNOWN;
    } catch (Z3Exception | UnsupportedOperationException e) {
      return R_UNKNOWN;
    }
  }

  // ------------------------------------------------------------------ bit-vectors
  private FPSort fps(int w) {
    return w == 64 ? ctx.mkFPSort64() : ctx.mkFPSort32();
  }

  private FPExpr fp(Term t) {
    return ctx.mkFPToFP((BitVecExpr) bv(t), fps(t.w));
  }

  private BitVecExpr ofFp(FPExpr e) {
    return ctx.mkFPToIEEEBV(e);
  }

  private Expr<?> bv(Term t) {
    Expr<?> r = bvMemo.get(t);
    if (r == null) {
      r = bv0(t);
      bvMemo.put(t, r);
    }
    return r;
  }

  private BitVecExpr b(Term t) {
    return (BitVecExpr) bv(t);
  }

  private BitVecExpr toInt(Term a, int w) {
    FPExpr x = fp(a);
    FPRMExpr rtz = ctx.mkFPRoundTowardZero();
    double lim = w == 64 ? 9.223372036854775807E18 : 2147483648.0;
    FPExpr hi = ctx.mkFP(lim, fps(a.w)), lo = ctx.mkFP(-lim, fps(a.w));
    Expr<BitVecSort> conv = ctx.mkFPToBV(rtz, x, w, true);
    return (BitVecExpr) ctx.mkITE(ctx.mkFPIsNaN(x), ctx.mkBV(0, w),
        ctx.mkITE(ctx.mkFPGEq(x, hi), ctx.mkBV(TF.max(w), w),
            ctx.mkITE(ctx.mkFPLEq(x, lo), ctx.mkBV(TF.min(w), w), conv)));
  }

  @SuppressWarnings("unchecked")
  private Expr<?> bv0(Term t) {
    Term[] a = t.a;
    FPRMExpr rne = null;
    switch (t.op) {
      case CONST: return ctx.mkBV(t.val(), t.w);
      case VAR: return ctx.mkBVConst((String) t.x, t.w);
      case TRUE: return ctx.mkTrue();
      case FALSE: return ctx.mkFalse();
      case LIN: {
        BitVecExpr s = t.k[0] == 0 ? null : ctx.mkBV(t.k[0], t.w);
        for (int i = 0; i < a.length; i++) {
          long k = t.k[i + 1];
          BitVecExpr x = b(a[i]);
          if (k == -1) {
            s = s == null ? ctx.mkBVNeg(x) : ctx.mkBVSub(s, x);
            continue;
          }
          if (k != 1) {
            if (k > 0 && (k & (k - 1)) == 0) x = ctx.mkBVSHL(x, ctx.mkBV(Long.numberOfTrailingZeros(k), t.w));
            else x = ctx.mkBVMul(ctx.mkBV(k, t.w), x);
          }
          s = s == null ? x : ctx.mkBVAdd(s, x);
        }
        return s;
      }
      case MUL:
        if (bvMemo == freeMemo) return ctx.mkBVConst("product!" + t.id, t.w);
        return ctx.mkBVMul(b(a[0]), b(a[1]));
      case MULH:
        if (bvMemo == freeMemo) return ctx.mkBVConst("product!" + t.id, t.w);
        return ctx.mkExtract(127, 64, ctx.mkBVMul(ctx.mkSignExt(64, b(a[0])), ctx.mkSignExt(64, b(a[1]))));
      case SDIV: return ctx.mkBVSDiv(b(a[0]), b(a[1]));
      case SREM: return ctx.mkBVSRem(b(a[0]), b(a[1]));
      case UDIV: return ctx.mkBVUDiv(b(a[0]), b(a[1]));
      case UREM: return ctx.mkBVURem(b(a[0]), b(a[1]));
      case SHL: return ctx.mkBVSHL(b(a[0]), b(a[1]));
      case LSHR: return ctx.mkBVLSHR(b(a[0]), b(a[1]));
      case ASHR: return ctx.mkBVASHR(b(a[0]), b(a[1]));
      case AND: return ctx.mkBVAND(b(a[0]), b(a[1]));
      case OR: return ctx.mkBVOR(b(a[0]), b(a[1]));
      case XOR: return ctx.mkBVXOR(b(a[0]), b(a[1]));
      case SX: return ctx.mkSignExt(t.w - (int) t.k[0], ctx.mkExtract((int) t.k[0] - 1, 0, b(a[0])));
      case L2I: return ctx.mkExtract(31, 0, b(a[0]));
      case I2L: return ctx.mkSignExt(32, b(a[0]));
      case ITE: return ctx.mkITE((BoolExpr) bv(a[0]), (Expr<BitVecSort>) bv(a[1]), (Expr<BitVecSort>) bv(a[2]));
      case SELECT: {
        long[] tab = (long[]) t.x;
        int lo = (int) Math.max(0, a[0].lo), hi = (int) Math.min(tab.length - 1, a[0].hi);
        BitVecExpr i = b(a[0]);
        BitVecExpr r = ctx.mkBV(tab[hi], t.w);
        for (int j = hi - 1; j >= lo; j--) {
          if (tab[j] == tab[hi] && j == hi - 1) continue;
          r = (BitVecExpr) ctx.mkITE(ctx.mkEq(i, ctx.mkBV(j, 32)), ctx.mkBV(tab[j], t.w), r);
        }
        return r;
      }
      case DIG: {
        BitVecExpr v = b(a[0]);
        int i = (int) t.k[0];
        BitVecExpr q = i == 0 ? v : i < 19 ? ctx.mkBVUDiv(v, ctx.mkBV(TF.P10[i], 64))
            : ctx.mkBVUDiv(v, (BitVecExpr) ctx.mkBV("10000000000000000000", 64));
        return ctx.mkExtract(31, 0, ctx.mkBVURem(q, ctx.mkBV(10, 64)));
      }
      case NLZ: {
        int w = a[0].w;
        BitVecExpr x = b(a[0]);
        Expr<BitVecSort> r = ctx.mkBV(w, 32);
        for (int i = 0; i < w; i++)
          r = ctx.mkITE(ctx.mkEq(ctx.mkExtract(i, i, x), ctx.mkBV(1, 1)), ctx.mkBV(w - 1 - i, 32), r);
        return r;
      }
      case UF: {
        Sort[] d = new Sort[a.length];
        Expr<?>[] as = new Expr<?>[a.length];
        for (int i = 0; i < a.length; i++) {
          as[i] = bv(a[i]);
          d[i] = as[i].getSort();
        }
        FuncDecl<?> fd = ctx.mkFuncDecl((String) t.x, d, t.w == 0 ? ctx.mkBoolSort() : ctx.mkBitVecSort(t.w));
        return fd.apply(as);
      }
      case EQ: return ctx.mkEq(bv(a[0]), bv(a[1]));
      case SLT: return ctx.mkBVSLT(b(a[0]), b(a[1]));
      case ULT: return ctx.mkBVULT(b(a[0]), b(a[1]));
      case BNOT: return ctx.mkNot((BoolExpr) bv(a[0]));
      case BAND: case BOR: {
        BoolExpr[] as = new BoolExpr[a.length];
        for (int i = 0; i < a.length; i++) as[i] = (BoolExpr) bv(a[i]);
        return t.op == Op.BAND ? ctx.mkAnd(as) : ctx.mkOr(as);
      }
      case FADD: return ofFp(ctx.mkFPAdd(ctx.mkFPRoundNearestTiesToEven(), fp(a[0]), fp(a[1])));
      case FSUB: return ofFp(ctx.mkFPSub(ctx.mkFPRoundNearestTiesToEven(), fp(a[0]), fp(a[1])));
      case FMUL: return ofFp(ctx.mkFPMul(ctx.mkFPRoundNearestTiesToEven(), fp(a[0]), fp(a[1])));
      case FDIV: return ofFp(ctx.mkFPDiv(ctx.mkFPRoundNearestTiesToEven(), fp(a[0]), fp(a[1])));
      case FNEG: return ofFp(ctx.mkFPNeg(fp(a[0])));
      case FLT: return ctx.mkFPLt(fp(a[0]), fp(a[1]));
      case FLE: return ctx.mkFPLEq(fp(a[0]), fp(a[1]));
      case FEQ: return ctx.mkFPEq(fp(a[0]), fp(a[1]));
      case F2D: case D2F: return ofFp(ctx.mkFPToFP(ctx.mkFPRoundNearestTiesToEven(), fp(a[0]), fps(t.w)));
      case I2F: case L2F: case I2D: case L2D:
        return ofFp(ctx.mkFPToFP(ctx.mkFPRoundNearestTiesToEven(), b(a[0]), fps(t.w), true));
      case F2I: case D2I: return toInt(a[0], 32);
      case F2L: case D2L: return toInt(a[0], 64);
      default: throw new IllegalStateException(t.op.toString());
    }
  }

  // ------------------------------------------------------------------ integers
  private static final BigInteger TWO = BigInteger.TWO;

  private IntNum num(BigInteger v) {
    return ctx.mkInt(v.toString());
  }

  private IntNum pow2(int k) {
    return num(TWO.pow(k));
  }

  private IntExpr wrap(ArithExpr<?> e, int w) {
    IntExpr x = (IntExpr) e;
    IntNum h = pow2(w - 1), m = pow2(w);
    return (IntExpr) ctx.mkSub(ctx.mkMod((IntExpr) ctx.mkAdd(x, h), m), h);
  }

  private IntExpr n(Term t) {
    return (IntExpr) li(t);
  }

  private IntExpr unsigned(Term t) {
    if (t.lo >= 0) return n(t);
    IntExpr x = n(t);
    return (IntExpr) ctx.mkITE(ctx.mkLt(x, ctx.mkInt(0)), ctx.mkAdd(x, pow2(t.w)), x);
  }

  private IntExpr signed(IntExpr u, int w) {
    return (IntExpr) ctx.mkITE(ctx.mkGe(u, pow2(w - 1)), ctx.mkSub(u, pow2(w)), u);
  }

  private Expr<?> li(Term t) {
    Expr<?> r = liaMemo.get(t);
    if (r == null) {
      r = li0(t);
      liaMemo.put(t, r);
    }
    return r;
  }

  private IntExpr tdiv(IntExpr x, boolean nonneg, IntExpr c) {
    if (nonneg) return (IntExpr) ctx.mkDiv(x, c);
    return (IntExpr) ctx.mkITE(ctx.mkGe(x, ctx.mkInt(0)), ctx.mkDiv(x, c), ctx.mkUnaryMinus((IntExpr) ctx.mkDiv((IntExpr) ctx.mkUnaryMinus(x), c)));
  }

  @SuppressWarnings("unchecked")
  private Expr<?> li0(Term t) {
    Term[] a = t.a;
    switch (t.op) {
      case CONST: return ctx.mkInt(t.val());
      case VAR: return ctx.mkIntConst("i!" + t.x);
      case TRUE: return ctx.mkTrue();
      case FALSE: return ctx.mkFalse();
      case LIN: {
        BigInteger lo = BigInteger.valueOf(t.k[0]), hi = lo;
        ArithExpr<IntSort>[] xs = new ArithExpr[a.length + 1];
        xs[0] = ctx.mkInt(t.k[0]);
        for (int i = 0; i < a.length; i++) {
          BigInteger k = BigInteger.valueOf(t.k[i + 1]);
          BigInteger p = k.multiply(BigInteger.valueOf(a[i].lo)), q = k.multiply(BigInteger.valueOf(a[i].hi));
          lo = lo.add(p.min(q));
          hi = hi.add(p.max(q));
          xs[i + 1] = t.k[i + 1] == 1 ? n(a[i]) : ctx.mkMul(ctx.mkInt(t.k[i + 1]), n(a[i]));
        }
        IntExpr s = (IntExpr) ctx.mkAdd(xs);
        if (lo.compareTo(BigInteger.valueOf(TF.min(t.w))) >= 0 && hi.compareTo(BigInteger.valueOf(TF.max(t.w))) <= 0) return s;
        return wrap(s, t.w);
      }
      case MUL: {
        IntExpr p = (IntExpr) ctx.mkMul(n(a[0]), n(a[1]));
        if (t.lo > TF.min(t.w) || t.hi < TF.max(t.w)) return p;
        return wrap(p, t.w);
      }
      case MULH: return ctx.mkDiv((IntExpr) ctx.mkMul(n(a[0]), n(a[1])), pow2(64));
      case SDIV:
        if (!a[1].isConst() || a[1].val() <= 0) throw new UnsupportedOperationException();
        return tdiv(n(a[0]), a[0].lo >= 0, n(a[1]));
      case SREM: throw new UnsupportedOperationException();
      case UDIV:
        if (!a[1].isConst() || a[1].val() <= 0) throw new UnsupportedOperationException();
        return signed((IntExpr) ctx.mkDiv(unsigned(a[0]), n(a[1])), t.w);
      case UREM:
        if (!a[1].isConst() || a[1].val() <= 0) throw new UnsupportedOperationException();
        return ctx.mkMod(unsigned(a[0]), n(a[1]));
      case LSHR: {
        if (!a[1].isConst()) throw new UnsupportedOperationException();
        return ctx.mkDiv(unsigned(a[0]), pow2((int) a[1].val()));
      }
      case ASHR: {
        if (!a[1].isConst()) throw new UnsupportedOperationException();
        return ctx.mkDiv(n(a[0]), pow2((int) a[1].val()));
      }
      case AND: {
        if (!a[1].isConst()) throw new UnsupportedOperationException();
        int[] ms = maskShift(a[1].val(), t.w);
        if (ms == null) throw new UnsupportedOperationException();
        IntExpr x = n(a[0]);
        if (ms[0] > 0) x = (IntExpr) ctx.mkDiv(x, pow2(ms[0]));
        x = ctx.mkMod(x, pow2(ms[1]));
        if (ms[0] > 0) x = (IntExpr) ctx.mkMul(x, pow2(ms[0]));
        return ms[0] + ms[1] == t.w ? signed(x, t.w) : x;
      }
      case SX: return wrap(n(a[0]), (int) t.k[0]);
      case L2I:
        if (a[0].lo >= Integer.MIN_VALUE && a[0].hi <= Integer.MAX_VALUE) return n(a[0]);
        return wrap(n(a[0]), 32);
      case I2L: return n(a[0]);
      case ITE: return ctx.mkITE((BoolExpr) li(a[0]), (Expr<IntSort>) li(a[1]), (Expr<IntSort>) li(a[2]));
      case SELECT: {
        long[] tab = (long[]) t.x;
        int lo = (int) Math.max(0, a[0].lo), hi = (int) Math.min(tab.length - 1, a[0].hi);
        if (hi - lo > 700) throw new UnsupportedOperationException();
        IntExpr i = n(a[0]);
        Expr<IntSort> r = ctx.mkInt(tab[hi]);
        for (int j = hi - 1; j >= lo; j--) r = ctx.mkITE(ctx.mkEq(i, ctx.mkInt(j)), ctx.mkInt(tab[j]), r);
        return r;
      }
      case DIG: {
        int i = (int) t.k[0];
        IntExpr v = unsigned(a[0]);
        if (i > 0) v = (IntExpr) ctx.mkDiv(v, num(BigInteger.TEN.pow(i)));
        return ctx.mkMod(v, ctx.mkInt(10));
      }
      case NLZ: {
        IntExpr x = unsigned(a[0]);
        int w = a[0].w;
        Expr<IntSort> r = ctx.mkInt(w);
        for (int i = 0; i < w; i++) r = ctx.mkITE(ctx.mkGe(x, pow2(i)), ctx.mkInt(w - 1 - i), r);
        return r;
      }
      case EQ: return ctx.mkEq(li(a[0]), li(a[1]));
      case SLT: return ctx.mkLt(n(a[0]), n(a[1]));
      case ULT: return ctx.mkLt(unsigned(a[0]), unsigned(a[1]));
      case BNOT: return ctx.mkNot((BoolExpr) li(a[0]));
      case BAND: case BOR: {
        BoolExpr[] as = new BoolExpr[a.length];
        for (int i = 0; i < a.length; i++) as[i] = (BoolExpr) li(a[i]);
        return t.op == Op.BAND ? ctx.mkAnd(as) : ctx.mkOr(as);
      }
      default: throw new UnsupportedOperationException(t.op.toString());
    }
  }
}
