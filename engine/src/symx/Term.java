package symx;

/** Immutable, hash-consed bit-vector / boolean term. Width 0 means Bool. */
public final class Term {
  public enum Op {
    CONST, VAR, LIN, MUL, MULH, SDIV, SREM, UDIV, UREM, SHL, LSHR, ASHR, AND, OR, XOR,
    SX, L2I, I2L, ITE, SELECT, DIG, NLZ, UF,
    TRUE, FALSE, EQ, SLT, ULT, BNOT, BAND, BOR,
    FADD, FSUB, FMUL, FDIV, FNEG, F2D, D2F, I2F, L2F, I2D, L2D, F2I, F2L, D2I, D2L,
    FLT, FLE, FEQ
  }

  public final Op op;
  public final int w;
  public final Term[] a;
  public final long[] k;
  public final Object x;
  public final int id;
  /** signed interval (only meaningful for w > 0). */
  public final long lo, hi;
  private final int hash;
  /** true if the term mentions floating point, DIG/UF, etc.; set by the factory. */
  public final int size;

  Term(Op op, int w, Term[] a, long[] k, Object x, int id, long lo, long hi, int hash) {
    this.op = op;
    this.w = w;
    this.a = a;
    this.k = k;
    this.x = x;
    this.id = id;
    this.lo = lo;
    this.hi = hi;
    this.hash = hash;
    int s = 1;
    for (Term t : a) s = (int) Math.min(1_000_000_000L, (long) s + t.size);
    this.size = s;
  }

  @Override
  public int hashCode() {
    return hash;
  }

  @Override
  public boolean equals(Object o) {
    return this == o;
  }

  public boolean isConst() {
    return op == Op.CONST;
  }

  public long val() {
    return k[0];
  }

  @Override
  public String toString() {
    return str(6);
  }

  String str(int depth) {
    switch (op) {
      case CONST:
        return Long.toString(k[0]);
      case VAR:
        return (String) x;
      case TRUE:
        return "true";
      case FALSE:
        return "false";
      default:
    }
    if (depth == 0) return "..";
    StringBuilder sb = new StringBuilder("(").append(op);
    if (op == Op.LIN) {
      for (int i = 0; i < a.length; i++) sb.append(' ').append(k[i + 1]).append('*').append(a[i].str(depth - 1));
      sb.append(" + ").append(k[0]);
    } else {
      if (x != null && !(x instanceof long[])) sb.append(':').append(x);
      if (k != null) for (long v : k) sb.append('#').append(v);
      for (Term t : a) sb.append(' ').append(t.str(depth - 1));
    }
    return sb.append(')').toString();
  }
}
