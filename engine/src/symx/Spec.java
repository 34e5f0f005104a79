package symx;

import java.util.*;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.tree.FieldInsnNode;

/**
 * If-conversion: executes both sides of a symbolic branch up to the point where they meet, when both
 * are short and free of calls, allocations and possible exceptions, and merges the results with
 * conditional terms instead of splitting the path.
 */
final class Spec {
  /** control-flow facts of a method: immediate post-dominators and live locals at each instruction */
  static final class Flow {
    final int[] ipdom;
    final long[] live;

    Flow(int[] d, long[] l) {
      ipdom = d;
      live = l;
    }
  }

  static final Flow NONE = new Flow(null, null);
  private static final int LIMIT = 48;

  static Flow flow(Meth m) {
    int n = m.code.length;
    if (n > 600 || m.maxLocals > 64) return NONE;
    int[][] succ = new int[n][];
    for (int i = 0; i < n; i++) {
      Insn in = m.code[i];
      int op = in.op;
      if (op >= Opcodes.IRETURN && op <= Opcodes.RETURN || op == Opcodes.ATHROW) succ[i] = new int[] {n};
      else if (op == Opcodes.GOTO) succ[i] = new int[] {in.i};
      else if (op >= Opcodes.IFEQ && op <= Opcodes.IF_ACMPNE || op == Opcodes.IFNULL || op == Opcodes.IFNONNULL)
        succ[i] = new int[] {i + 1, in.i};
      else if (op == Opcodes.LOOKUPSWITCH) {
        int[] t = ((int[][]) in.x)[1];
        succ[i] = Arrays.copyOf(t, t.length + 1);
        succ[i][t.length] = in.i;
      } else succ[i] = new int[] {i + 1};
    }
    // post-dominator sets
    BitSet[] pd = new BitSet[n + 1];
    for (int i = 0; i <= n; i++) {
      pd[i] = new BitSet(n + 1);
      if (i < n) pd[i].set(0, n + 1);
      else pd[i].set(n);
    }
    boolean ch = true;
    while (ch) {
      ch = false;
      for (int i = n - 1; i >= 0; i--) {
        BitSet b = (BitSet) pd[succ[i][0]].clone();
        for (int k = 1; k < succ[i].length; k++) b.and(pd[succ[i][k]]);
        b.set(i);
        if (!b.equals(pd[i])) {
          pd[i] = b;
          ch = true;
        }
      }
    }
    int[] ip = new int[n];
    for (int i = 0; i < n; i++) {
      ip[i] = -1;
      if (succ[i].length < 2) continue;
      // the nearest strict post-dominator is the one with the largest post-dominator set
      int best = -1;
      for (int j = pd[i].nextSetBit(0); j >= 0; j = pd[i].nextSetBit(j + 1))
        if (j != i && (best < 0 || pd[j].cardinality() > pd[best].cardinality())) best = j;
      ip[i] = best;
    }
    long[] live = new long[n + 1];
    ch = true;
    while (ch) {
      ch = false;
      for (int i = n - 1; i >= 0; i--) {
        long v = 0;
        for (int k : succ[i]) v |= live[k];
        for (Handler h : m.handlers) if (i >= h.start && i < h.end) v |= live[h.target];
        Insn in = m.code[i];
        if (in.op >= Opcodes.ISTORE && in.op <= Opcodes.ASTORE) v &= ~(1L << in.i);
        else if (in.op >= Opcodes.ILOAD && in.op <= Opcodes.ALOAD || in.op == Opcodes.IINC) v |= 1L << in.i;
        if (v != live[i]) {
          live[i] = v;
          ch = true;
        }
      }
    }
    return new Flow(ip, live);
  }

  private static final class St {
    Object[] l, s;
    int sp, pc;
    Object ret;
    ArrayList<Object[]> w = new ArrayList<>(); // {array, index, value}

    St(Object[] l, Object[] s, int sp, int pc) {
      this.l = l;
      this.s = s;
      this.sp = sp;
      this.pc = pc;
    }

    St copy(int pc) {
      St c = new St(l.clone(), s.clone(), sp, pc);
      c.w.addAll(w);
      return c;
    }

    Object read(Arr a, int i) {
      for (int k = w.size() - 1; k >= 0; k--) {
        Object[] x = w.get(k);
        if (x[0] == a && (Integer) x[1] == i) return x[2];
      }
      if (a.e != null) return a.e[i];
      return ((Rope) a.x).ch[i];
    }
  }

  private static final class Fail extends RuntimeException {
    Fail() {
      super(null, null, false, false);
    }
  }

  private static final Fail FAIL = new Fail();

  final Engine e;
  int fuel;
  int sp;
  Object ret;
  long merged;

  Spec(Engine e) {
    this.e = e;
  }

  /** pc to continue at (code length: return this.ret), or -1 if the branch has to be decided */
  int merge(Meth m, int pc, Term c, Object[] l, Object[] s, int sp) {
    if (m.flow == null) m.flow = flow(m);
    if (m.flow == NONE || m.flow.ipdom[pc] < 0) return -1;
    Insn in = m.code[pc];
    if (in.noMerge == 0) in.noMerge = dead(m, in.i, m.flow.ipdom[pc]) || dead(m, pc + 1, m.flow.ipdom[pc]) || in.i <= pc ? 2 : 1;
    if (in.noMerge == 2) return -1;
    fuel = LIMIT;
    try {
      St st = new St(l, s, sp, pc);
      St r = branch(m, st, c);
      System.arraycopy(r.l, 0, l, 0, l.length);
      System.arraycopy(r.s, 0, s, 0, r.sp);
      for (Object[] w : r.w) {
        Arr a = (Arr) w[0];
        e.write(a, e.elems(a), (Integer) w[1], w[2]);
      }
      this.sp = r.sp;
      this.ret = r.ret;
      merged++;
      return r.pc;
    } catch (Fail f) {
      return -1;
    }
  }

  /** whether straight-line execution from pc meets an instruction that cannot be merged */
  private static boolean dead(Meth m, int pc, int join) {
    while (pc != join) {
      if (pc >= m.code.length) return true;
      Insn in = m.code[pc];
      int op = in.op;
      if (op == Opcodes.GOTO) {
        if (in.i <= pc) return true;
        pc = in.i;
        continue;
      }
      if (op >= Opcodes.IFEQ && op <= Opcodes.IF_ICMPLE || op == Opcodes.IFNULL || op == Opcodes.IFNONNULL) return false;
      if (op == Opcodes.IRETURN || op == Opcodes.LRETURN || op == Opcodes.ARETURN || op == Opcodes.RETURN) return join != m.code.length;
      if (!OK.get(op)) return true;
      pc++;
    }
    return false;
  }

  private static final BitSet OK = new BitSet();

  static {
    for (int op : new int[] {
      Opcodes.NOP, Opcodes.ACONST_NULL, Opcodes.BIPUSH, Opcodes.SIPUSH, Opcodes.LDC, Opcodes.LCONST_0, Opcodes.LCONST_1, Opcodes.ILOAD, Opcodes.LLOAD,
      Opcodes.ALOAD, Opcodes.ISTORE, Opcodes.LSTORE, Opcodes.ASTORE, Opcodes.IINC, Opcodes.POP, Opcodes.DUP, Opcodes.CALOAD, Opcodes.IALOAD,
      Opcodes.BALOAD, Opcodes.LALOAD, Opcodes.SALOAD, Opcodes.CASTORE, Opcodes.IASTORE, Opcodes.LASTORE, Opcodes.GETFIELD, Opcodes.IADD, Opcodes.LADD,
      Opcodes.ISUB, Opcodes.LSUB, Opcodes.IAND, Opcodes.LAND, Opcodes.IOR, Opcodes.LOR, Opcodes.IXOR, Opcodes.LXOR, Opcodes.INEG, Opcodes.LNEG,
      Opcodes.ISHL, Opcodes.ISHR, Opcodes.IUSHR, Opcodes.LSHL, Opcodes.LSHR, Opcodes.LUSHR, Opcodes.I2L, Opcodes.L2I, Opcodes.I2B, Opcodes.I2S,
      Opcodes.I2C, Opcodes.LCMP})
      OK.set(op);
    OK.set(Opcodes.ICONST_M1, Opcodes.ICONST_5 + 1);
  }

  /** both sides of the branch at st.pc, merged at its join point */
  private St branch(Meth m, St st, Term c) {
    int join = m.flow.ipdom[st.pc];
    if (join < 0) throw FAIL;
    Insn in = m.code[st.pc];
    if (in.i <= st.pc) throw FAIL; // loop
    St a = run(m, st.copy(in.i), join), b = run(m, st.copy(st.pc + 1), join);
    St r = b;
    if (join == m.code.length) {
      r.ret = ite(c, a.ret, b.ret);
    } else {
      if (a.sp != b.sp) throw FAIL;
      for (int i = 0; i < a.sp; i++) r.s[i] = ite(c, a.s[i], b.s[i]);
      long live = m.flow.live[join];
      for (int i = 0; i < a.l.length; i++) if ((live >>> i & 1) != 0) r.l[i] = ite(c, a.l[i], b.l[i]);
    }
    LinkedHashSet<List<Object>> keys = new LinkedHashSet<>();
    for (Object[] w : a.w) keys.add(Arrays.asList(w[0], w[1]));
    for (Object[] w : b.w) keys.add(Arrays.asList(w[0], w[1]));
    ArrayList<Object[]> ws = new ArrayList<>();
    for (List<Object> k : keys) {
      Arr x = (Arr) k.get(0);
      int i = (Integer) k.get(1);
      ws.add(new Object[] {x, i, ite(c, a.read(x, i), b.read(x, i))});
    }
    r.w = ws;
    r.pc = join;
    return r;
  }

  private Object ite(Term c, Object x, Object y) {
    if (x == y) return x;
    if (x == null || y == null) throw FAIL;
    if (x.equals(y) && !(x instanceof Obj)) return x;
    boolean nx = x instanceof Integer || x instanceof Long || x instanceof Term, ny = y instanceof Integer || y instanceof Long || y instanceof Term;
    if (!nx || !ny) throw FAIL;
    Term p = e.t(x), q = e.t(y);
    if (p.w != q.w || p.w == 0) throw FAIL;
    if (p == q) return x;
    // characters, truth values and comparison results; splitting the path is better for numbers
    if (p.lo < -1 || p.hi > 65535 || q.lo < -1 || q.hi > 65535) throw FAIL;
    return e.tf.ite(c, p, q);
  }

  private static boolean num(Object o) {
    return o instanceof Integer || o instanceof Long || o instanceof Term;
  }

  private St run(Meth m, St st, int join) {
    Object[] l = st.l, s = st.s;
    TF tf = e.tf;
    while (st.pc != join) {
      if (st.pc >= m.code.length || --fuel < 0) throw FAIL;
      Insn in = m.code[st.pc];
      int op = in.op;
      int sp = st.sp;
      switch (op) {
        case Opcodes.NOP: break;
        case Opcodes.ACONST_NULL: s[sp++] = null; break;
        case Opcodes.ICONST_M1: case Opcodes.ICONST_0: case Opcodes.ICONST_1: case Opcodes.ICONST_2:
        case Opcodes.ICONST_3: case Opcodes.ICONST_4: case Opcodes.ICONST_5: s[sp++] = op - Opcodes.ICONST_0; break;
        case Opcodes.LCONST_0: s[sp++] = 0L; break;
        case Opcodes.LCONST_1: s[sp++] = 1L; break;
        case Opcodes.BIPUSH: case Opcodes.SIPUSH: s[sp++] = in.i; break;
        case Opcodes.LDC:
          if (!(in.x instanceof Integer) && !(in.x instanceof Long)) throw FAIL;
          s[sp++] = in.x;
          break;
        case Opcodes.ILOAD: case Opcodes.LLOAD: case Opcodes.ALOAD: s[sp++] = l[in.i]; break;
        case Opcodes.ISTORE: case Opcodes.LSTORE: case Opcodes.ASTORE: l[in.i] = s[--sp]; break;
        case Opcodes.IINC: l[in.i] = e.I(tf.add(e.t(l[in.i]), tf.cst(32, in.j))); break;
        case Opcodes.POP: sp--; break;
        case Opcodes.DUP: s[sp] = s[sp - 1]; sp++; break;
        case Opcodes.CALOAD: case Opcodes.IALOAD: case Opcodes.BALOAD: case Opcodes.LALOAD: case Opcodes.SALOAD: {
          sp--;
          Arr a = (Arr) s[sp - 1];
          s[sp - 1] = st.read(a, index(a, s[sp]));
          break;
        }
        case Opcodes.CASTORE: case Opcodes.IASTORE: case Opcodes.LASTORE: {
          sp -= 3;
          Arr a = (Arr) s[sp];
          int i = index(a, s[sp + 1]);
          Object v = s[sp + 2];
          if (!num(v)) throw FAIL;
          if (op == Opcodes.CASTORE) v = v instanceof Integer ? (Object) (int) (char) (int) (Integer) v : e.I(e.i2c((Term) v));
          st.w.add(new Object[] {a, i, v});
          break;
        }
        case Opcodes.GETFIELD: {
          FieldInsnNode fi = (FieldInsnNode) in.x;
          Fld f = in.cache != null ? (Fld) in.cache : e.klass(fi.owner).field(fi.name);
          Obj o = (Obj) s[sp - 1];
          if (f == null || o == null || o.x != null || o.merged) throw FAIL;
          s[sp - 1] = o.f[f.slot];
          break;
        }
        case Opcodes.IADD: case Opcodes.LADD: sp--; s[sp - 1] = e.I(tf.add(e.t(s[sp - 1]), e.t(s[sp]))); break;
        case Opcodes.ISUB: case Opcodes.LSUB: sp--; s[sp - 1] = e.I(tf.sub(e.t(s[sp - 1]), e.t(s[sp]))); break;
        case Opcodes.IAND: case Opcodes.LAND: sp--; s[sp - 1] = e.I(tf.and(e.t(s[sp - 1]), e.t(s[sp]))); break;
        case Opcodes.IOR: case Opcodes.LOR: sp--; s[sp - 1] = e.I(tf.or(e.t(s[sp - 1]), e.t(s[sp]))); break;
        case Opcodes.IXOR: case Opcodes.LXOR: sp--; s[sp - 1] = e.I(tf.xor(e.t(s[sp - 1]), e.t(s[sp]))); break;
        case Opcodes.INEG: case Opcodes.LNEG: s[sp - 1] = e.I(tf.neg(e.t(s[sp - 1]))); break;
        case Opcodes.ISHL: case Opcodes.ISHR: case Opcodes.IUSHR: case Opcodes.LSHL: case Opcodes.LSHR: case Opcodes.LUSHR:
          sp--;
          if (!(s[sp] instanceof Integer)) throw FAIL;
          s[sp - 1] = e.shift(s[sp - 1], s[sp], op);
          break;
        case Opcodes.I2L: s[sp - 1] = e.I(tf.i2l(e.t(s[sp - 1]))); break;
        case Opcodes.L2I: s[sp - 1] = e.I(tf.l2i(e.t(s[sp - 1]))); break;
        case Opcodes.I2B: s[sp - 1] = e.I(tf.sx(e.t(s[sp - 1]), 8)); break;
        case Opcodes.I2S: s[sp - 1] = e.I(tf.sx(e.t(s[sp - 1]), 16)); break;
        case Opcodes.I2C: {
          Object a = s[sp - 1];
          s[sp - 1] = a instanceof Integer ? (Object) (int) (char) (int) (Integer) a : e.I(e.i2c((Term) a));
          break;
        }
        case Opcodes.LCMP: {
          sp--;
          Term x = e.t(s[sp - 1]), y = e.t(s[sp]);
          s[sp - 1] = e.I(tf.ite(tf.slt(x, y), tf.cst(32, -1), tf.ite(tf.eq(x, y), tf.cst(32, 0), tf.cst(32, 1))));
          break;
        }
        case Opcodes.GOTO:
          if (in.i <= st.pc) throw FAIL;
          st.pc = in.i;
          continue;
        case Opcodes.IFEQ: case Opcodes.IFNE: case Opcodes.IFLT: case Opcodes.IFGE: case Opcodes.IFGT: case Opcodes.IFLE:
        case Opcodes.IF_ICMPEQ: case Opcodes.IF_ICMPNE: case Opcodes.IF_ICMPLT: case Opcodes.IF_ICMPGE: case Opcodes.IF_ICMPGT: case Opcodes.IF_ICMPLE: {
          Term c;
          if (op <= Opcodes.IFLE) {
            Object a = s[--sp];
            c = e.cmp0(e.t(a), op);
          } else {
            sp -= 2;
            c = e.icmp(e.t(s[sp]), e.t(s[sp + 1]), op);
          }
          st.sp = sp;
          int q = e.quick(c, 6);
          if (q >= 0) {
            if (q == 1 && in.i <= st.pc) throw FAIL;
            st.pc = q == 1 ? in.i : st.pc + 1;
            continue;
          }
          St r = branch(m, st, c);
          st.l = l = r.l;
          st.s = s = r.s;
          st.sp = r.sp;
          st.w = r.w;
          st.ret = r.ret;
          st.pc = r.pc;
          continue;
        }
        case Opcodes.IFNULL: case Opcodes.IFNONNULL: {
          boolean n = s[--sp] == null;
          st.sp = sp;
          if (n == (op == Opcodes.IFNULL)) {
            if (in.i <= st.pc) throw FAIL;
            st.pc = in.i;
          } else st.pc++;
          continue;
        }
        case Opcodes.IRETURN: case Opcodes.LRETURN: case Opcodes.ARETURN:
          st.ret = s[--sp];
          st.sp = sp;
          st.pc = m.code.length;
          continue;
        case Opcodes.RETURN:
          st.pc = m.code.length;
          continue;
        default:
          throw FAIL;
      }
      st.sp = sp;
      st.pc++;
    }
    return st;
  }

  private int index(Arr a, Object i) {
    if (a == null || !(i instanceof Integer)) throw FAIL;
    int k = (Integer) i;
    int n;
    if (a.e != null) n = a.e.length;
    else {
      Rope r = (Rope) a.x;
      if (!r.unitsOnly()) throw FAIL;
      n = r.ch.length;
    }
    if (k < 0 || k >= n) throw FAIL;
    return k;
  }
}
