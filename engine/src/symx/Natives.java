package symx;

import org.objectweb.asm.tree.InnerClassNode;
import java.math.BigInteger;
import java.util.*;
import symx.Term.Op;

/** Models of JDK methods: text as ropes, number-to-text conversions as digit terms, runtime services. */
final class Natives {
  private Natives() {}

  static final String S = "java/lang/String", LS = "Ljava/lang/String;", CS = "Ljava/lang/CharSequence;", O = "Ljava/lang/Object;";

  /** builder payload; capacity is resolved lazily from the growth requests since cap0 */
  static final class SB {
    final Rope r;
    final int cap0;
    final Object[] pend;

    SB(Rope r, int cap0, Object[] pend) {
      this.r = r;
      this.cap0 = cap0;
      this.pend = pend;
    }

    SB with(Rope n, Object min) {
      if (pend.length == 0 && min instanceof Integer) {
        int m = (Integer) min;
        return new SB(n, m > cap0 ? Math.max(cap0 * 2 + 2, m) : cap0, pend);
      }
      Object[] p = Arrays.copyOf(pend, pend.length + 1);
      p[p.length - 1] = min;
      return new SB(n, cap0, p);
    }
  }

  static final Object[] NONE = new Object[0];

  static SB sb(Object o) {
    Obj b = (Obj) o;
    if (b.x == null) throw new Unsupported("uninitialised builder");
    return (SB) b.x;
  }

  static void append(Engine e, Object o, Rope r) {
    SB b = sb(o);
    Rope n = Rope.concat(e, b.r, r);
    e.payload((Obj) o, b.with(n, n.len));
  }

  static void setRope(Engine e, Object o, Rope r) {
    SB b = sb(o);
    e.payload((Obj) o, new SB(r, b.cap0, b.pend));
  }

  static Object capacity(Engine e, Object o) {
    SB b = sb(o);
    if (b.pend.length == 0) return b.cap0;
    Object cap = b.cap0;
    for (Object m : b.pend) {
      if (e.decide(e.ilt(cap, m))) {
        Object dbl = e.I(e.tf.lin(32, e.t(cap), 2, null, 0, 2));
        cap = e.decide(e.ilt(dbl, m)) ? m : dbl;
      }
    }
    return cap;
  }

  static Rope text(Engine e, Object o) {
    if (o == null) return Rope.of("null");
    Obj x = (Obj) o;
    if (x.x instanceof Rope && x.k.name.equals(S)) return (Rope) x.x;
    if (x.x instanceof SB) return ((SB) x.x).r;
    Object s = e.callVirtual(o, "toString()" + LS);
    return s == null ? Rope.of("null") : e.rope(s);
  }

  /** text of a CharSequence through its own methods */
  static Rope seqText(Engine e, Object o) {
    if (o == null) return Rope.of("null");
    Obj x = (Obj) o;
    if (x.x instanceof Rope && x.k.name.equals(S)) return (Rope) x.x;
    if (x.x instanceof SB) return ((SB) x.x).r;
    int n = e.concretize(e.callVirtual(o, "length()I"), "char sequence length");
    Object[] c = new Object[n];
    for (int i = 0; i < n; i++) c[i] = e.callVirtual(o, "charAt(I)C", i);
    return Rope.units(c);
  }

  // ------------------------------------------------------------ numbers to text
  static Object[] decimal(Engine e, Term mag) {
    // mag is an unsigned 64-bit magnitude
    if (mag.w == 32) mag = e.tf.i2l(mag);
    if (mag.isConst()) return Rope.of(Long.toUnsignedString(mag.val())).ch;
    int n = 1;
    if (e.decide(e.tf.slt(mag, e.tf.cst(64, 0)))) {
      n = e.decide(e.tf.ult(mag, e.tf.cst(64, -8446744073709551616L))) ? 19 : 20;
    } else {
      while (n < 19 && !e.decide(e.tf.slt(mag, e.tf.cst(64, TF.P10[n])))) n++;
    }
    Object[] c = new Object[n];
    for (int i = 0; i < n; i++) c[i] = e.iadd(e.I(e.tf.dig(mag, n - 1 - i)), 48);
    return c;
  }

  static Rope signed(Engine e, Term v, long min) {
    if (v.isConst()) return Rope.of(Long.toString(v.val()));
    if (!e.decide(e.tf.slt(v, e.tf.cst(v.w, 0)))) return Rope.units(decimal(e, v));
    if (e.decide(e.tf.eq(v, e.tf.cst(v.w, min)))) return Rope.of(Long.toString(min));
    Object[] d = decimal(e, e.tf.neg(v));
    Object[] r = new Object[d.length + 1];
    r[0] = 45;
    System.arraycopy(d, 0, r, 1, d.length);
    return Rope.units(r);
  }

  /** text of an unsigned value in radix 2^shift */
  static Rope radix(Engine e, Term v, int shift) {
    int w = v.w;
    int n = 1;
    TF tf = e.tf;
    int max = (w + shift - 1) / shift;
    if (e.decide(tf.slt(v, tf.cst(w, 0)))) n = max;
    else while (n < max && n * shift < w - 1 && !e.decide(tf.slt(v, tf.cst(w, 1L << (n * shift))))) n++;
    Object[] c = new Object[n];
    long[] hex = new long[1 << shift];
    for (int i = 0; i < hex.length; i++) hex[i] = "0123456789abcdef".charAt(i);
    for (int i = 0; i < n; i++) {
      int s = (n - 1 - i) * shift;
      Term d = tf.and(tf.lshr(v, tf.cst(w, s)), tf.cst(w, (1 << shift) - 1));
      if (w == 64) d = tf.l2i(d);
      c[i] = e.I(tf.select(32, tf.internTable(hex), d));
    }
    return Rope.units(c);
  }

  // ------------------------------------------------------------ big integers
  /** sign and magnitude; magnitude is a host value, an unsigned 64-bit term or decimal digits */
  static final class Big {
    final int sign;
    final Object mag;

    Big(int sign, Object mag) {
      this.sign = sign;
      this.mag = mag;
    }
  }

  static Big big(Engine e, Object o) {
    Obj b = (Obj) o;
    if (b == null) throw e.thr("java/lang/NullPointerException", null);
    if (b.x == null) throw new Unsupported("uninitialised BigInteger");
    return (Big) b.x;
  }

  static Obj mkBig(Engine e, Big b) {
    Klass k = e.klass("java/math/BigInteger");
    Obj o = e.alloc(k);
    o.x = b;
    return o;
  }

  static Big hostBig(BigInteger v) {
    return new Big(v.signum(), v.abs());
  }

  static Big bigOf(Engine e, Object v) {
    if (v instanceof Long) return hostBig(BigInteger.valueOf((Long) v));
    Term t = (Term) v;
    if (e.decide(e.tf.eq(t, e.tf.cst(64, 0)))) return new Big(0, BigInteger.ZERO);
    if (e.decide(e.tf.slt(t, e.tf.cst(64, 0)))) return new Big(-1, e.tf.neg(t));
    return new Big(1, t);
  }

  static BigInteger hostOf(Big b) {
    if (b.mag instanceof BigInteger) return b.sign < 0 ? ((BigInteger) b.mag).negate() : (BigInteger) b.mag;
    throw new Unsupported("arithmetic on a symbolic big integer");
  }

  static boolean isHost(Big b) {
    return b.mag instanceof BigInteger;
  }

  static Rope bigText(Engine e, Big b, int radix) {
    if (isHost(b)) return Rope.of(hostOf(b).toString(radix));
    Rope r;
    if (b.mag instanceof Term) {
      if (radix == 10) r = Rope.units(decimal(e, (Term) b.mag));
      else if (radix == 16) r = radix(e, (Term) b.mag, 4);
      else if (radix == 8) r = radix(e, (Term) b.mag, 3);
      else throw new Unsupported("radix " + radix);
    } else {
      Object[] d = (Object[]) b.mag;
      if (radix != (Integer) d[0]) throw new Unsupported("radix " + radix + " of a digit-string integer");
      r = (Rope) d[1];
    }
    return b.sign < 0 ? Rope.concat(e, Rope.of("-"), r) : r;
  }

  // ------------------------------------------------------------ method handles
  static Object invokeHandle(Engine e, Obj mh, Object[] a) {
    if (mh == null) throw e.thr("java/lang/NullPointerException", null);
    String n = (String) mh.x;
    switch (n) {
      case "StringBuilder.repeat": {
        Object cnt = e.simp(a[3]);
        if (e.decide(e.ilt(cnt, 0))) throw e.thr("java/lang/IllegalArgumentException", "count is negative");
        // code points below 0x10000 are appended as one char
        Object cp = a[2];
        if (e.decide(e.ilt(0xFFFF, cp))) throw new Unsupported("supplementary code point in repeat");
        append(e, a[1], Rope.run(cp, cnt));
        return a[1];
      }
      case "Math.multiplyHigh":
        return mulh(e, a[1], a[2]);
      default:
        throw new Unsupported("method handle " + n);
    }
  }

  static Object mulh(Engine e, Object x, Object y) {
    if (x instanceof Long && y instanceof Long) return Math.multiplyHigh((Long) x, (Long) y);
    return e.I(e.tf.mulh(e.t(x), e.t(y)));
  }

  private static void reg(Engine e, String sig, Native n) {
    e.natives.put(sig, n);
  }

  static void register(Engine e0) {
    HashMap<String, Native> m = e0.natives;
    SymNatives.register(m);
    TimeNatives.register(m);

    // -------------------------------------------------------- java.lang.Object / Class / System
    m.put("java/lang/Object.<init>()V", (e, a) -> null);
    m.put("java/lang/Object.getClass()Ljava/lang/Class;", (e, a) -> e.mirror(((Obj) a[0]).k));
    m.put("java/lang/Object.hashCode()I", (e, a) -> {
      Obj o = (Obj) a[0];
      if (o.idHash == null) o.idHash = o.base ? 7919 : 7919 + o.owner;
      return o.idHash;
    });
    m.put("java/lang/System.identityHashCode(" + O + ")I", (e, a) -> {
      Obj o = (Obj) a[0];
      if (o == null) return 0;
      if (o.base || o.merged) throw new Unsupported("identity hash of a shared object");
      if (!(o.idHash instanceof Term)) {
        e.validate = false;
        o.idHash = e.tf.var(e.fresh("identityHash"), 32, 0, Integer.MAX_VALUE);
      }
      return o.idHash;
    });
    m.put("java/lang/Object.registerNatives()V", (e, a) -> null);
    m.put("java/lang/Object.clone()" + O, (e, a) -> {
      Obj o = (Obj) a[0];
      if (o instanceof Arr) {
        Arr r = (Arr) o;
        return r.e == null ? lazyCopy(e, r) : e.arr(r.k, r.e.clone());
      }
      Obj c = new Obj(o.k, o.f.length);
      System.arraycopy(o.f, 0, c.f, 0, o.f.length);
      c.x = o.x;
      c.base = e.initDepth > 0;
      c.owner = e.nextId++;
      return c;
    });
    m.put("java/lang/Class.registerNatives()V", (e, a) -> null);
    m.put("java/lang/Class.desiredAssertionStatus()Z", (e, a) -> 0);
    m.put("java/lang/Class.isInstance(" + O + ")Z", (e, a) -> a[1] != null && ((Obj) a[1]).k.subOf((Klass) ((Obj) a[0]).x) ? 1 : 0);
    m.put("java/lang/Class.isArray()Z", (e, a) -> ((Klass) ((Obj) a[0]).x).isArray() ? 1 : 0);
    m.put("java/lang/Class.isInterface()Z", (e, a) -> ((Klass) ((Obj) a[0]).x).isInterface ? 1 : 0);
    m.put("java/lang/Class.isPrimitive()Z", (e, a) -> ((Klass) ((Obj) a[0]).x).primitive ? 1 : 0);
    m.put("java/lang/Class.isAssignableFrom(Ljava/lang/Class;)Z", (e, a) -> ((Klass) ((Obj) a[1]).x).subOf((Klass) ((Obj) a[0]).x) ? 1 : 0);
    m.put("java/lang/Class.getName()" + LS, (e, a) -> e.str(((Klass) ((Obj) a[0]).x).name.replace('/', '.')));
    m.put("java/lang/Class.toString()" + LS, (e, a) -> e.str((((Klass) ((Obj) a[0]).x).isInterface ? "interface " : "class ") + ((Klass) ((Obj) a[0]).x).name.replace('/', '.')));
    m.put("java/lang/Class.getSimpleName()" + LS, (e, a) -> e.str(simpleName((Klass) ((Obj) a[0]).x)));
    m.put("java/lang/Class.getCanonicalName()" + LS, (e, a) -> {
      String n = canonicalName(e, (Klass) ((Obj) a[0]).x);
      return n == null ? null : e.str(n);
    });
    m.put("java/lang/Class.isAnonymousClass()Z", (e, a) -> simpleName((Klass) ((Obj) a[0]).x).isEmpty() ? 1 : 0);
    m.put("java/lang/Class.isLocalClass()Z", (e, a) -> {
      InnerClassNode i = inner((Klass) ((Obj) a[0]).x);
      return i != null && i.innerName != null && i.outerName == null ? 1 : 0;
    });
    m.put("java/lang/Class.isMemberClass()Z", (e, a) -> {
      InnerClassNode i = inner((Klass) ((Obj) a[0]).x);
      return i != null && i.outerName != null ? 1 : 0;
    });
    m.put("java/lang/Class.isEnum()Z", (e, a) -> {
      Klass k = (Klass) ((Obj) a[0]).x;
      return k.sup != null && k.sup.name.equals("java/lang/Enum") ? 1 : 0;
    });
    m.put("java/lang/Class.getComponentType()Ljava/lang/Class;", (e, a) -> {
      Klass k = ((Klass) ((Obj) a[0]).x).elem;
      return k == null ? null : e.mirror(k);
    });
    m.put("java/lang/Class.getSuperclass()Ljava/lang/Class;", (e, a) -> {
      Klass k = ((Klass) ((Obj) a[0]).x).sup;
      return k == null ? null : e.mirror(k);
    });
    m.put("java/lang/Class.getEnumConstantsShared()[" + O, (e, a) -> {
      Klass k = (Klass) ((Obj) a[0]).x;
      e.init(k);
      return e.callStatic(k.name, "values()[L" + k.name + ";");
    });
    m.put("java/lang/Class.getPrimitiveClass(" + LS + ")Ljava/lang/Class;", (e, a) -> {
      String n = e.host(a[0]);
      String d = n.equals("int") ? "I" : n.equals("long") ? "J" : n.equals("boolean") ? "Z" : n.equals("byte") ? "B" : n.equals("char") ? "C"
          : n.equals("short") ? "S" : n.equals("float") ? "F" : n.equals("double") ? "D" : "V";
      return e.mirror(e.prim(d));
    });
    m.put("java/lang/Class.hashCode()I", (e, a) -> ((Klass) ((Obj) a[0]).x).name.hashCode());
    Native universe = (e, a) -> {
      Klass k = (Klass) ((Obj) a[0]).x;
      e.init(k);
      return e.callStatic(k.name, "values()[L" + k.name + ";");
    };
    m.put("java/util/EnumSet.getUniverse(Ljava/lang/Class;)[Ljava/lang/Enum;", universe);
    m.put("java/util/EnumMap.getKeyUniverse(Ljava/lang/Class;)[Ljava/lang/Enum;", universe);
    m.put("java/lang/Enum.hashCode()I", (e, a) -> 31 * (Integer) e.getField((Obj) a[0], "ordinal") + ((Obj) a[0]).k.name.hashCode());
    m.put("java/lang/System.registerNatives()V", (e, a) -> null);
    m.put("java/lang/System.<clinit>()V", (e, a) -> null);
    m.put("java/lang/System.arraycopy(" + O + "I" + O + "II)V", (e, a) -> {
      Arr s = (Arr) a[0], d = (Arr) a[2];
      if (s == null || d == null) throw e.thr("java/lang/NullPointerException", null);
      int n = e.concretize(a[4], "arraycopy length");
      int sp = e.concretize(a[1], "arraycopy position"), dp = e.concretize(a[3], "arraycopy position");
      Object[] se = e.elems(s), de = e.elems(d);
      if (n < 0 || sp < 0 || dp < 0 || sp + n > se.length || dp + n > de.length) throw e.thr("java/lang/ArrayIndexOutOfBoundsException", null);
      Object[] t = Arrays.copyOfRange(se, sp, sp + n);
      for (int i = 0; i < n; i++) e.write(d, de, dp + i, t[i]);
      return null;
    });
    m.put("java/lang/System.getProperty(" + LS + ")" + LS, (e, a) -> {
      String k = e.host(a[0]);
      if (k.equals("line.separator")) return e.str("\n");
      if (k.equals("java.version")) return e.str(e.mode.equals("jdk8") ? "1.8.0_402" : "21.0.2");
      if (k.equals("java.specification.version")) return e.str(e.mode.equals("jdk8") ? "1.8" : "21");
      return null;
    });
    m.put("java/lang/System.getProperty(" + LS + LS + ")" + LS, (e, a) -> a[1]);
    m.put("java/lang/System.lineSeparator()" + LS, (e, a) -> e.str("\n"));
    m.put("java/lang/System.getSecurityManager()Ljava/lang/SecurityManager;", (e, a) -> null);
    m.put("java/lang/System.nanoTime()J", (e, a) -> 0L);
    m.put("java/lang/System.currentTimeMillis()J", (e, a) -> 1700000000000L);
    m.put("java/security/AccessController.doPrivileged(Ljava/security/PrivilegedAction;)" + O, (e, a) -> e.callVirtual(a[0], "run()" + O));
    m.put("java/lang/Throwable.fillInStackTrace(I)Ljava/lang/Throwable;", (e, a) -> a[0]);
    m.put("java/lang/Throwable.fillInStackTrace()Ljava/lang/Throwable;", (e, a) -> a[0]);
    m.put("java/lang/Thread.currentThread()Ljava/lang/Thread;", (e, a) -> {
      throw new Unsupported("Thread.currentThread");
    });
    m.put("sun/misc/VM.initialize()V", (e, a) -> null);
    m.put("sun/misc/Unsafe.registerNatives()V", (e, a) -> null);
    m.put("java/lang/ThreadLocal.<clinit>()V", (e, a) -> null);
    m.put("java/lang/ThreadLocal.nextHashCode()I", (e, a) -> 0);
    m.put("java/lang/ThreadLocal.get()" + O, (e, a) -> {
      Object k = Arrays.asList(a[0], e.thread);
      Object v = e.threadLocals().get(k);
      if (v == null) {
        v = new Object[] {e.callVirtual(a[0], "initialValue()" + O)};
        e.threadLocals().put(k, v);
      }
      return ((Object[]) v)[0];
    });
    m.put("java/lang/ThreadLocal.set(" + O + ")V", (e, a) -> {
      e.threadLocals().put(Arrays.asList(a[0], e.thread), new Object[] {a[1]});
      return null;
    });
    m.put("java/lang/ThreadLocal.remove()V", (e, a) -> {
      e.threadLocals().remove(Arrays.asList(a[0], e.thread));
      return null;
    });
    for (String c : new String[] {"Integer", "Long", "Boolean", "Reference"}) {
      String k = "java/util/concurrent/atomic/Atomic" + c;
      m.put(k + ".<clinit>()V", (e, a) -> null);
    }
    String AR = "java/util/concurrent/atomic/AtomicReference";
    m.put(AR + ".compareAndSet(" + O + O + ")Z", (e, a) -> {
      if (e.getField((Obj) a[0], "value") != a[1]) return 0;
      e.setField((Obj) a[0], "value", a[2]);
      return 1;
    });
    m.put(AR + ".getAndSet(" + O + ")" + O, (e, a) -> {
      Object o = e.getField((Obj) a[0], "value");
      e.setField((Obj) a[0], "value", a[1]);
      return o;
    });
    String AI = "java/util/concurrent/atomic/AtomicInteger";
    m.put(AI + ".getAndAdd(I)I", (e, a) -> {
      Object o = e.getField((Obj) a[0], "value");
      e.setField((Obj) a[0], "value", e.iadd(o, a[1]));
      return o;
    });
    m.put(AI + ".getAndIncrement()I", (e, a) -> {
      Object o = e.getField((Obj) a[0], "value");
      e.setField((Obj) a[0], "value", e.iadd(o, 1));
      return o;
    });
    m.put(AI + ".incrementAndGet()I", (e, a) -> {
      Object o = e.iadd(e.getField((Obj) a[0], "value"), 1);
      e.setField((Obj) a[0], "value", o);
      return o;
    });
    m.put("java/util/concurrent/atomic/AtomicBoolean.compareAndSet(ZZ)Z", (e, a) -> {
      Object o = e.getField((Obj) a[0], "value");
      if (!e.decide(e.ieq(o, a[1]))) return 0;
      e.setField((Obj) a[0], "value", a[2]);
      return 1;
    });
    m.put("java/lang/ref/SoftReference.get()" + O, (e, a) -> e.getField((Obj) a[0], "referent"));

    strings(m);
    builders(m);
    numbers(m);
    bigs(m);

    // -------------------------------------------------------- method handles
    for (String c : new String[] {"MethodHandles", "MethodHandle", "MethodType", "MethodHandles$Lookup"}) m.put("java/lang/invoke/" + c + ".<clinit>()V", (e, a) -> null);
    m.put("java/lang/invoke/MethodHandles.lookup()Ljava/lang/invoke/MethodHandles$Lookup;", (e, a) -> dummy(e, "java/lang/invoke/MethodHandles$Lookup", "full"));
    m.put("java/lang/invoke/MethodHandles.publicLookup()Ljava/lang/invoke/MethodHandles$Lookup;", (e, a) -> dummy(e, "java/lang/invoke/MethodHandles$Lookup", "public"));
    for (int n = 0; n < 5; n++) {
      String[] d = {"Ljava/lang/Class;", "Ljava/lang/Class;Ljava/lang/Class;", "Ljava/lang/Class;Ljava/lang/Class;[Ljava/lang/Class;", "Ljava/lang/Class;[Ljava/lang/Class;", "Ljava/lang/Class;Ljava/util/List;"};
      m.put("java/lang/invoke/MethodType.methodType(" + d[n] + ")Ljava/lang/invoke/MethodType;", (e, a) -> dummy(e, "java/lang/invoke/MethodType", "type"));
    }
    Native find = (e, a) -> {
      String c = ((Klass) ((Obj) a[1]).x).name, n = e.host(a[2]);
      c = c.substring(c.lastIndexOf('/') + 1);
      String id = c + "." + n;
      boolean has = e.mode.equals("jdk21");
      if (id.equals("StringBuilder.repeat") || id.equals("Math.multiplyHigh")) {
        if (!has) throw e.thr("java/lang/NoSuchMethodException", id);
        return dummy(e, "java/lang/invoke/MethodHandle", id);
      }
      throw new Unsupported("method handle lookup of " + id);
    };
    m.put("java/lang/invoke/MethodHandles$Lookup.findVirtual(Ljava/lang/Class;" + LS + "Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/MethodHandle;", find);
    m.put("java/lang/invoke/MethodHandles$Lookup.findStatic(Ljava/lang/Class;" + LS + "Ljava/lang/invoke/MethodType;)Ljava/lang/invoke/MethodHandle;", find);
  }

  static Obj dummy(Engine e, String cls, Object x) {
    Klass k = e.klass(cls);
    Obj o = e.alloc(k);
    o.x = x;
    return o;
  }

  static Arr lazyCopy(Engine e, Arr r) {
    Arr c = new Arr(r.k, null);
    c.x = r.x;
    c.owner = e.nextId++;
    return c;
  }

  static Arr charsOf(Engine e, Rope r) {
    if (r.unitsOnly()) return e.chars(r.ch.clone());
    Arr a = new Arr(e.klass("[C"), null);
    a.x = r;
    a.owner = e.nextId++;
    return a;
  }

  static void range(Engine e, Object from, Object to, Object len, String ex) {
    if (!e.decide(e.tf.band(e.ile(0, from), e.tf.band(e.ile(from, to), e.ile(to, len))))) throw e.thr(ex, null);
  }

  static final String SIOOBE = "java/lang/StringIndexOutOfBoundsException";

  private static void strings(HashMap<String, Native> m) {
    String p = S + ".";
    m.put(p + "<clinit>()V", (e, a) -> {
      // CASE_INSENSITIVE_ORDER is created lazily by nobody the checks execute
      return null;
    });
    m.put(p + "<init>()V", (e, a) -> { e.payload((Obj) a[0], Rope.EMPTY); return null; });
    m.put(p + "<init>(" + LS + ")V", (e, a) -> { nn(e, a[1]); e.payload((Obj) a[0], e.rope(a[1])); return null; });
    m.put(p + "<init>([C)V", (e, a) -> { nn(e, a[1]); e.payload((Obj) a[0], e.ropeOf((Arr) a[1])); return null; });
    m.put(p + "<init>([CZ)V", (e, a) -> { e.payload((Obj) a[0], e.ropeOf((Arr) a[1])); return null; });
    m.put(p + "<init>([CII)V", (e, a) -> {
      nn(e, a[1]);
      Arr r = (Arr) a[1];
      Object to = e.iadd(a[2], a[3]);
      range(e, a[2], to, e.alen(r), SIOOBE);
      e.payload((Obj) a[0], e.ropeOf(r).sub(e, e.simp(a[2]), e.simp(to)));
      return null;
    });
    m.put(p + "<init>([BIII)V", (e, a) -> {
      Arr r = (Arr) a[1];
      int off = e.concretize(a[3], "offset"), n = e.concretize(a[4], "count");
      Object[] c = new Object[n];
      for (int i = 0; i < n; i++) c[i] = e.I(e.tf.and(e.t(r.e[off + i]), e.tf.cst(32, 255)));
      e.payload((Obj) a[0], Rope.units(c));
      return null;
    });
    m.put(p + "<init>([BI)V", (e, a) -> {
      Arr r = (Arr) a[1];
      Object[] c = new Object[r.e.length];
      for (int i = 0; i < c.length; i++) c[i] = e.I(e.tf.and(e.t(r.e[i]), e.tf.cst(32, 255)));
      e.payload((Obj) a[0], Rope.units(c));
      return null;
    });
    m.put(p + "<init>(Ljava/lang/StringBuilder;)V", (e, a) -> { e.payload((Obj) a[0], sb(a[1]).r); return null; });
    m.put(p + "length()I", (e, a) -> e.rope(a[0]).len);
    m.put(p + "isEmpty()Z", (e, a) -> e.B(e.ieq(e.rope(a[0]).len, 0)));
    m.put(p + "charAt(I)C", (e, a) -> {
      Rope r = e.rope(a[0]);
      if (!e.decide(e.tf.band(e.ile(0, a[1]), e.ilt(a[1], r.len)))) throw e.thr(SIOOBE, null);
      return r.charAt(e, e.simp(a[1]));
    });
    m.put(p + "hashCode()I", (e, a) -> {
      Object[] u = e.rope(a[0]).toUnits(e);
      Term h = e.tf.cst(32, 0);
      for (Object c : u) h = e.tf.add(e.tf.mulc(h, 31), e.t(c));
      return e.I(h);
    });
    m.put(p + "equals(" + O + ")Z", (e, a) -> {
      if (a[0] == a[1]) return 1;
      if (a[1] == null || !((Obj) a[1]).k.name.equals(S)) return 0;
      return e.B(Rope.eq(e, e.rope(a[0]), e.rope(a[1])));
    });
    m.put(p + "contentEquals(" + CS + ")Z", (e, a) -> e.B(Rope.eq(e, e.rope(a[0]), seqText(e, a[1]))));
    m.put(p + "substring(I)" + LS, (e, a) -> {
      Rope r = e.rope(a[0]);
      range(e, a[1], r.len, r.len, SIOOBE);
      return e.str(r.sub(e, e.simp(a[1]), r.len));
    });
    Native sub = (e, a) -> {
      Rope r = e.rope(a[0]);
      range(e, a[1], a[2], r.len, SIOOBE);
      return e.str(r.sub(e, e.simp(a[1]), e.simp(a[2])));
    };
    m.put(p + "substring(II)" + LS, sub);
    m.put(p + "subSequence(II)" + CS, sub);
    m.put(p + "concat(" + LS + ")" + LS, (e, a) -> { nn(e, a[1]); return e.str(Rope.concat(e, e.rope(a[0]), e.rope(a[1]))); });
    m.put(p + "toCharArray()[C", (e, a) -> charsOf(e, e.rope(a[0])));
    m.put(p + "toString()" + LS, (e, a) -> a[0]);
    m.put(p + "intern()" + LS, (e, a) -> e.rope(a[0]).concrete() ? e.literal(e.rope(a[0]).host()) : a[0]);
    m.put(p + "valueOf([C)" + LS, (e, a) -> { nn(e, a[0]); return e.str(e.ropeOf((Arr) a[0])); });
    m.put(p + "valueOf(C)" + LS, (e, a) -> e.str(Rope.units(new Object[] {a[0]})));
    m.put(p + "valueOf(Z)" + LS, (e, a) -> e.str(e.isTrue(a[0]) ? "true" : "false"));
    m.put(p + "valueOf(I)" + LS, (e, a) -> e.str(signed(e, e.t(a[0]), Integer.MIN_VALUE)));
    m.put(p + "valueOf(J)" + LS, (e, a) -> e.str(signed(e, e.t(a[0]), Long.MIN_VALUE)));
    m.put(p + "valueOf(D)" + LS, (e, a) -> e.callStatic("java/lang/Double", "toString(D)" + LS, a[0]));
    m.put(p + "valueOf(F)" + LS, (e, a) -> e.callStatic("java/lang/Float", "toString(F)" + LS, a[0]));
    m.put(p + "valueOf(" + O + ")" + LS, (e, a) -> a[0] == null ? e.str("null") : e.callVirtual(a[0], "toString()" + LS));
    m.put(p + "indexOf(I)I", (e, a) -> indexOf(e, e.rope(a[0]), a[1], 0));
    m.put(p + "indexOf(II)I", (e, a) -> indexOf(e, e.rope(a[0]), a[1], e.concretize(a[2], "index")));
    m.put(p + "indexOf(" + LS + ")I", (e, a) -> indexOfText(e, e.rope(a[0]), e.rope(a[1]), 0));
    m.put(p + "indexOf(" + LS + "I)I", (e, a) -> indexOfText(e, e.rope(a[0]), e.rope(a[1]), Math.max(0, e.concretize(a[2], "index"))));
    m.put(p + "contains(" + CS + ")Z", (e, a) -> indexOfText(e, e.rope(a[0]), text(e, a[1]), 0) >= 0 ? 1 : 0);
    m.put(p + "startsWith(" + LS + ")Z", (e, a) -> {
      Rope r = e.rope(a[0]), q = e.rope(a[1]);
      if (!e.decide(e.ile(q.len, r.len))) return 0;
      return e.B(Rope.eq(e, r.sub(e, 0, q.len), q));
    });
    m.put(p + "endsWith(" + LS + ")Z", (e, a) -> {
      Rope r = e.rope(a[0]), q = e.rope(a[1]);
      if (!e.decide(e.ile(q.len, r.len))) return 0;
      return e.B(Rope.eq(e, r.sub(e, e.isub(r.len, q.len), r.len), q));
    });
    m.put(p + "getChars(II[CI)V", (e, a) -> {
      Rope r = e.rope(a[0]);
      range(e, a[1], a[2], r.len, SIOOBE);
      Object[] u = r.sub(e, e.simp(a[1]), e.simp(a[2])).toUnits(e);
      put(e, (Arr) a[3], a[4], u);
      return null;
    });
    m.put(p + "getChars([CI)V", (e, a) -> { put(e, (Arr) a[1], a[2], e.rope(a[0]).toUnits(e)); return null; });
    m.put(p + "format(" + LS + "[" + O + ")" + LS, (e, a) -> {
      StringBuilder sb = new StringBuilder("format(").append(e.rope(a[0]));
      return e.str(sb.append(")").toString());
    });
    m.put(p + "toUpperCase()" + LS, (e, a) -> e.str(mapCase(e, e.rope(a[0]), true)));
    m.put(p + "toLowerCase()" + LS, (e, a) -> e.str(mapCase(e, e.rope(a[0]), false)));
    m.put(p + "toUpperCase(Ljava/util/Locale;)" + LS, (e, a) -> e.str(mapCase(e, e.rope(a[0]), true)));
    m.put(p + "toLowerCase(Ljava/util/Locale;)" + LS, (e, a) -> e.str(mapCase(e, e.rope(a[0]), false)));
    m.put("java/util/Locale.getDefault()Ljava/util/Locale;", (e, a) -> dummy(e, "java/util/Locale", "default"));
    m.put("java/util/Locale.<clinit>()V", (e, a) -> null);
    m.put("java/util/Arrays.fill([CC)V", (e, a) -> {
      Arr r = (Arr) a[0];
      nn(e, r);
      if (r.e == null) e.payload(r, Rope.run(a[1], ((Rope) r.x).len));
      else for (int i = 0; i < r.e.length; i++) e.write(r, r.e, i, a[1]);
      return null;
    });
    m.put("java/util/Arrays.copyOf([CI)[C", (e, a) -> {
      Arr r = (Arr) a[0];
      int n = e.concretize(a[1], "copy length");
      Object[] c = Arrays.copyOf(e.elems(r), n);
      for (int i = e.elems(r).length; i < n; i++) c[i] = 0;
      return e.chars(c);
    });
    m.put("java/util/Arrays.copyOf([" + O + "I)[" + O, (e, a) -> e.arr(((Arr) a[0]).k, Arrays.copyOf(((Arr) a[0]).e, e.concretize(a[1], "copy length"))));
    m.put("java/lang/reflect/Array.newInstance(Ljava/lang/Class;I)" + O, (e, a) -> {
      Klass k = (Klass) ((Obj) a[0]).x;
      return e.array(k.primitive ? k.name : k.isArray() ? k.name : "L" + k.name + ";", a[1]);
    });
    m.put("java/lang/reflect/Array.getLength(" + O + ")I", (e, a) -> e.alen((Arr) a[0]));
    m.put("java/lang/reflect/Array.get(" + O + "I)" + O, (e, a) -> {
      Arr r = (Arr) a[0];
      Object v = e.elems(r)[e.concretize(a[1], "index")];
      return r.k.elem.primitive ? e.box(r.k.elem.name.charAt(0), v) : v;
    });
  }

  static void nn(Engine e, Object o) {
    if (o == null) throw e.thr("java/lang/NullPointerException", null);
  }

  static void put(Engine e, Arr d, Object pos, Object[] u) {
    int p = e.concretize(pos, "position");
    if (p < 0 || p + u.length > e.elems(d).length) throw e.thr("java/lang/ArrayIndexOutOfBoundsException", null);
    for (int i = 0; i < u.length; i++) e.write(d, d.e, p + i, u[i]);
  }

  static int indexOf(Engine e, Rope r, Object c, int from) {
    Object[] u = r.toUnits(e);
    for (int i = Math.max(0, from); i < u.length; i++) if (e.decide(e.ieq(u[i], c))) return i;
    return -1;
  }

  static int indexOfText(Engine e, Rope r, Rope q, int from) {
    Object[] u = r.toUnits(e), v = q.toUnits(e);
    for (int i = from; i + v.length <= u.length; i++) {
      Term t = e.tf.T;
      for (int j = 0; j < v.length; j++) t = e.tf.band(t, e.ieq(u[i + j], v[j]));
      if (e.decide(t)) return i;
    }
    return -1;
  }

  static long[] caseTable(boolean up) {
    return up ? UP : LOW;
  }

  static final long[] UP = new long[65536], LOW = new long[65536];

  static {
    for (int i = 0; i < 65536; i++) {
      UP[i] = Character.toUpperCase((char) i);
      LOW[i] = Character.toLowerCase((char) i);
    }
  }

  /** simple (char to char) case mapping */
  static Object caseOf(Engine e, Object c, boolean up) {
    if (c instanceof Integer) return (int) caseTable(up)[(Integer) c & 0xFFFF];
    Term t = (Term) c;
    long[] r = e.range(t);
    if (r[1] < 128) {
      TF tf = e.tf;
      if (t.op == Op.SELECT) {
        long[] tab = ((long[]) t.x).clone();
        for (int i = 0; i < tab.length; i++) tab[i] = up ? Character.toUpperCase((char) tab[i]) : Character.toLowerCase((char) tab[i]);
        return e.I(tf.select(32, tf.internTable(tab), t.a[0]));
      }
      int lo = up ? 'a' : 'A', hi = up ? 'z' : 'Z', d = up ? -32 : 32;
      if (r[1] < lo || r[0] > hi) return t;
      Term in = tf.band(tf.sle(tf.cst(32, lo), t), tf.sle(t, tf.cst(32, hi)));
      return e.I(tf.ite(in, tf.lin(32, t, 1, null, 0, d), t));
    }
    if (e.decide(e.ilt(t, 128))) return caseOf(e, t, up);
    if (r[0] < 128 && e.range(t)[1] < 128) return caseOf(e, t, up);
    return e.I(e.tf.select(32, caseTable(up), t));
  }

  /** String.toUpperCase/toLowerCase: exact for ASCII and for characters without special casing */
  static Rope mapCase(Engine e, Rope r, boolean up) {
    if (r.concrete()) return Rope.of(up ? r.host().toUpperCase(Locale.ROOT) : r.host().toLowerCase(Locale.ROOT));
    Object[] u = r.toUnits(e);
    ArrayList<Object> v = new ArrayList<>();
    next:
    for (Object c : u) {
      if (!(c instanceof Term) || e.decide(e.ilt(c, 128))) {
        v.add(caseOf(e, c, up));
        continue;
      }
      for (char x : new char[] {'\u00e9', '\u00c9', '\u00df', '\u00b5', '\u00d7'})
        if (e.decide(e.ieq(c, x))) {
          String t = up ? String.valueOf(x).toUpperCase(Locale.ROOT) : String.valueOf(x).toLowerCase(Locale.ROOT);
          for (int j = 0; j < t.length(); j++) v.add((int) t.charAt(j));
          continue next;
        }
      throw new Unsupported("case mapping of a non-ASCII symbolic text");
    }
    return Rope.units(v.toArray());
  }

  private static void builders(HashMap<String, Native> m) {
    for (String c : new String[] {"StringBuilder", "StringBuffer", "AbstractStringBuilder"}) {
      String p = "java/lang/" + c + ".";
      String L = "Ljava/lang/" + c + ";";
      m.put(p + "<init>()V", (e, a) -> { e.payload((Obj) a[0], new SB(Rope.EMPTY, 16, NONE)); return null; });
      m.put(p + "<init>(I)V", (e, a) -> {
        Object n = e.simp(a[1]);
        if (e.decide(e.ilt(n, 0))) throw e.thr("java/lang/NegativeArraySizeException", null);
        SB b = new SB(Rope.EMPTY, 0, NONE);
        if (n instanceof Integer) b = new SB(Rope.EMPTY, (Integer) n, NONE);
        else b = new SB(Rope.EMPTY, 0, new Object[] {n});
        e.payload((Obj) a[0], b);
        return null;
      });
      m.put(p + "<init>(" + LS + ")V", (e, a) -> { nn(e, a[1]); init(e, a[0], e.rope(a[1])); return null; });
      m.put(p + "<init>(" + CS + ")V", (e, a) -> { nn(e, a[1]); init(e, a[0], seqText(e, a[1])); return null; });
      m.put(p + "append(" + LS + ")" + L, (e, a) -> { append(e, a[0], a[1] == null ? Rope.of("null") : e.rope(a[1])); return a[0]; });
      m.put(p + "append(" + O + ")" + L, (e, a) -> { append(e, a[0], text(e, a[1])); return a[0]; });
      m.put(p + "append(" + CS + ")" + L, (e, a) -> { append(e, a[0], seqText(e, a[1])); return a[0]; });
      m.put(p + "append(Ljava/lang/StringBuffer;)" + L, (e, a) -> { append(e, a[0], a[1] == null ? Rope.of("null") : sb(a[1]).r); return a[0]; });
      m.put(p + "append(" + CS + "II)" + L, (e, a) -> {
        Obj o = (Obj) a[1];
        if (o == null || o.x != null) {
          Rope r = seqText(e, o);
          range(e, a[2], a[3], r.len, "java/lang/IndexOutOfBoundsException");
          append(e, a[0], r.sub(e, e.simp(a[2]), e.simp(a[3])));
        } else {
          range(e, a[2], a[3], e.callVirtual(o, "length()I"), "java/lang/IndexOutOfBoundsException");
          int f = e.concretize(a[2], "start"), t = e.concretize(a[3], "end");
          Object[] u = new Object[t - f];
          for (int i = f; i < t; i++) u[i - f] = e.callVirtual(o, "charAt(I)C", i);
          append(e, a[0], Rope.units(u));
        }
        return a[0];
      });
      m.put(p + "append(C)" + L, (e, a) -> { append(e, a[0], Rope.units(new Object[] {a[1]})); return a[0]; });
      m.put(p + "append(I)" + L, (e, a) -> { append(e, a[0], signed(e, e.t(a[1]), Integer.MIN_VALUE)); return a[0]; });
      m.put(p + "append(J)" + L, (e, a) -> { append(e, a[0], signed(e, e.t(a[1]), Long.MIN_VALUE)); return a[0]; });
      m.put(p + "append(Z)" + L, (e, a) -> { append(e, a[0], Rope.of(e.isTrue(a[1]) ? "true" : "false")); return a[0]; });
      m.put(p + "append(D)" + L, (e, a) -> { append(e, a[0], e.rope(e.callStatic("java/lang/Double", "toString(D)" + LS, a[1]))); return a[0]; });
      m.put(p + "append(F)" + L, (e, a) -> { append(e, a[0], e.rope(e.callStatic("java/lang/Float", "toString(F)" + LS, a[1]))); return a[0]; });
      m.put(p + "append([C)" + L, (e, a) -> { nn(e, a[1]); append(e, a[0], e.ropeOf((Arr) a[1])); return a[0]; });
      m.put(p + "append([CII)" + L, (e, a) -> {
        nn(e, a[1]);
        Rope r = e.ropeOf((Arr) a[1]);
        Object to = e.iadd(a[2], a[3]);
        range(e, a[2], to, r.len, "java/lang/IndexOutOfBoundsException");
        append(e, a[0], r.sub(e, e.simp(a[2]), e.simp(to)));
        return a[0];
      });
      m.put(p + "appendCodePoint(I)" + L, (e, a) -> {
        int cp = e.concretize(a[1], "code point");
        append(e, a[0], Rope.of(new String(Character.toChars(cp))));
        return a[0];
      });
      m.put(p + "length()I", (e, a) -> sb(a[0]).r.len);
      m.put(p + "capacity()I", (e, a) -> capacity(e, a[0]));
      m.put(p + "trimToSize()V", (e, a) -> {
        SB b = sb(a[0]);
        Object n = b.r.len;
        e.payload((Obj) a[0], n instanceof Integer ? new SB(b.r, (Integer) n, NONE) : new SB(b.r, 0, new Object[] {n}));
        return null;
      });
      m.put(p + "ensureCapacity(I)V", (e, a) -> {
        SB b = sb(a[0]);
        e.payload((Obj) a[0], b.with(b.r, e.simp(a[1])));
        return null;
      });
      m.put(p + "charAt(I)C", (e, a) -> {
        Rope r = sb(a[0]).r;
        if (!e.decide(e.tf.band(e.ile(0, a[1]), e.ilt(a[1], r.len)))) throw e.thr(SIOOBE, null);
        return r.charAt(e, e.simp(a[1]));
      });
      m.put(p + "setLength(I)V", (e, a) -> {
        Object n = e.simp(a[1]);
        if (e.decide(e.ilt(n, 0))) throw e.thr(SIOOBE, null);
        SB b = sb(a[0]);
        if (e.decide(e.ile(n, b.r.len))) setRope(e, a[0], b.r.sub(e, 0, n));
        else append(e, a[0], Rope.run(0, e.isub(n, b.r.len)));
        return null;
      });
      m.put(p + "setCharAt(IC)V", (e, a) -> {
        Rope r = sb(a[0]).r;
        if (!e.decide(e.tf.band(e.ile(0, a[1]), e.ilt(a[1], r.len)))) throw e.thr(SIOOBE, null);
        Object[] u = r.toUnits(e).clone();
        u[e.concretize(a[1], "index")] = a[2];
        setRope(e, a[0], Rope.units(u));
        return null;
      });
      Native sub = (e, a) -> {
        Rope r = sb(a[0]).r;
        range(e, a[1], a[2], r.len, SIOOBE);
        return e.str(r.sub(e, e.simp(a[1]), e.simp(a[2])));
      };
      m.put(p + "substring(II)" + LS, sub);
      m.put(p + "subSequence(II)" + CS, sub);
      m.put(p + "substring(I)" + LS, (e, a) -> {
        Rope r = sb(a[0]).r;
        range(e, a[1], r.len, r.len, SIOOBE);
        return e.str(r.sub(e, e.simp(a[1]), r.len));
      });
      m.put(p + "toString()" + LS, (e, a) -> e.str(sb(a[0]).r));
      m.put(p + "reverse()" + L, (e, a) -> {
        Object[] u = sb(a[0]).r.toUnits(e), v = new Object[u.length];
        for (int i = 0; i < u.length; i++) v[i] = u[u.length - 1 - i];
        setRope(e, a[0], Rope.units(v));
        return a[0];
      });
      Native ins = (e, a) -> {
        Rope r = sb(a[0]).r;
        range(e, 0, a[1], r.len, SIOOBE);
        Rope x;
        if (a[2] == null || a[2] instanceof Obj) x = a[2] instanceof Arr ? e.ropeOf((Arr) a[2]) : text(e, a[2]);
        else x = Rope.units(new Object[] {a[2]});
        Rope[] q = r.split(e, e.simp(a[1]));
        SB b = sb(a[0]);
        Rope n = Rope.concat(e, Rope.concat(e, q[0], x), q[1]);
        e.payload((Obj) a[0], b.with(n, n.len));
        return a[0];
      };
      m.put(p + "insert(I" + LS + ")" + L, ins);
      m.put(p + "insert(I" + CS + ")" + L, ins);
      m.put(p + "insert(IC)" + L, ins);
      m.put(p + "insert(I[C)" + L, ins);
      m.put(p + "deleteCharAt(I)" + L, (e, a) -> {
        Rope r = sb(a[0]).r;
        if (!e.decide(e.tf.band(e.ile(0, a[1]), e.ilt(a[1], r.len)))) throw e.thr(SIOOBE, null);
        setRope(e, a[0], Rope.concat(e, r.sub(e, 0, e.simp(a[1])), r.sub(e, e.simp(e.iadd(a[1], 1)), r.len)));
        return a[0];
      });
      m.put(p + "delete(II)" + L, (e, a) -> {
        Rope r = sb(a[0]).r;
        Object to = e.simp(a[2]);
        if (e.decide(e.ilt(r.len, to))) to = r.len;
        range(e, a[1], to, r.len, SIOOBE);
        setRope(e, a[0], Rope.concat(e, r.sub(e, 0, e.simp(a[1])), r.sub(e, to, r.len)));
        return a[0];
      });
      m.put(p + "indexOf(" + LS + ")I", (e, a) -> indexOfText(e, sb(a[0]).r, e.rope(a[1]), 0));
      m.put(p + "getChars(II[CI)V", (e, a) -> {
        Rope r = sb(a[0]).r;
        range(e, a[1], a[2], r.len, SIOOBE);
        put(e, (Arr) a[3], a[4], r.sub(e, e.simp(a[1]), e.simp(a[2])).toUnits(e));
        return null;
      });
    }
  }

  private static void init(Engine e, Object o, Rope r) {
    Object n = e.iadd(r.len, 16);
    e.payload((Obj) o, n instanceof Integer ? new SB(r, (Integer) n, NONE) : new SB(r, 0, new Object[] {n}));
  }

  private static void numbers(HashMap<String, Native> m) {
    String I = "java/lang/Integer.", J = "java/lang/Long.";
    for (String c : new String[] {"Integer", "Long", "Short", "Byte", "Character"}) {
      String d = c.equals("Integer") ? "I" : c.equals("Long") ? "J" : c.equals("Short") ? "S" : c.equals("Byte") ? "B" : "C";
      m.put("java/lang/" + c + ".valueOf(" + d + ")Ljava/lang/" + c + ";", (e, a) -> e.box(d.charAt(0), a[0]));
    }
    m.put("java/lang/Boolean.valueOf(Z)Ljava/lang/Boolean;", (e, a) -> {
      Klass k = e.klass("java/lang/Boolean");
      e.init(k);
      return k.statics[k.field(e.isTrue(a[0]) ? "TRUE" : "FALSE").slot];
    });
    m.put(I + "toString(I)" + LS, (e, a) -> e.str(signed(e, e.t(a[0]), Integer.MIN_VALUE)));
    m.put(J + "toString(J)" + LS, (e, a) -> e.str(signed(e, e.t(a[0]), Long.MIN_VALUE)));
    m.put(I + "toString()" + LS, (e, a) -> e.str(signed(e, e.t(e.unbox(a[0])), Integer.MIN_VALUE)));
    m.put(J + "toString()" + LS, (e, a) -> e.str(signed(e, e.t(e.unbox(a[0])), Long.MIN_VALUE)));
    m.put("java/lang/Short.toString()" + LS, (e, a) -> e.str(signed(e, e.t(e.unbox(a[0])), Integer.MIN_VALUE)));
    m.put("java/lang/Byte.toString()" + LS, (e, a) -> e.str(signed(e, e.t(e.unbox(a[0])), Integer.MIN_VALUE)));
    m.put("java/lang/Short.toString(S)" + LS, (e, a) -> e.str(signed(e, e.t(a[0]), Integer.MIN_VALUE)));
    m.put("java/lang/Byte.toString(B)" + LS, (e, a) -> e.str(signed(e, e.t(a[0]), Integer.MIN_VALUE)));
    m.put(I + "toHexString(I)" + LS, (e, a) -> e.str(radix(e, e.t(a[0]), 4)));
    m.put(I + "toOctalString(I)" + LS, (e, a) -> e.str(radix(e, e.t(a[0]), 3)));
    m.put(I + "toBinaryString(I)" + LS, (e, a) -> e.str(radix(e, e.t(a[0]), 1)));
    m.put(J + "toHexString(J)" + LS, (e, a) -> e.str(radix(e, e.t(a[0]), 4)));
    m.put(J + "toOctalString(J)" + LS, (e, a) -> e.str(radix(e, e.t(a[0]), 3)));
    m.put(J + "toBinaryString(J)" + LS, (e, a) -> e.str(radix(e, e.t(a[0]), 1)));
    m.put(I + "toUnsignedString(I)" + LS, (e, a) -> e.str(Rope.units(decimal(e, e.tf.and(e.tf.i2l(e.t(a[0])), e.tf.cst(64, 0xFFFFFFFFL))))));
    m.put(J + "toUnsignedString(J)" + LS, (e, a) -> e.str(Rope.units(decimal(e, e.t(a[0])))));
    m.put(J + "toUnsignedString(JI)" + LS, (e, a) -> {
      int r = e.concretize(a[1], "radix");
      if (r == 10) return e.str(Rope.units(decimal(e, e.t(a[0]))));
      if (r == 16) return e.str(radix(e, e.t(a[0]), 4));
      if (r == 8) return e.str(radix(e, e.t(a[0]), 3));
      throw new Unsupported("radix");
    });
    m.put(I + "parseInt(" + LS + ")I", (e, a) -> parse(e, a[0], 10, false));
    m.put(I + "parseInt(" + LS + "I)I", (e, a) -> parse(e, a[0], e.concretize(a[1], "radix"), false));
    m.put(J + "parseLong(" + LS + ")J", (e, a) -> parse(e, a[0], 10, true));
    m.put(J + "parseLong(" + LS + "I)J", (e, a) -> parse(e, a[0], e.concretize(a[1], "radix"), true));
    m.put(I + "numberOfLeadingZeros(I)I", (e, a) -> e.I(e.tf.nlz(e.t(a[0]))));
    m.put(J + "numberOfLeadingZeros(J)I", (e, a) -> e.I(e.tf.nlz(e.t(a[0]))));
    m.put(J + "compareUnsigned(JJ)I", (e, a) -> {
      Term x = e.t(a[0]), y = e.t(a[1]);
      return e.I(e.tf.ite(e.tf.ult(x, y), e.tf.cst(32, -1), e.tf.ite(e.tf.eq(x, y), e.tf.cst(32, 0), e.tf.cst(32, 1))));
    });
    m.put(J + "toUnsignedBigInteger(J)Ljava/math/BigInteger;", (e, a) -> {
      Term t = e.t(a[0]);
      if (t.isConst()) return mkBig(e, hostBig(new BigInteger(Long.toUnsignedString(t.val()))));
      if (e.decide(e.tf.eq(t, e.tf.cst(64, 0)))) return mkBig(e, new Big(0, BigInteger.ZERO));
      return mkBig(e, new Big(1, t));
    });
    m.put("java/lang/Character.digit(CI)I", (e, a) -> digit(e, a[0], e.concretize(a[1], "radix")));
    m.put("java/lang/Character.digit(II)I", (e, a) -> digit(e, a[0], e.concretize(a[1], "radix")));
    m.put("java/lang/Character.isDigit(C)Z", (e, a) -> e.B(isClass(e, a[0], 0)));
    m.put("java/lang/Character.isWhitespace(C)Z", (e, a) -> e.B(isClass(e, a[0], 1)));
    m.put("java/lang/Character.isLetter(C)Z", (e, a) -> e.B(isClass(e, a[0], 2)));
    m.put("java/lang/Character.isUpperCase(C)Z", (e, a) -> e.B(isClass(e, a[0], 3)));
    m.put("java/lang/Character.isLowerCase(C)Z", (e, a) -> e.B(isClass(e, a[0], 4)));
    m.put("java/lang/Character.toUpperCase(C)C", (e, a) -> caseOf(e, a[0], true));
    m.put("java/lang/Character.toLowerCase(C)C", (e, a) -> caseOf(e, a[0], false));
    m.put("java/lang/Character.toString(C)" + LS, (e, a) -> e.str(Rope.units(new Object[] {a[0]})));
    m.put("java/lang/Character.toString()" + LS, (e, a) -> e.str(Rope.units(new Object[] {e.unbox(a[0])})));
    m.put("java/lang/Character.<clinit>()V", (e, a) -> {
      Klass k = e.klass("java/lang/Character");
      k.statics[k.field("TYPE").slot] = e.mirror(e.prim("C"));
      return null;
    });

    String D = "java/lang/Double.", F = "java/lang/Float.";
    m.put(D + "doubleToRawLongBits(D)J", (e, a) -> e.I(e.t(a[0])));
    m.put(D + "longBitsToDouble(J)D", (e, a) -> e.D(e.t(a[0])));
    m.put(D + "doubleToLongBits(D)J", (e, a) -> {
      Term t = e.t(a[0]);
      if (e.decide(e.nan(t))) return 0x7ff8000000000000L;
      return e.I(t);
    });
    m.put(F + "floatToRawIntBits(F)I", (e, a) -> e.I(e.t(a[0])));
    m.put(F + "intBitsToFloat(I)F", (e, a) -> e.D(e.t(a[0])));
    m.put(F + "floatToIntBits(F)I", (e, a) -> {
      Term t = e.t(a[0]);
      if (e.decide(e.nan(t))) return 0x7fc00000;
      return e.I(t);
    });
    m.put(D + "toString(D)" + LS, (e, a) -> {
      if (a[0] instanceof Double) return e.str(Double.toString((Double) a[0]));
      return SymNatives.doubleText(e, (Term) a[0]);
    });
    m.put(D + "toString()" + LS, (e, a) -> {
      Object v = e.unbox(a[0]);
      if (v instanceof Double) return e.str(Double.toString((Double) v));
      return SymNatives.doubleText(e, (Term) v);
    });
    m.put(F + "toString(F)" + LS, (e, a) -> {
      if (a[0] instanceof Float) return e.str(Float.toString((Float) a[0]));
      return SymNatives.opaque(e, "floatText", 8, (Term) a[0]);
    });
    m.put(F + "toString()" + LS, (e, a) -> {
      Object v = e.unbox(a[0]);
      if (v instanceof Float) return e.str(Float.toString((Float) v));
      return SymNatives.opaque(e, "floatText", 8, (Term) v);
    });
    m.put(D + "parseDouble(" + LS + ")D", (e, a) -> {
      if (a[0] != null && !e.rope(a[0]).concrete()) return parseDecimal(e, e.rope(a[0]).toUnits(e));
      String s = e.host(a[0]);
      if (s == null) throw e.thr("java/lang/NullPointerException", null);
      try {
        return Double.parseDouble(s);
      } catch (NumberFormatException x) {
        throw e.thr("java/lang/NumberFormatException", x.getMessage());
      }
    });
    m.put(D + "toHexString(D)" + LS, (e, a) -> e.str(a[0] instanceof Double ? Rope.of(Double.toHexString((Double) a[0])) : hexString(e, (Term) a[0])));
    m.put("java/lang/Math.multiplyExact(JJ)J", (e, a) -> {
      Object x = e.simp(a[0]), y = e.simp(a[1]);
      if (x instanceof Long && !(y instanceof Long)) {
        Object t = x;
        x = y;
        y = t;
      }
      if (!(y instanceof Long)) {
        Klass k = e.klass("java/lang/Math");
        return e.body(k.methods.get("multiplyExact(JJ)J"), a);
      }
      long c = (Long) y;
      if (x instanceof Long) {
        try {
          return Math.multiplyExact((long) (Long) x, c);
        } catch (ArithmeticException o) {
          throw e.thr("java/lang/ArithmeticException", "long overflow");
        }
      }
      Term t = (Term) x;
      if (c == 0) return 0L;
      long lo = c > 0 ? Long.MIN_VALUE / c : c == -1 ? -Long.MAX_VALUE : Long.MAX_VALUE / c;
      long hi = c > 0 ? Long.MAX_VALUE / c : c == -1 ? Long.MAX_VALUE : Long.MIN_VALUE / c;
      if (e.decide(e.tf.slt(t, e.tf.cst(64, lo))) || e.decide(e.tf.slt(e.tf.cst(64, hi), t))) throw e.thr("java/lang/ArithmeticException", "long overflow");
      return e.I(e.tf.mulc(t, c));
    });
    m.put("java/lang/Math.abs(D)D", (e, a) -> a[0] instanceof Double ? (Object) Math.abs((Double) a[0]) : e.D(e.tf.and((Term) a[0], e.tf.cst(64, Long.MAX_VALUE))));
    m.put("java/lang/Math.abs(F)F", (e, a) -> a[0] instanceof Float ? (Object) Math.abs((Float) a[0]) : e.D(e.tf.and((Term) a[0], e.tf.cst(32, Integer.MAX_VALUE))));
    m.put("java/lang/Math.getExponent(D)I", (e, a) -> {
      if (a[0] instanceof Double) return Math.getExponent((Double) a[0]);
      TF tf = e.tf;
      Term b = tf.and((Term) a[0], tf.cst(64, Long.MAX_VALUE));
      return e.I(tf.lin(32, tf.l2i(tf.lshr(b, tf.cst(64, 52))), 1, null, 0, -1023));
    });
    m.put("java/lang/Math.scalb(DI)D", (e, a) -> {
      if (a[0] instanceof Double && a[1] instanceof Integer) return Math.scalb((Double) a[0], (Integer) a[1]);
      throw new Unsupported("scalb");
    });
    m.put("java/lang/Math.round(D)J", (e, a) -> {
      if (a[0] instanceof Double) return Math.round((Double) a[0]);
      return round(e, (Term) a[0]);
    });
    m.put("java/lang/Math.round(F)I", (e, a) -> {
      if (a[0] instanceof Float) return Math.round((Float) a[0]);
      // every float is a double and half up rounding commutes with the widening
      Term d = e.tf.fp(Op.F2D, 64, (Term) a[0]);
      Object l = round(e, d);
      Term t = e.t(l);
      TF tf = e.tf;
      return e.I(tf.ite(tf.slt(t, tf.cst(64, Integer.MIN_VALUE)), tf.cst(32, Integer.MIN_VALUE),
          tf.ite(tf.slt(tf.cst(64, Integer.MAX_VALUE), t), tf.cst(32, Integer.MAX_VALUE), tf.l2i(t))));
    });
    m.put("java/lang/Math.multiplyHigh(JJ)J", (e, a) -> {
      if (!e.reference && !e.mode.equals("jdk21")) throw e.thr("java/lang/NoSuchMethodError", "multiplyHigh");
      return mulh(e, a[0], a[1]);
    });
    m.put("java/lang/Math.<clinit>()V", (e, a) -> null);
    m.put("java/lang/StrictMath.<clinit>()V", (e, a) -> null);
    m.put("java/lang/Float.<clinit>()V", (e, a) -> {
      constants(e, "java/lang/Float", "F");
      return null;
    });
    m.put("java/lang/Double.<clinit>()V", (e, a) -> {
      constants(e, "java/lang/Double", "D");
      return null;
    });
  }

  private static void constants(Engine e, String c, String p) {
    Klass k = e.klass(c);
    k.statics[k.field("TYPE").slot] = e.mirror(e.prim(p));
  }

  /** Math.round(double): floor(x + 1/2) with saturation, from the bits */
  static Object round(Engine e, Term bits) {
    TF tf = e.tf;
    if (e.decide(e.nan(bits))) return 0L;
    boolean neg = e.decide(tf.slt(bits, tf.cst(64, 0)));
    Term mag = tf.and(bits, tf.cst(64, Long.MAX_VALUE));
    if (e.decide(tf.slt(mag, tf.cst(64, 0x3FE0000000000000L)))) return 0L;
    if (e.decide(tf.sle(tf.cst(64, 0x43E0000000000000L), mag))) return neg ? Long.MIN_VALUE : Long.MAX_VALUE;
    int exp = e.concretize(tf.l2i(tf.lshr(mag, tf.cst(64, 52))), "exponent") - 1023;
    Term sig = tf.or(tf.and(mag, tf.cst(64, 0xFFFFFFFFFFFFFL)), tf.cst(64, 1L << 52));
    if (exp >= 52) {
      Term v = tf.shl(sig, tf.cst(64, exp - 52));
      return e.I(neg ? tf.neg(v) : v);
    }
    // r = sig / 2^(51-exp) holds one fractional bit and truncated rest
    Term s = neg ? tf.neg(sig) : sig;
    Term h = tf.ashr(s, tf.cst(64, 51 - exp));
    return e.I(tf.ashr(tf.add(h, tf.cst(64, 1)), tf.cst(64, 1)));
  }

  static Rope hexString(Engine e, Term bits) {
    TF tf = e.tf;
    if (e.decide(e.nan(bits))) return Rope.of("NaN");
    boolean neg = e.decide(tf.slt(bits, tf.cst(64, 0)));
    Term mag = tf.and(bits, tf.cst(64, Long.MAX_VALUE));
    String sg = neg ? "-" : "";
    if (e.decide(tf.eq(mag, tf.cst(64, 0x7FF0000000000000L)))) return Rope.of(sg + "Infinity");
    if (e.decide(tf.eq(mag, tf.cst(64, 0)))) return Rope.of(sg + "0x0.0p0");
    boolean sub = e.decide(tf.slt(mag, tf.cst(64, 1L << 52)));
    Term frac = tf.and(bits, tf.cst(64, 0xFFFFFFFFFFFFFL));
    // number of hexadecimal digits left after removing trailing zeros (at least one)
    int n = 1;
    while (n < 13 && !e.decide(tf.eq(tf.and(frac, tf.cst(64, (1L << (4 * (13 - n))) - 1)), tf.cst(64, 0)))) n++;
    Object[] c = new Object[n];
    long[] hex = new long[16];
    for (int i = 0; i < 16; i++) hex[i] = "0123456789abcdef".charAt(i);
    for (int i = 0; i < n; i++)
      c[i] = e.I(tf.select(32, tf.internTable(hex), tf.l2i(tf.and(tf.lshr(frac, tf.cst(64, 4 * (12 - i))), tf.cst(64, 15)))));
    Rope r = Rope.concat(e, Rope.of(sg + (sub ? "0x0." : "0x1.")), Rope.units(c));
    if (sub) return Rope.concat(e, r, Rope.of("p-1022"));
    Term ex = tf.lin(32, tf.l2i(tf.lshr(mag, tf.cst(64, 52))), 1, null, 0, -1023);
    return Rope.concat(e, Rope.concat(e, r, Rope.of("p")), signed(e, ex, Integer.MIN_VALUE));
  }

  static final long[][] CLASSES = new long[5][65536];

  static {
    for (int i = 0; i < 65536; i++) {
      char c = (char) i;
      CLASSES[0][i] = Character.isDigit(c) ? 1 : 0;
      CLASSES[1][i] = Character.isWhitespace(c) ? 1 : 0;
      CLASSES[2][i] = Character.isLetter(c) ? 1 : 0;
      CLASSES[3][i] = Character.isUpperCase(c) ? 1 : 0;
      CLASSES[4][i] = Character.isLowerCase(c) ? 1 : 0;
    }
  }

  /** membership in a character class as a union of intervals */
  static Term isClass(Engine e, Object c, int cl) {
    long[] t = CLASSES[cl];
    if (c instanceof Integer) return e.tf.bool(t[(Integer) c & 0xFFFF] != 0);
    Term x = (Term) c;
    long[] r = e.range(x);
    Term res = e.tf.F;
    int i = (int) Math.max(0, r[0]), hi = (int) Math.min(65535, r[1]);
    while (i <= hi) {
      if (t[i] == 0) {
        i++;
        continue;
      }
      int j = i;
      while (j < hi && t[j + 1] != 0) j++;
      res = e.tf.bor(res, e.tf.band(e.ile(i, x), e.ile(x, j)));
      i = j + 1;
    }
    return res;
  }

  static Object digit(Engine e, Object c, int radix) {
    if (c instanceof Integer) return Character.digit((int) (Integer) c, radix);
    Term t = (Term) c;
    if (e.decide(e.tf.band(e.ile('0', t), e.ile(t, '9')))) {
      if (radix < 10 && e.decide(e.ile('0' + radix, t))) return -1;
      return e.isub(t, (int) '0');
    }
    if (radix > 10) {
      if (e.decide(e.tf.band(e.ile('a', t), e.ilt(t, 'a' + radix - 10)))) return e.isub(t, 'a' - 10);
      if (e.decide(e.tf.band(e.ile('A', t), e.ilt(t, 'A' + radix - 10)))) return e.isub(t, 'A' - 10);
    }
    if (e.decide(e.ilt(t, 128))) return -1;
    // other decimal digits
    for (int i = 128; i < 65536; i++) {
      if (Character.digit((char) i, radix) != 0) continue;
      if (e.decide(e.tf.band(e.ile(i, t), e.ile(t, i + 9)))) return e.isub(t, i);
    }
    return -1;
  }

  /** Double.parseDouble of a text of at most 15 characters out of digits, a point and a sign */
  static Object parseDecimal(Engine e, Object[] u) {
    if (u.length > 15) throw new Unsupported("long number text");
    TF tf = e.tf;
    Term v = tf.cst(64, 0);
    boolean neg = false, point = false, bad = false;
    int digits = 0, scale = 0;
    for (int i = 0; i < u.length; i++) {
      if (e.decide(tf.band(e.ile('0', u[i]), e.ile(u[i], '9')))) {
        v = tf.add(tf.mulc(v, 10), tf.i2l(e.t(e.isub(u[i], '0'))));
        digits++;
        if (point) scale++;
      } else if (e.decide(e.ieq(u[i], '.'))) {
        bad |= point;
        point = true;
      } else if (e.decide(tf.bor(e.ieq(u[i], '-'), e.ieq(u[i], '+')))) {
        bad |= i > 0;
        neg = e.decide(e.ieq(u[i], '-'));
      } else if (e.decide(tf.bor(e.ieq(u[i], '/'), e.ieq(u[i], ',')))) {
        bad = true;
      } else throw new Unsupported("number text with other characters");
    }
    if (bad || digits == 0) throw e.thr("java/lang/NumberFormatException", null);
    if (e.decide(tf.eq(v, tf.cst(64, 0)))) return neg ? -0.0 : 0.0;
    int n = 1;
    while (n < digits && !e.decide(tf.slt(v, tf.cst(64, TF.P10[n])))) n++;
    Term key = tf.uf("parse", 64, Long.MIN_VALUE, Long.MAX_VALUE, v, tf.cst(32, scale)), d = e.doubles.get(key);
    if (d == null) {
      d = tf.var(e.fresh("parsed"), 64, 1, 0x7FEFFFFFFFFFFFFFL);
      e.doubles.put(key, d);
      e.decimals.put(d, new Term[] {v, tf.cst(32, -scale), tf.cst(32, n)});
    }
    return e.D(neg ? tf.xor(d, tf.cst(64, Long.MIN_VALUE)) : d);
  }

  /** Integer.parseInt / Long.parseLong */
  static Object parse(Engine e, Object s, int radix, boolean lng) {
    if (s == null) throw e.thr("java/lang/NumberFormatException", "null");
    Rope r = e.rope(s);
    if (r.concrete()) {
      try {
        return lng ? (Object) Long.parseLong(r.host(), radix) : (Object) Integer.parseInt(r.host(), radix);
      } catch (NumberFormatException x) {
        throw e.thr("java/lang/NumberFormatException", x.getMessage());
      }
    }
    Object[] u = r.toUnits(e);
    JThrow bad = null;
    int i = 0;
    boolean neg = false;
    if (u.length == 0) throw e.thr("java/lang/NumberFormatException", "");
    if (e.decide(e.ilt(u[0], '0'))) {
      if (e.decide(e.ieq(u[0], '-'))) neg = true;
      else if (!e.decide(e.ieq(u[0], '+'))) throw e.thr("java/lang/NumberFormatException", null);
      if (u.length == 1) throw e.thr("java/lang/NumberFormatException", null);
      i = 1;
    }
    TF tf = e.tf;
    // accumulate the magnitude exactly while it fits, then check the limit
    Term v = tf.cst(64, 0);
    for (; i < u.length; i++) {
      Object d = digit(e, u[i], radix);
      if (d instanceof Integer && (Integer) d < 0) throw e.thr("java/lang/NumberFormatException", null);
      Term dt = e.t(d);
      if (dt.w == 32) dt = tf.i2l(dt);
      if (e.decide(tf.slt(tf.cst(64, (Long.MAX_VALUE - radix) / radix), v))) {
        // near the 64-bit limit: only the exact boundary cases matter
        BigInteger lim = neg ? BigInteger.ONE.shiftLeft(63) : BigInteger.valueOf(Long.MAX_VALUE);
        long q = lim.divide(BigInteger.valueOf(radix)).longValue(), rem = lim.mod(BigInteger.valueOf(radix)).longValue();
        if (!lng || e.decide(tf.slt(tf.cst(64, q), v)) || e.decide(tf.band(tf.eq(v, tf.cst(64, q)), tf.slt(tf.cst(64, rem), dt))))
          throw e.thr("java/lang/NumberFormatException", null);
        v = tf.add(tf.mulc(v, radix), dt);
        if (i != u.length - 1) {
          for (i++; i < u.length; i++) {
            Object z = digit(e, u[i], radix);
          }
          throw e.thr("java/lang/NumberFormatException", null);
        }
        break;
      }
      v = tf.add(tf.mulc(v, radix), dt);
    }
    if (lng) return e.I(neg ? tf.neg(v) : v);
    if (e.decide(tf.slt(tf.cst(64, neg ? 2147483648L : 2147483647L), v))) throw e.thr("java/lang/NumberFormatException", null);
    return e.I(tf.l2i(neg ? tf.neg(v) : v));
  }

  private static void bigs(HashMap<String, Native> m) {
    String B = "java/math/BigInteger.", LB = "Ljava/math/BigInteger;";
    m.put(B + "<clinit>()V", (e, a) -> {
      Klass k = e.klass("java/math/BigInteger");
      for (String n : new String[] {"ZERO", "ONE", "TEN", "TWO"}) {
        Fld f = k.field(n);
        if (f == null) continue;
        Obj o = mkBig(e, hostBig(n.equals("ZERO") ? BigInteger.ZERO : n.equals("ONE") ? BigInteger.ONE : n.equals("TWO") ? BigInteger.valueOf(2) : BigInteger.TEN));
        o.base = true;
        k.statics[f.slot] = o;
      }
      return null;
    });
    m.put(B + "valueOf(J)" + LB, (e, a) -> mkBig(e, bigOf(e, a[0])));
    m.put(B + "<init>(" + LS + ")V", (e, a) -> {
      try {
        e.payload((Obj) a[0], hostBig(new BigInteger(e.host(a[1]))));
      } catch (NumberFormatException x) {
        throw e.thr("java/lang/NumberFormatException", x.getMessage());
      }
      return null;
    });
    m.put(B + "signum()I", (e, a) -> big(e, a[0]).sign);
    m.put(B + "abs()" + LB, (e, a) -> {
      Big b = big(e, a[0]);
      return b.sign >= 0 ? a[0] : mkBig(e, new Big(1, b.mag));
    });
    m.put(B + "negate()" + LB, (e, a) -> {
      Big b = big(e, a[0]);
      return mkBig(e, new Big(-b.sign, b.mag));
    });
    m.put(B + "toString()" + LS, (e, a) -> e.str(bigText(e, big(e, a[0]), 10)));
    m.put(B + "toString(I)" + LS, (e, a) -> e.str(bigText(e, big(e, a[0]), e.concretize(a[1], "radix"))));
    m.put(B + "longValue()J", (e, a) -> {
      Big b = big(e, a[0]);
      if (isHost(b)) return hostOf(b).longValue();
      Term v = low64(e, b);
      return e.I(b.sign < 0 ? e.tf.neg(v) : v);
    });
    m.put(B + "intValue()I", (e, a) -> {
      Big b = big(e, a[0]);
      if (isHost(b)) return hostOf(b).intValue();
      Term v = low64(e, b);
      return e.I(e.tf.l2i(b.sign < 0 ? e.tf.neg(v) : v));
    });
    m.put(B + "intValueExact()I", (e, a) -> {
      Big b = big(e, a[0]);
      if (isHost(b)) {
        if (hostOf(b).bitLength() > 31) throw e.thr("java/lang/ArithmeticException", "BigInteger out of int range");
        return hostOf(b).intValue();
      }
      if (bitLength(e, b) > 31) throw e.thr("java/lang/ArithmeticException", "BigInteger out of int range");
      Term v = low64(e, b);
      return e.I(e.tf.l2i(b.sign < 0 ? e.tf.neg(v) : v));
    });
    m.put(B + "longValueExact()J", (e, a) -> {
      Big b = big(e, a[0]);
      if (bitLength(e, b) > 63) throw e.thr("java/lang/ArithmeticException", "BigInteger out of long range");
      if (isHost(b)) return hostOf(b).longValue();
      Term v = low64(e, b);
      return e.I(b.sign < 0 ? e.tf.neg(v) : v);
    });
    m.put(B + "doubleValue()D", (e, a) -> {
      Big b = big(e, a[0]);
      if (isHost(b)) return hostOf(b).doubleValue();
      throw new Unsupported("doubleValue of a symbolic big integer");
    });
    m.put(B + "bitLength()I", (e, a) -> {
      Big b = big(e, a[0]);
      if (isHost(b)) return hostOf(b).bitLength();
      return bitLength(e, b);
    });
    m.put(B + "hashCode()I", (e, a) -> hostOf(big(e, a[0])).hashCode());
    m.put(B + "equals(" + O + ")Z", (e, a) -> {
      if (a[1] == null || !((Obj) a[1]).k.name.equals("java/math/BigInteger")) return 0;
      return cmp(e, big(e, a[0]), big(e, a[1])) == 0 ? 1 : 0;
    });
    m.put(B + "compareTo(" + LB + ")I", (e, a) -> cmp(e, big(e, a[0]), big(e, a[1])));
    m.put(B + "compareTo(" + O + ")I", (e, a) -> cmp(e, big(e, a[0]), big(e, a[1])));
    m.put(B + "compareMagnitude(" + LB + ")I", (e, a) -> cmp(e, new Big(big(e, a[0]).sign == 0 ? 0 : 1, big(e, a[0]).mag), new Big(big(e, a[1]).sign == 0 ? 0 : 1, big(e, a[1]).mag)));
    m.put(B + "testBit(I)Z", (e, a) -> {
      Big b = big(e, a[0]);
      int n = e.concretize(a[1], "bit");
      if (isHost(b)) return hostOf(b).testBit(n) ? 1 : 0;
      if (n >= bitLength(e, b)) return b.sign < 0 ? 1 : 0;
      if (n > 63) throw new Unsupported("high bit of a symbolic big integer");
      Term v = low64(e, b);
      return e.I(e.tf.l2i(e.tf.and(e.tf.lshr(b.sign < 0 ? e.tf.neg(v) : v, e.tf.cst(64, n)), e.tf.cst(64, 1))));
    });
    interface H2 { BigInteger f(BigInteger x, BigInteger y); }
    HashMap<String, H2> two = new HashMap<>();
    two.put("add", BigInteger::add);
    two.put("subtract", BigInteger::subtract);
    two.put("multiply", BigInteger::multiply);
    two.put("divide", BigInteger::divide);
    two.put("remainder", BigInteger::remainder);
    two.put("mod", BigInteger::mod);
    two.put("and", BigInteger::and);
    two.put("or", BigInteger::or);
    two.put("xor", BigInteger::xor);
    two.put("max", BigInteger::max);
    two.put("min", BigInteger::min);
    two.forEach((n, f) -> m.put(B + n + "(" + LB + ")" + LB, (e, a) -> {
      Big bx = big(e, a[0]), by = big(e, a[1]);
      if (!isHost(bx) || !isHost(by)) {
        Big r = small(e, n, bx, by);
        if (r != null) return mkBig(e, r);
      }
      BigInteger x = hostOf(bx), y = hostOf(by);
      if (y.signum() == 0 && (n.equals("divide") || n.equals("remainder") || n.equals("mod"))) throw e.thr("java/lang/ArithmeticException", "BigInteger divide by zero");
      return mkBig(e, hostBig(f.f(x, y)));
    }));
    m.put(B + "divideAndRemainder(" + LB + ")[" + LB, (e, a) -> {
      BigInteger[] q = hostOf(big(e, a[0])).divideAndRemainder(hostOf(big(e, a[1])));
      return e.arr(e.klass("[" + LB), new Object[] {mkBig(e, hostBig(q[0])), mkBig(e, hostBig(q[1]))});
    });
    m.put(B + "pow(I)" + LB, (e, a) -> mkBig(e, hostBig(hostOf(big(e, a[0])).pow(e.concretize(a[1], "exponent")))));
    m.put(B + "shiftLeft(I)" + LB, (e, a) -> mkBig(e, hostBig(hostOf(big(e, a[0])).shiftLeft(e.concretize(a[1], "shift")))));
    m.put(B + "shiftRight(I)" + LB, (e, a) -> {
      Big b = big(e, a[0]);
      int n = e.concretize(a[1], "shift");
      if (b.sign > 0 && b.mag instanceof Term && n >= 0) return mkBig(e, n > 63 ? hostBig(BigInteger.ZERO) : unsigned(e, e.tf.lshr((Term) b.mag, e.tf.cst(64, n))));
      return mkBig(e, hostBig(hostOf(b).shiftRight(n)));
    });
    // BigDecimal internals that look inside BigInteger
    String DEC = "java/math/BigDecimal.";
    m.put(DEC + "compactValFor(" + LB + ")J", (e, a) -> {
      Big b = big(e, a[0]);
      if (isHost(b)) {
        BigInteger v = hostOf(b);
        return v.bitLength() <= 63 && !v.equals(BigInteger.valueOf(Long.MIN_VALUE)) ? v.longValue() : Long.MIN_VALUE;
      }
      if (!(b.mag instanceof Term)) return Long.MIN_VALUE;
      Term t = (Term) b.mag;
      if (e.decide(e.tf.slt(t, e.tf.cst(64, 0)))) return Long.MIN_VALUE;
      return e.I(b.sign < 0 ? e.tf.neg(t) : t);
    });
    m.put(DEC + "bigDigitLength(" + LB + ")I", (e, a) -> {
      Big b = big(e, a[0]);
      if (b.sign == 0) return 1;
      if (isHost(b)) return hostOf(b).abs().toString().length();
      if (b.mag instanceof Term) return decimal(e, (Term) b.mag).length;
      if ((Integer) ((Object[]) b.mag)[0] == 10) return ((Rope) ((Object[]) b.mag)[1]).ch.length;
      throw new Unsupported("precision of a digit-string integer");
    });
    m.put(DEC + "bigMultiplyPowerTen(" + LB + "I)" + LB, (e, a) -> {
      int n = e.concretize(a[1], "power");
      if (n <= 0) return a[0];
      Big b = big(e, a[0]);
      if (isHost(b)) return mkBig(e, hostBig(hostOf(b).multiply(BigInteger.TEN.pow(n))));
      Object[] d = Arrays.copyOf(decimalDigits(e, b), decimalDigits(e, b).length + n);
      Arrays.fill(d, d.length - n, d.length, 0);
      return mkBig(e, ofDigits(e, b.sign, d));
    });
    m.put(DEC + "bigTenToThe(I)" + LB, (e, a) -> mkBig(e, hostBig(BigInteger.TEN.pow(e.concretize(a[0], "power")))));
    m.put(DEC + "expandBigIntegerTenPowers(I)" + LB, (e, a) -> mkBig(e, hostBig(BigInteger.TEN.pow(e.concretize(a[0], "power")))));
    m.put(DEC + "longDigitLength(J)I", (e, a) -> {
      if (a[0] instanceof Long) return java.math.BigDecimal.valueOf((Long) a[0]).precision();
      Term t = (Term) a[0];
      if (e.decide(e.tf.slt(t, e.tf.cst(64, 0)))) t = e.tf.neg(t);
      return decimal(e, t).length;
    });
    m.put(DEC + "divideAndRound(JJI)J", (e, a) -> {
      Term q = halfUp(e, a[0], a[1], a[2]);
      return q != null ? e.I(q) : e.body(e.klass("java/math/BigDecimal").methods.get("divideAndRound(JJI)J"), a);
    });
    m.put(DEC + "divideAndRound(JJIII)Ljava/math/BigDecimal;", (e, a) -> {
      Term q = a[2] instanceof Integer && a[2].equals(a[4]) ? halfUp(e, a[0], a[1], a[3]) : null;
      if (q == null) return e.body(e.klass("java/math/BigDecimal").methods.get("divideAndRound(JJIII)Ljava/math/BigDecimal;"), a);
      return e.callStatic("java/math/BigDecimal", "valueOf(JI)Ljava/math/BigDecimal;", e.I(q), a[2]);
    });
    m.put(DEC + "divideAndRound(" + LB + "JI)" + LB, (e, a) -> roundDiv(e, big(e, a[0]), BigInteger.valueOf((Long) a[1]), (Integer) a[2]));
    m.put(DEC + "divideAndRound(" + LB + LB + "I)" + LB, (e, a) -> roundDiv(e, big(e, a[0]), hostOf(big(e, a[1])), (Integer) a[2]));
    m.put(DEC + "divideAndRound(" + LB + "JIII)Ljava/math/BigDecimal;", (e, a) -> roundDivDec(e, big(e, a[0]), BigInteger.valueOf((Long) a[1]), e.concretize(a[2], "scale"), e.concretize(a[3], "mode"), e.concretize(a[4], "scale")));
    m.put(DEC + "divideAndRound(" + LB + LB + "III)Ljava/math/BigDecimal;", (e, a) -> roundDivDec(e, big(e, a[0]), hostOf(big(e, a[1])), e.concretize(a[2], "scale"), e.concretize(a[3], "mode"), e.concretize(a[4], "scale")));
    m.put(DEC + "toString()" + LS, (e, a) -> e.str(decimalText(e, (Obj) a[0])));
    m.put(DEC + "<init>(" + LS + ")V", (e, a) -> {
      java.math.BigDecimal v;
      try {
        v = new java.math.BigDecimal(e.host(a[1]));
      } catch (NumberFormatException x) {
        throw e.thr("java/lang/NumberFormatException", x.getMessage());
      }
      Obj o = (Obj) a[0];
      BigInteger u = v.unscaledValue();
      boolean fits = u.bitLength() <= 63 && !u.equals(BigInteger.valueOf(Long.MIN_VALUE));
      e.setField(o, "intCompact", fits ? u.longValue() : Long.MIN_VALUE);
      e.setField(o, "intVal", fits ? null : mkBig(e, hostBig(u)));
      e.setField(o, "scale", v.scale());
      return null;
    });
    m.put(DEC + "doubleValue()D", (e, a) -> {
      Obj o = (Obj) a[0];
      Object c = e.getField(o, "intCompact"), s = e.getField(o, "scale");
      if (!(c instanceof Long) || !(s instanceof Integer)) throw new Unsupported("doubleValue of a symbolic decimal");
      BigInteger u = (Long) c == Long.MIN_VALUE ? hostOf(big(e, e.getField(o, "intVal"))) : BigInteger.valueOf((Long) c);
      return new java.math.BigDecimal(u, (Integer) s).doubleValue();
    });
  }

  /** BigDecimal.toString */
  private static Rope decimalText(Engine e, Obj o) {
    Object c = e.getField(o, "intCompact");
    int scale = e.concretize(e.getField(o, "scale"), "scale");
    Object iv = e.getField(o, "intVal");
    Rope u;
    if (c instanceof Long && (Long) c == Long.MIN_VALUE) u = bigText(e, big(e, iv), 10);
    else if (c instanceof Long) u = Rope.of(Long.toString((Long) c));
    else u = signed(e, (Term) c, Long.MIN_VALUE);
    if (scale == 0) return u;
    Object[] d = u.toUnits(e);
    ArrayList<Object> r = new ArrayList<>(Arrays.asList(d));
    int i = d[0] instanceof Integer && (Integer) d[0] == '-' ? 1 : 0;
    int len = d.length - i;
    long adjusted = -(long) scale + (len - 1);
    if (scale >= 0 && adjusted >= -6) {
      int pad = scale - len;
      if (pad >= 0) {
        r.add(i, (int) '0');
        r.add(i + 1, (int) '.');
        for (int k = 0; k < pad; k++) r.add(i + 2, (int) '0');
      } else r.add(i - pad, (int) '.');
    } else {
      if (len > 1) r.add(i + 1, (int) '.');
      if (adjusted != 0) {
        String t = (adjusted > 0 ? "E+" : "E") + adjusted;
        for (int k = 0; k < t.length(); k++) r.add((int) t.charAt(k));
      }
    }
    return Rope.units(r.toArray());
  }

  /** x / d rounded half up for x >= 0 and a constant d > 0, else null */
  private static Term halfUp(Engine e, Object x, Object d, Object mode) {
    if (!(x instanceof Term) || !(d instanceof Long) || !Integer.valueOf(4).equals(mode) || (Long) d <= 0) return null;
    long[] r = e.range((Term) x);
    if (r[0] < 0 || r[1] > Long.MAX_VALUE - (Long) d) return null;
    return e.tf.sdiv(e.tf.add((Term) x, e.tf.cst(64, (Long) d / 2)), e.tf.cst(64, (Long) d));
  }

  /** decimal digit values of a non-zero symbolic magnitude */
  static Object[] decimalDigits(Engine e, Big b) {
    if (b.mag instanceof Term) {
      Object[] c = decimal(e, (Term) b.mag);
      for (int i = 0; i < c.length; i++) c[i] = e.isub(c[i], 48);
      return c;
    }
    return digitValues(e, b, 10);
  }

  static Big ofDigits(Engine e, int sign, Object[] d) {
    Object[] c = new Object[d.length];
    for (int i = 0; i < d.length; i++) c[i] = e.iadd(d[i], 48);
    return new Big(sign, new Object[] {10, Rope.units(c)});
  }

  /** x / 10^drop rounded half up in magnitude */
  private static Big dropDigits(Engine e, Big x, int drop) {
    Object[] d = decimalDigits(e, x);
    int n = d.length - drop;
    if (n < 0 || e.decide(e.ilt(d[n], 5))) {
      if (n <= 0) return hostBig(BigInteger.ZERO);
      return ofDigits(e, x.sign, Arrays.copyOf(d, n));
    }
    Object[] k = Arrays.copyOf(d, n);
    int i = n - 1;
    while (i >= 0 && e.decide(e.ilt(8, k[i]))) k[i--] = 0;
    if (i >= 0) {
      k[i] = e.iadd(k[i], 1);
      return ofDigits(e, x.sign, k);
    }
    k = new Object[n + 1];
    Arrays.fill(k, 0);
    k[0] = 1;
    return hostBig(new BigInteger(x.sign < 0 ? "-1" : "1").multiply(BigInteger.TEN.pow(n)));
  }

  private static Big roundSym(Engine e, Big x, BigInteger y, int mode) {
    if (mode != 4 || y.signum() <= 0) throw new Unsupported("rounding of a symbolic big integer");
    String s = y.toString();
    if (!s.substring(1).replace("0", "").isEmpty() || s.charAt(0) != '1') throw new Unsupported("division of a symbolic big integer");
    return dropDigits(e, x, s.length() - 1);
  }

  static Obj roundDiv(Engine e, Big bx, BigInteger y, int mode) {
    if (!isHost(bx)) return mkBig(e, roundSym(e, bx, y, mode));
    BigInteger x = hostOf(bx);
    return mkBig(e, hostBig(new java.math.BigDecimal(x).divide(new java.math.BigDecimal(y), 0, java.math.RoundingMode.valueOf(mode)).toBigInteger()));
  }

  static Object roundDivDec(Engine e, Big bx, BigInteger y, int scale, int mode, int pref) {
    if (!isHost(bx)) {
      if (pref != scale) throw new Unsupported("division of a symbolic big integer");
      return e.newObj("java/math/BigDecimal", "(Ljava/math/BigInteger;I)V", mkBig(e, roundSym(e, bx, y, mode)), scale);
    }
    BigInteger x = hostOf(bx);
    BigInteger q = new java.math.BigDecimal(x).divide(new java.math.BigDecimal(y), 0, java.math.RoundingMode.valueOf(mode)).toBigInteger();
    java.math.BigDecimal d = new java.math.BigDecimal(q, scale);
    while (pref != scale && d.scale() > pref) {
      if (d.unscaledValue().signum() == 0) break;
      BigInteger[] qr = d.unscaledValue().divideAndRemainder(BigInteger.TEN);
      if (qr[1].signum() != 0) break;
      d = new java.math.BigDecimal(qr[0], d.scale() - 1);
    }
    return e.newObj("java/math/BigDecimal", "(Ljava/math/BigInteger;I)V", mkBig(e, hostBig(d.unscaledValue())), d.scale());
  }

  static int cmp(Engine e, Big x, Big y) {
    if (x.sign != y.sign) return x.sign < y.sign ? -1 : 1;
    if (x.sign == 0) return 0;
    int c;
    if (isHost(x) && isHost(y)) c = ((BigInteger) x.mag).compareTo((BigInteger) y.mag);
    else {
      Term a = u64(e, x), b = u64(e, y);
      if (a == null || b == null) {
        c = cmpDigits(e, x, y);
      } else if (e.decide(e.tf.eq(a, b))) c = 0;
      else c = e.decide(e.tf.ult(a, b)) ? -1 : 1;
    }
    return x.sign * c;
  }

  private static Term u64(Engine e, Big b) {
    if (b.mag instanceof Term) return (Term) b.mag;
    if (isHost(b) && ((BigInteger) b.mag).bitLength() <= 64) return e.tf.cst(64, ((BigInteger) b.mag).longValue());
    return null;
  }

  /** digit values, most significant first: Integer or Term of width 32 */
  static Object[] digitValues(Engine e, Big b, int radix) {
    Object[] q = (Object[]) b.mag;
    if ((Integer) q[0] != radix) throw new Unsupported("digits in another radix");
    Rope r = (Rope) q[1];
    int n = r.ch.length;
    Object[] d = new Object[n];
    for (int i = 0; i < n; i++) {
      Object c = r.charAt(e, i);
      if (c instanceof Integer) d[i] = Character.digit((Integer) c, 16);
      else if (((Term) c).op == Op.SELECT) d[i] = e.I(((Term) c).a[0]);
      else d[i] = e.I(e.tf.sub((Term) c, e.tf.cst(32, 48)));
    }
    return d;
  }

  static Term low64(Engine e, Big b) {
    if (b.mag instanceof Term) return (Term) b.mag;
    if (isHost(b)) return e.tf.cst(64, ((BigInteger) b.mag).longValue());
    int radix = (Integer) ((Object[]) b.mag)[0];
    Term v = e.tf.cst(64, 0);
    for (Object d : digitValues(e, b, radix)) v = e.tf.add(e.tf.mul(v, e.tf.cst(64, radix)), e.tf.i2l(d instanceof Term ? (Term) d : e.tf.cst(32, (Integer) d)));
    return v;
  }

  /** digit string below the constant? */
  static boolean below(Engine e, Object[] d, BigInteger k, int radix) {
    String s = k.toString(radix);
    if (s.length() != d.length) return d.length < s.length();
    Term r = e.tf.F;
    for (int i = d.length - 1; i >= 0; i--) {
      Term x = d[i] instanceof Term ? (Term) d[i] : e.tf.cst(32, (Integer) d[i]);
      Term c = e.tf.cst(32, Character.digit(s.charAt(i), radix));
      r = e.tf.bor(e.tf.slt(x, c), e.tf.band(e.tf.eq(x, c), r));
    }
    return e.decide(r);
  }

  static int bitLength(Engine e, Big b) {
    if (isHost(b)) return hostOf(b).bitLength();
    if (b.mag instanceof Term) {
      Term t = (Term) b.mag;
      if (b.sign < 0) t = e.tf.sub(t, e.tf.cst(64, 1));
      int n = 0;
      while (n < 64 && !e.decide(e.tf.ult(t, e.tf.cst(64, 1L << n)))) n++;
      return n;
    }
    int radix = (Integer) ((Object[]) b.mag)[0];
    Object[] d = digitValues(e, b, radix);
    int n = BigInteger.valueOf(radix).pow(d.length - 1).bitLength();
    // for a negative value the length is that of magnitude - 1
    while (!below(e, d, BigInteger.ONE.shiftLeft(n).add(b.sign < 0 ? BigInteger.ONE : BigInteger.ZERO), radix)) n++;
    return n;
  }

  private static int cmpDigits(Engine e, Big x, Big y) {
    if (!isHost(y) && !isHost(x)) {
      if (x.mag instanceof Object[] && y.mag instanceof Object[]) {
        int radix = (Integer) ((Object[]) x.mag)[0];
        Object[] p = digitValues(e, x, radix), q = digitValues(e, y, radix);
        if (p.length != q.length) return p.length < q.length ? -1 : 1;
        for (int i = 0; i < p.length; i++) {
          Term s = p[i] instanceof Term ? (Term) p[i] : e.tf.cst(32, (Integer) p[i]), t = q[i] instanceof Term ? (Term) q[i] : e.tf.cst(32, (Integer) q[i]);
          if (e.decide(e.tf.eq(s, t))) continue;
          return e.decide(e.tf.slt(s, t)) ? -1 : 1;
        }
        return 0;
      }
      throw new Unsupported("comparison of digit-string integers");
    }
    if (isHost(x)) return -cmpDigits(e, y, x);
    BigInteger k = (BigInteger) y.mag;
    if (x.mag instanceof Term) return -1; // k does not fit in 64 bits
    int radix = (Integer) ((Object[]) x.mag)[0];
    Object[] d = digitValues(e, x, radix);
    if (below(e, d, k, radix)) return -1;
    return below(e, d, k.add(BigInteger.ONE), radix) ? 0 : 1;
  }

  static Big unsigned(Engine e, Term t) {
    Object v = e.I(t);
    if (v instanceof Long) return hostBig(new BigInteger(Long.toUnsignedString((Long) v)));
    if (e.decide(e.tf.eq(t, e.tf.cst(64, 0)))) return new Big(0, BigInteger.ZERO);
    return new Big(1, t);
  }

  /** bitwise operations on non-negative values below 2^64 */
  private static Big small(Engine e, String op, Big x, Big y) {
    if (x.sign < 0 || y.sign < 0) return null;
    if (x.sign == 0 || y.sign == 0) {
      Big o = x.sign == 0 ? y : x;
      if (op.equals("or") || op.equals("xor") || op.equals("add") || op.equals("max")) return o;
      if (op.equals("and") || op.equals("multiply") || op.equals("min")) return x.sign == 0 ? x : y;
      return null;
    }
    if (op.equals("min")) return cmp(e, x, y) <= 0 ? x : y;
    if (op.equals("max")) return cmp(e, x, y) >= 0 ? x : y;
    if (op.equals("and") && isHost(y) && ((BigInteger) y.mag).bitLength() <= 64) return unsigned(e, e.tf.and(low64(e, x), low64(e, y)));
    if (op.equals("and") && isHost(x) && ((BigInteger) x.mag).bitLength() <= 64) return unsigned(e, e.tf.and(low64(e, x), low64(e, y)));
    if (op.equals("and") && isHost(y) && x.mag instanceof Term) return unsigned(e, e.tf.and((Term) x.mag, e.tf.cst(64, ((BigInteger) y.mag).longValue())));
    Term a = u64(e, x), b = u64(e, y);
    if (a == null || b == null) return null;
    switch (op) {
      case "and":
        return unsigned(e, e.tf.and(a, b));
      case "or":
        return unsigned(e, e.tf.or(a, b));
      case "xor":
        return unsigned(e, e.tf.xor(a, b));
      default:
        return null;
    }
  }

  /** the class's own entry among the inner classes */
  private static InnerClassNode inner(Klass k) {
    if (k.node != null) for (InnerClassNode i : k.node.innerClasses) if (i.name.equals(k.name)) return i;
    return null;
  }

  private static String simpleName(Klass k) {
    if (k.isArray()) return simpleName(k.elem) + "[]";
    InnerClassNode i = inner(k);
    return i == null ? k.name.substring(k.name.lastIndexOf('/') + 1) : i.innerName == null ? "" : i.innerName;
  }

  private static String canonicalName(Engine e, Klass k) {
    if (k.isArray()) {
      String n = canonicalName(e, k.elem);
      return n == null ? null : n + "[]";
    }
    InnerClassNode i = inner(k);
    if (i == null) return k.name.replace('/', '.');
    if (i.innerName == null || i.outerName == null) return null;
    String n = canonicalName(e, e.klass(i.outerName));
    return n == null ? null : n + "." + i.innerName;
  }
}
