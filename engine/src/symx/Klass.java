package symx;

import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;

final class Fld {
  final Klass owner;
  final String name, desc;
  final boolean isStatic, isFinal;
  int slot;

  Fld(Klass o, String n, String d, int acc) {
    owner = o;
    name = n;
    desc = d;
    isStatic = (acc & Opcodes.ACC_STATIC) != 0;
    isFinal = (acc & Opcodes.ACC_FINAL) != 0;
  }
}

interface Native {
  Object call(Engine e, Object[] a);
}

final class Insn {
  int op;
  int i, j;
  Object x;
  Object cache;
  int line;
  int noMerge;
  /** unique visible-operation key for concurrency */
  int key;
}

final class Handler {
  int start, end, target;
  String type;
}

final class Meth {
  final Klass owner;
  final String name, desc, key;
  final boolean isStatic, isAbstract, isNative, isSync;
  final MethodNode node;
  final int nargs; // including receiver
  final int[] argSlots; // local slot of each argument
  final char ret;
  Native nat;
  boolean linked;
  Insn[] code;
  Handler[] handlers;
  Spec.Flow flow;
  int maxLocals, maxStack;
  long executed;

  Meth(Klass o, MethodNode n) {
    owner = o;
    node = n;
    name = n.name;
    desc = n.desc;
    key = name + desc;
    isStatic = (n.access & Opcodes.ACC_STATIC) != 0;
    isAbstract = (n.access & Opcodes.ACC_ABSTRACT) != 0;
    isNative = (n.access & Opcodes.ACC_NATIVE) != 0;
    isSync = (n.access & Opcodes.ACC_SYNCHRONIZED) != 0;
    Type[] ts = Type.getArgumentTypes(desc);
    nargs = ts.length + (isStatic ? 0 : 1);
    argSlots = new int[nargs];
    int s = 0, i = 0;
    if (!isStatic) argSlots[i++] = s++;
    for (Type t : ts) {
      argSlots[i++] = s;
      s += t.getSize();
    }
    ret = Type.getReturnType(desc).getDescriptor().charAt(0);
  }

  @Override
  public String toString() {
    return owner.name + "." + key;
  }

  void link() {
    linked = true;
    if (node.instructions.size() == 0) return;
    Map<LabelNode, Integer> pos = new HashMap<>();
    List<AbstractInsnNode> list = new ArrayList<>();
    int n = 0;
    int line = 0;
    List<Integer> lines = new ArrayList<>();
    for (AbstractInsnNode in = node.instructions.getFirst(); in != null; in = in.getNext()) {
      if (in instanceof LabelNode) pos.put((LabelNode) in, n);
      else if (in instanceof LineNumberNode) line = ((LineNumberNode) in).line;
      else if (in.getOpcode() >= 0) {
        list.add(in);
        lines.add(line);
        n++;
      }
    }
    code = new Insn[n];
    for (int i = 0; i < n; i++) {
      AbstractInsnNode in = list.get(i);
      Insn r = new Insn();
      r.op = in.getOpcode();
      r.line = lines.get(i);
      r.key = System.identityHashCode(r);
      switch (in.getType()) {
        case AbstractInsnNode.INT_INSN: r.i = ((IntInsnNode) in).operand; break;
        case AbstractInsnNode.VAR_INSN: r.i = ((VarInsnNode) in).var; break;
        case AbstractInsnNode.IINC_INSN:
          r.i = ((IincInsnNode) in).var;
          r.j = ((IincInsnNode) in).incr;
          break;
        case AbstractInsnNode.JUMP_INSN: r.i = pos.get(((JumpInsnNode) in).label); break;
        case AbstractInsnNode.TABLESWITCH_INSN: {
          TableSwitchInsnNode t = (TableSwitchInsnNode) in;
          int m = t.labels.size();
          int[] keys = new int[m], tg = new int[m];
          for (int q = 0; q < m; q++) {
            keys[q] = t.min + q;
            tg[q] = pos.get(t.labels.get(q));
          }
          r.op = Opcodes.LOOKUPSWITCH;
          r.x = new int[][] {keys, tg};
          r.i = pos.get(t.dflt);
          break;
        }
        case AbstractInsnNode.LOOKUPSWITCH_INSN: {
          LookupSwitchInsnNode t = (LookupSwitchInsnNode) in;
          int m = t.labels.size();
          int[] keys = new int[m], tg = new int[m];
          for (int q = 0; q < m; q++) {
            keys[q] = t.keys.get(q);
            tg[q] = pos.get(t.labels.get(q));
          }
          r.x = new int[][] {keys, tg};
          r.i = pos.get(t.dflt);
          break;
        }
        case AbstractInsnNode.LDC_INSN: r.x = ((LdcInsnNode) in).cst; break;
        case AbstractInsnNode.MULTIANEWARRAY_INSN:
          r.x = ((MultiANewArrayInsnNode) in).desc;
          r.i = ((MultiANewArrayInsnNode) in).dims;
          break;
        default: r.x = in;
      }
      code[i] = r;
    }
    handlers = new Handler[node.tryCatchBlocks.size()];
    for (int i = 0; i < handlers.length; i++) {
      TryCatchBlockNode t = node.tryCatchBlocks.get(i);
      Handler h = new Handler();
      h.start = pos.get(t.start);
      h.end = pos.get(t.end);
      h.target = pos.get(t.handler);
      h.type = t.type;
      handlers[i] = h;
    }
    maxLocals = node.maxLocals;
    maxStack = node.maxStack;
  }
}

final class Klass {
  final String name;
  Klass sup;
  Klass[] ifs = new Klass[0];
  Klass elem; // arrays
  ClassNode node;
  boolean isInterface;
  boolean primitive;
  int state; // 0 fresh, 1 initialising, 2 done
  final LinkedHashMap<String, Fld> fields = new LinkedHashMap<>(); // declared
  final LinkedHashMap<String, Meth> methods = new LinkedHashMap<>(); // declared
  final HashMap<String, Meth> vt = new HashMap<>();
  final HashMap<String, Fld> fcache = new HashMap<>();
  int nfields; // instance fields incl. inherited
  Object[] defaults;
  Object[] statics;
  Fld[] allInst;
  Obj mirror;
  final Set<Klass> supers = new HashSet<>();
  boolean fromRepo;
  /** defining source: repo, harness, jdk */
  String origin = "jdk";

  Klass(String name) {
    this.name = name;
  }

  boolean isArray() {
    return elem != null;
  }

  boolean subOf(Klass o) {
    if (this == o || o.name.equals("java/lang/Object")) return !primitive || this == o;
    if (isArray()) {
      if (o.isArray()) return elem.primitive || o.elem.primitive ? elem == o.elem : elem.subOf(o.elem);
      return o.name.equals("java/lang/Cloneable") || o.name.equals("java/io/Serializable");
    }
    return supers.contains(o);
  }

  Fld field(String n) {
    Fld f = fcache.get(n);
    if (f != null) return f;
    f = fields.get(n);
    if (f == null) for (Klass i : ifs) if ((f = i.field(n)) != null) break;
    if (f == null && sup != null) f = sup.field(n);
    if (f != null) fcache.put(n, f);
    return f;
  }

  /** virtual lookup from this concrete class */
  Meth virt(String key) {
    Meth m = vt.get(key);
    if (m != null) return m;
    for (Klass k = this; k != null; k = k.sup) {
      m = k.methods.get(key);
      if (m != null && !(m.isAbstract && k != this)) break;
      if (m != null) break;
    }
    if (m == null || m.isAbstract) {
      Meth best = null;
      for (Klass k = this; k != null; k = k.sup)
        for (Klass i : k.ifs) best = pick(best, i.ifaceFind(key));
      if (best != null && (m == null || !best.isAbstract && m.isAbstract)) m = best;
    }
    if (m != null) vt.put(key, m);
    return m;
  }

  private static Meth pick(Meth a, Meth b) {
    if (a == null) return b;
    if (b == null) return a;
    if (a.isAbstract && !b.isAbstract) return b;
    if (b.isAbstract && !a.isAbstract) return a;
    return b.owner.subOf(a.owner) ? b : a;
  }

  private Meth ifaceFind(String key) {
    Meth m = methods.get(key);
    if (m != null && !m.isStatic) return m;
    Meth best = null;
    for (Klass i : ifs) best = pick(best, i.ifaceFind(key));
    return best;
  }

  /** static / special lookup */
  Meth find(String key) {
    Meth m = methods.get(key);
    if (m != null) return m;
    if (sup != null && (m = sup.find(key)) != null) return m;
    for (Klass i : ifs) if ((m = i.find(key)) != null) return m;
    return null;
  }

  @Override
  public String toString() {
    return name;
  }
}
