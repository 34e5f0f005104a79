package symx;

/** Heap objects of the interpreted program. */
final class Heap {}

class Obj {
  final Klass k;
  Object[] f;
  /** allocated during class initialisation: shared by all paths, writes are journaled */
  boolean base;
  /** merged from several candidate objects (identity is not meaningful) */
  boolean merged;
  /** native payload: Rope (String, StringBuilder), Klass (Class), host objects, ... */
  Object x;
  Object idHash;
  /** serial number of the owning thread for sharing analysis */
  int owner;

  Obj(Klass k, int n) {
    this.k = k;
    this.f = n == 0 ? NONE : new Object[n];
  }

  static final Object[] NONE = new Object[0];

  @Override
  public String toString() {
    return k.name + (x instanceof Rope ? ":" + x : "@" + Integer.toHexString(System.identityHashCode(this)));
  }
}

final class Arr extends Obj {
  Object[] e;

  Arr(Klass k, Object[] e) {
    super(k, 0);
    this.e = e;
  }

  Rope lazy() {
    return e == null ? (Rope) x : null;
  }
}

/** A Java exception propagating in the interpreted program. */
final class JThrow extends RuntimeException {
  final Obj ex;
  final StringBuilder where = new StringBuilder();

  JThrow(Obj ex) {
    super(null, null, false, false);
    this.ex = ex;
  }
}

/** End of the current path. */
class PathEnd extends RuntimeException {
  PathEnd(String m) {
    super(m, null, false, false);
  }
}

final class Infeasible extends PathEnd {
  Infeasible(String m) {
    super(m);
  }
}

/** The time budget is used up: the path counts as unexplored. */
final class Late extends PathEnd {
  Late() {
    super("time budget");
  }
}

/** The engine cannot continue this path: it counts as undecided. */
final class Unsupported extends PathEnd {
  final StringBuilder where = new StringBuilder();
  int depth;

  Unsupported(String m) {
    super(m);
  }
}
