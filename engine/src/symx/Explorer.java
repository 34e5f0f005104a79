package symx;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.TimeUnit;

/** Work queue over path prefixes, results, counterexample replay and trace validation. */
final class Explorer {
  static final class Job {
    String cls, method, mode, bounds;
    ArrayDeque<Item> queue = new ArrayDeque<>();
    int active;
    long nanos, paths, infeasible, undecided, started, violations, left;
    boolean stop;
    final TreeMap<String, Integer> undecidedReasons = new TreeMap<>();
    final TreeMap<String, Integer> covers = new TreeMap<>();
    final List<Sample> samples = new ArrayList<>();
    final List<Sample> doubtful = new ArrayList<>();
    long eligible;

    String id() {
      return cls.substring(cls.lastIndexOf('/') + 1) + "." + method;
    }
  }

  static final class Item {
    final Job job;
    final int[] prefix;
    final Map<String, Long> wit;

    Item(Job j, int[] p, Map<String, Long> w) {
      job = j;
      prefix = p;
      wit = w;
    }
  }

  static final class Sample {
    Job job;
    TreeMap<String, Long> in = new TreeMap<>();
    List<String> outs = new ArrayList<>();
    String msg;
    boolean lenient;
  }

  static final int DOUBTFUL = 400;
  final ClassRepo repo;
  final List<Job> jobs = new ArrayList<>();
  final long seed;
  final boolean thorough;
  final boolean debug = System.getProperty("symx.debug") != null;
  final long deadline;
  final List<Sample> violations = new ArrayList<>();
  final List<Engine> engines = new ArrayList<>();
  final int sampleCap;
  final Random rnd;
  final ThreadLocal<Job> current = new ThreadLocal<>();
  volatile Throwable crash;
  int activeTotal;
  long undecidedTotal;

  Explorer(ClassRepo repo, long seed, boolean thorough, long budgetMs) {
    this.repo = repo;
    this.seed = seed;
    this.thorough = thorough;
    this.deadline = System.currentTimeMillis() + budgetMs;
    this.sampleCap = thorough ? 400 : 120;
    this.rnd = new Random(seed);
  }

  // ------------------------------------------------------------ called by engines
  void push(int[] prefix, Map<String, Long> wit) {
    Job j = current.get();
    synchronized (this) {
      j.queue.push(new Item(j, prefix, wit == null ? null : new HashMap<>(wit)));
      notifyAll();
    }
  }

  void violation(Engine e, String msg, Map<String, Long> wit) {
    Job j = current.get();
    Sample s = sample(e, j, wit);
    s.msg = msg;
    synchronized (this) {
      j.violations++;
      violations.add(s);
      if (j.violations >= 40) {
        j.stop = true;
        j.left += j.queue.size();
        j.queue.clear();
        notifyAll();
      }
    }
    if (debug) System.err.println("VIOLATION? " + j.id() + " " + msg + " " + s.in + " outs " + s.outs);
  }

  void undecided(Engine e, String why) {
    Job j = current.get();
    synchronized (this) {
      j.undecided++;
      j.undecidedReasons.merge(why, 1, Integer::sum);
      if (e.witness == null || e.inputs.isEmpty()) return;
      // the witness of an undecided path is still worth a run on the real code
      int slot = j.doubtful.size() < DOUBTFUL ? j.doubtful.size() : (int) (rnd.nextDouble() * j.undecided);
      if (slot < DOUBTFUL) {
        Sample s = sample(e, j, e.witness);
        if (slot == j.doubtful.size()) j.doubtful.add(s);
        else j.doubtful.set(slot, s);
      }
    }
    if (debug) System.err.println("undecided " + j.id() + " " + why + " inputs " + e.inputs.keySet());
  }

  private Sample sample(Engine e, Job j, Map<String, Long> wit) {
    Sample s = new Sample();
    s.job = j;
    TF.Eval ev = new TF.Eval(v -> {
      Long x = wit.get((String) v.x);
      return x != null ? x : Solver.dflt(v);
    });
    for (Map.Entry<String, Object> en : e.inputs.entrySet()) s.in.put(en.getKey(), Rope.val(en.getValue(), ev));
    for (Object o : e.outs) s.outs.add(((Rope) o).show(ev));
    return s;
  }

  // ------------------------------------------------------------ workers
  void inTime() {
    if (System.currentTimeMillis() > deadline) throw new Late();
  }

  private synchronized Item take() throws InterruptedException {
    while (true) {
      if (crash != null || System.currentTimeMillis() > deadline) return null;
      Job best = null;
      for (Job j : jobs) if (!j.queue.isEmpty() && (best == null || j.nanos < best.nanos)) best = j;
      if (best != null) {
        activeTotal++;
        best.active++;
        return best.queue.pop();
      }
      if (activeTotal == 0) {
        notifyAll();
        return null;
      }
      wait(200);
    }
  }

  private synchronized void done(Job j, long nanos) {
    j.nanos += nanos;
    j.active--;
    activeTotal--;
    if (j.stop && !j.queue.isEmpty()) {
      j.left += j.queue.size();
      j.queue.clear();
    }
    notifyAll();
  }

  void run(int threads) throws Exception {
    List<Thread> ts = new ArrayList<>();
    for (int i = 0; i < threads; i++) {
      int n = i;
      Thread t = new Thread(null, () -> worker(n), "w" + i, 2L << 30);
      t.start();
      ts.add(t);
    }
    for (Thread t : ts) t.join();
    if (crash != null) throw new RuntimeException("engine failure", crash);
    for (Job j : jobs) {
      j.left += j.queue.size();
      j.queue.clear();
    }
  }

  private void worker(int n) {
    HashMap<String, Engine> mine = new HashMap<>();
    try {
      Item it;
      while ((it = take()) != null) {
        long t0 = System.nanoTime();
        Engine e = mine.get(it.job.mode);
        if (e == null) {
          e = new Engine(repo, it.job.mode, seed * 31 + n);
          e.explorer = this;
          mine.put(it.job.mode, e);
          synchronized (this) {
            engines.add(e);
          }
        }
        try {
          current.set(it.job);
          path(e, it);
        } finally {
          done(it.job, System.nanoTime() - t0);
        }
        if (e.tf.count() > 3_000_000) {
          // bound the term table: start over with a fresh engine
          e.solver.close();
          mine.remove(it.job.mode);
        }
      }
    } catch (Throwable t) {
      crash = t;
      synchronized (this) {
        notifyAll();
      }
    } finally {
      for (Engine e : mine.values()) e.solver.close();
    }
  }

  private void path(Engine e, Item it) {
    Job j = it.job;
    synchronized (this) {
      j.started++;
    }
    e.begin(it.prefix, it.wit);
    try {
      Klass k = e.klass(j.cls);
      e.init(k);
      Meth m = k.methods.get(j.method + "()V");
      try {
        e.call(m);
      } catch (JThrow t) {
        // an exception the harness did not expect
        String d = e.describe(t.ex);
        if (debug) System.err.println("uncaught " + d + t.where);
        e.check(e.tf.F, "unexpected exception " + d);
      }
      if (!e.opaque) e.ensureWitness();
      Sample s = null;
      synchronized (this) {
        j.paths++;
        for (String c : e.covers) j.covers.merge(c, 1, Integer::sum);
        if (e.validate && e.witnessOk) {
          j.eligible++;
          // reservoir sample of paths for replay on the real code
          int cap = Math.max(12, sampleCap / Math.max(1, jobs.size()));
          int slot = j.samples.size() < cap ? j.samples.size() : (int) (rnd.nextDouble() * j.eligible);
          if (slot < cap) {
            s = sample(e, j, e.witness);
            if (slot == j.samples.size()) j.samples.add(s);
            else j.samples.set(slot, s);
          }
        }
      }
    } catch (Infeasible x) {
      synchronized (this) {
        j.infeasible++;
      }
    } catch (Late x) {
      synchronized (this) {
        j.left++;
      }
    } catch (Unsupported x) {
      undecided(e, x.getMessage());
      if (debug) System.err.println(x.where);
    } catch (PathEnd x) {
      // violation recorded
    } catch (RuntimeException | StackOverflowError x) {
      StackTraceElement[] st = x.getStackTrace();
      undecided(e, "engine: " + x + (st.length > 0 ? " at " + st[0] : ""));
      if (debug) x.printStackTrace();
    } finally {
      e.end();
    }
  }

  // ------------------------------------------------------------ replay on the real code
  static String esc(String s) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c > 32 && c < 127 && c != '\\') b.append(c);
      else b.append(String.format("\\u%04x", (int) c));
    }
    return b.toString();
  }

  static void writeCases(Path f, List<Sample> ss) throws IOException {
    StringBuilder sb = new StringBuilder();
    for (Sample s : ss) {
      sb.append("CASE ").append(s.job.cls.replace('/', '.')).append(' ').append(s.job.method).append('\n');
      s.in.forEach((k, v) -> sb.append("IN ").append(esc(k)).append(' ').append(v).append('\n'));
      sb.append("RUN\n");
    }
    Files.write(f, sb.toString().getBytes(StandardCharsets.UTF_8));
  }

  /** runs the cases natively; result per case: "OK", "FAIL msg", "SKIP why" with outputs */
  List<String[]> replay(Path cases, String mode, String cp, int n, boolean lenient) throws Exception {
    String java = mode.equals("jdk8") ? "/usr/lib/jvm/java-8-openjdk-amd64/bin/java" : "/usr/lib/jvm/java-21-openjdk-amd64/bin/java";
    ProcessBuilder pb = new ProcessBuilder(java, "-Xss4m", "-Xmx1g", "-Duser.timezone=Australia/Lord_Howe", "-Dsym.thorough=" + thorough, "-cp", cp, "sym.Replay", cases.toString());
    if (lenient) pb.command().add("lenient");
    pb.redirectErrorStream(true);
    Process p = pb.start();
    List<String[]> res = new ArrayList<>();
    List<String> outs = new ArrayList<>();
    Thread killer = new Thread(() -> {
      try {
        if (!p.waitFor(180, TimeUnit.SECONDS)) p.destroyForcibly();
      } catch (InterruptedException ignored) {
      }
    });
    killer.setDaemon(true);
    killer.start();
    try (BufferedReader r = new BufferedReader(new InputStreamReader(p.getInputStream(), StandardCharsets.UTF_8))) {
      String l;
      while ((l = r.readLine()) != null) {
        if (l.startsWith("OUT ")) outs.add(l.substring(4));
        else if (l.startsWith("END ")) {
          outs.add(0, l.substring(4));
          res.add(outs.toArray(new String[0]));
          outs = new ArrayList<>();
        } else if (debug) System.err.println("native: " + l);
      }
    }
    while (res.size() < n) res.add(new String[] {"SKIP replay ended early"});
    return res;
  }
}
