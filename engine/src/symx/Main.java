package symx;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import org.objectweb.asm.tree.*;

/** Command line driver: runs every harness of one property. */
public final class Main {
  public static void main(String[] args) throws Exception {
    Map<String, String> o = new HashMap<>();
    for (int i = 0; i + 1 < args.length; i += 2) o.put(args[i], args[i + 1]);
    String prop = o.get("--property");
    Path harness = Paths.get(o.get("--harness")), repo = Paths.get(o.get("--repo"));
    boolean thorough = "thorough".equals(o.get("--tier"));
    long seed = Long.parseLong(o.getOrDefault("--seed", "1"));
    long budget = Long.parseLong(o.getOrDefault("--budget", "60")) * 1000;
    String only = o.get("--only");
    int threads = Integer.parseInt(o.getOrDefault("--threads", "8"));
    Path evidence = Paths.get(o.get("--evidence"));
    long t0 = System.nanoTime();

    ClassRepo cr = new ClassRepo(harness, repo, "/usr/lib/jvm/java-8-openjdk-amd64/jre/lib/rt.jar");
    Explorer ex = new Explorer(cr, seed, thorough, budget);
    List<Path> files = new ArrayList<>();
    try (var st = Files.walk(harness)) {
      st.filter(p -> p.toString().endsWith(".class")).sorted().forEach(files::add);
    }
    TreeSet<String> assumptions = new TreeSet<>();
    for (Path f : files) {
      String cn = harness.relativize(f).toString().replace(".class", "");
      if (!cn.startsWith("h/")) continue;
      ClassNode n = cr.node(cn);
      for (MethodNode m : n.methods) {
        if (m.visibleAnnotations == null) continue;
        for (AnnotationNode a : m.visibleAnnotations) {
          if (!a.desc.equals("Lsym/Harness;")) continue;
          Map<String, Object> v = new HashMap<>();
          if (a.values != null) for (int i = 0; i < a.values.size(); i += 2) v.put((String) a.values.get(i), a.values.get(i + 1));
          if (!Arrays.asList(((String) v.get("property")).split(",")).contains(prop)) continue;
          String tier = (String) v.getOrDefault("tier", "quick");
          if (tier.equals("thorough") && !thorough) continue;
          if (tier.equals("quickonly") && thorough) continue;
          if (only != null && !m.name.matches(only)) continue;
          String mode = (String) v.getOrDefault("mode", "jdk21");
          for (String md : mode.split(",")) {
            Explorer.Job j = new Explorer.Job();
            j.cls = cn;
            j.method = m.name;
            j.mode = md;
            j.bounds = (String) v.getOrDefault("bounds", "");
            j.queue.push(new Explorer.Item(j, new int[0], new HashMap<>()));
            ex.jobs.add(j);
            Object as = v.get("assumes");
            if (as != null && !((String) as).isEmpty()) assumptions.add((String) as);
          }
        }
      }
    }
    if (ex.jobs.isEmpty()) {
      System.out.println("no harness for " + prop);
      System.exit(3);
    }
    ex.run(threads);

    // ---------------------------------------------------------- replay
    String cp = harness + File.pathSeparator + repo;
    for (String j : System.getProperty("java.class.path").split(File.pathSeparator))
      if (j.contains("/asm-")) cp += File.pathSeparator + j;
    Path scratch = Files.createTempDirectory("symx");
    List<String> confirmed = new ArrayList<>();
    List<Explorer.Sample> real = new ArrayList<>();
    int unconfirmed = 0;
    long doubtful = 0, validated = 0, mismatched = 0, skipped = 0;
    List<String> mismatchNotes = new ArrayList<>();
    for (String mode : new String[] {"jdk21", "jdk8"}) {
      List<Explorer.Sample> vs = new ArrayList<>();
      for (Explorer.Sample s : ex.violations) if (s.job.mode.equals(mode)) vs.add(s);
      if (!vs.isEmpty()) {
        Path c = scratch.resolve("v-" + mode);
        Explorer.writeCases(c, vs);
        List<String[]> r = ex.replay(c, mode, cp, vs.size(), false);
        for (int i = 0; i < vs.size(); i++) {
          if (r.get(i)[0].startsWith("FAIL")) {
            real.add(vs.get(i));
            confirmed.add(vs.get(i).job.id() + ": " + r.get(i)[0].substring(5) + " " + vs.get(i).in);
          } else {
            unconfirmed++;
            String note = "unconfirmed " + vs.get(i).job.id() + ": " + vs.get(i).msg + " " + vs.get(i).in + " native " + String.join("|", r.get(i));
            mismatchNotes.add(note);
          }
        }
      }
      List<Explorer.Sample> ds = new ArrayList<>();
      for (Explorer.Job j : ex.jobs) if (j.mode.equals(mode)) ds.addAll(j.doubtful);
      if (!ds.isEmpty()) {
        Path c = scratch.resolve("d-" + mode);
        Explorer.writeCases(c, ds);
        List<String[]> r = ex.replay(c, mode, cp, ds.size(), true);
        for (int i = 0; i < ds.size(); i++) {
          doubtful++;
          if (!r.get(i)[0].startsWith("FAIL")) continue;
          ds.get(i).lenient = true;
          real.add(ds.get(i));
          confirmed.add(ds.get(i).job.id() + ": " + r.get(i)[0].substring(5) + " " + ds.get(i).in);
        }
      }
      List<Explorer.Sample> ss = new ArrayList<>();
      for (Explorer.Job j : ex.jobs) if (j.mode.equals(mode)) ss.addAll(j.samples);
      if (!ss.isEmpty()) {
        Path c = scratch.resolve("s-" + mode);
        Explorer.writeCases(c, ss);
        List<String[]> r = ex.replay(c, mode, cp, ss.size(), false);
        for (int i = 0; i < ss.size(); i++) {
          String[] q = r.get(i);
          Explorer.Sample s = ss.get(i);
          if (q[0].startsWith("SKIP")) skipped++;
          else if (q[0].startsWith("FAIL")) {
            s.msg = q[0].substring(5);
            real.add(s);
            confirmed.add(s.job.id() + ": " + s.msg + " " + s.in);
          } else {
            List<String> exp = new ArrayList<>();
            for (String x : s.outs) exp.add(Explorer.esc(x));
            if (exp.equals(Arrays.asList(q).subList(1, q.length))) validated++;
            else {
              mismatched++;
              mismatchNotes.add("mismatch " + s.job.id() + " " + s.in + " engine " + exp + " native " + Arrays.asList(q).subList(1, q.length));
            }
          }
        }
      }
    }
    double wall = (System.nanoTime() - t0) / 1e9;

    // ---------------------------------------------------------- known findings
    List<String[]> known = new ArrayList<>();
    Path kf = Paths.get(o.getOrDefault("--known", "/nonexistent"));
    if (Files.exists(kf))
      for (String l : Files.readAllLines(kf)) {
        if (!l.startsWith("known: ")) continue;
        String[] q = l.substring(7).split(" ", 3); // property=<id> match=<harness regex> text
        if (q.length == 3 && q[0].equals("property=" + prop)) known.add(new String[] {q[1].substring(6), q[2]});
      }
    List<Integer> fresh = new ArrayList<>();
    TreeSet<String> seenKnown = new TreeSet<>();
    for (int i = 0; i < confirmed.size(); i++) {
      String hit = null;
      for (String[] k : known) if (confirmed.get(i).matches("(?s).*" + k[0] + ".*")) hit = k[1];
      if (hit != null) seenKnown.add(hit);
      else fresh.add(i);
    }

    // ---------------------------------------------------------- report
    long paths = 0, infeasible = 0, undec = 0, left = 0, started = 0;
    StringBuilder per = new StringBuilder("[");
    for (Explorer.Job j : ex.jobs) {
      paths += j.paths;
      infeasible += j.infeasible;
      undec += j.undecided;
      left += j.left;
      started += j.started;
      if (per.length() > 1) per.append(",");
      per.append("{\"harness\":").append(q(j.id())).append(",\"runtime\":").append(q(j.mode)).append(",\"bounds\":").append(q(j.bounds))
          .append(",\"paths\":").append(j.paths).append(",\"undecided\":").append(j.undecided).append(",\"unexplored_prefixes\":").append(j.left)
          .append(",\"cpu_s\":").append(String.format(Locale.ROOT, "%.1f", j.nanos / 1e9)).append(",\"reached\":").append(map(j.covers))
          .append(",\"undecided_reasons\":").append(map(j.undecidedReasons)).append("}");
    }
    per.append("]");
    long obl = 0, triv = 0, steps = 0, forks = 0, queries = 0, disch = 0, cache = 0, mh = 0, bv = 0, lia = 0, unk = 0, nanos = 0;
    TreeSet<String> meths = new TreeSet<>();
    for (Engine e : ex.engines) {
      obl += e.obligations;
      triv += e.trivialObligations;
      steps += e.totalSteps;
      forks += e.forks;
      queries += e.solver.queries;
      disch += e.solver.discharged;
      cache += e.solver.cacheHits;
      mh += e.solver.modelHits;
      bv += e.solver.bvCalls;
      lia += e.solver.liaCalls;
      unk += e.solver.unknowns;
      nanos += e.solver.nanos;
      meths.addAll(e.repoMethods);
    }
    StringBuilder samples = new StringBuilder("[");
    int shown = 0;
    for (Explorer.Job j : ex.jobs)
      for (Explorer.Sample s : j.samples) {
        if (shown >= 12) break;
        if (s.outs.isEmpty() && shown > 0) continue;
        if (shown++ > 0) samples.append(",");
        StringBuilder so = new StringBuilder("[");
        for (String x : s.outs) so.append(so.length() > 1 ? "," : "").append(q(x.length() > 200 ? x.substring(0, 200) + "..." : x));
        samples.append("{\"harness\":").append(q(j.id())).append(",\"witness\":").append(q(s.in.toString())).append(",\"outputs\":").append(so).append("]}");
      }
    samples.append("]");
    StringBuilder sb = new StringBuilder();
    sb.append("{\"property\":").append(q(prop)).append(",\"tier\":\"").append(thorough ? "thorough" : "quick").append("\",\"seed\":").append(seed)
        .append(",\"level\":\"model_checking\",\"coverage\":{")
        .append("\"states\":").append(started).append(",\"transitions\":").append(forks)
        .append(",\"traces_validated_against_impl\":").append(validated)
        .append(",\"samples\":").append(samples)
        .append(",\"exhaustive\":").append(left == 0 && undec == 0)
        .append(",\"paths_completed\":").append(paths).append(",\"paths_infeasible\":").append(infeasible)
        .append(",\"paths_undecided\":").append(undec).append(",\"prefixes_unexplored\":").append(left)
        .append(",\"bytecode_steps\":").append(steps)
        .append(",\"proof_obligations\":").append(obl).append(",\"obligations_closed_by_rewriting\":").append(triv)
        .append(",\"solver_queries\":").append(queries).append(",\"solver_unsat\":").append(disch)
        .append(",\"solver_cache_hits\":").append(cache).append(",\"solver_model_hits\":").append(mh)
        .append(",\"solver_bitvector_calls\":").append(bv).append(",\"solver_integer_calls\":").append(lia)
        .append(",\"solver_unknown\":").append(unk).append(",\"solver_s\":").append(String.format(Locale.ROOT, "%.2f", nanos / 1e9))
        .append(",\"functions_encoded\":").append(meths.size()).append(",\"functions\":").append(list(meths))
        .append(",\"traces_skipped\":").append(skipped).append(",\"traces_mismatched\":").append(mismatched)
        .append(",\"undecided_witnesses_run\":").append(doubtful).append(",\"counterexamples_unconfirmed\":").append(unconfirmed)
        .append(",\"harnesses\":").append(per)
        .append("},\"assumptions\":").append(list(assumptions))
        .append(",\"wall_s\":").append(String.format(Locale.ROOT, "%.2f", wall)).append(",\"violations\":").append(fresh.size()).append("}\n");
    Files.createDirectories(evidence.getParent());
    Files.write(evidence, sb.toString().getBytes(StandardCharsets.UTF_8));

    System.out.printf("%s: %d paths (%d undecided, %d unexplored), %d obligations, %d solver queries, %d functions, %d traces validated, %.1f s%n",
        prop, paths, undec, left, obl, queries, meths.size(), validated, wall);
    for (Explorer.Job j : ex.jobs)
      System.out.printf("  %s [%s]: %d paths, %d infeasible, %d undecided %s, %d unexplored, %.1f cpu s%n", j.id(), j.mode, j.paths, j.infeasible, j.undecided, j.undecidedReasons, j.left, j.nanos / 1e9);
    for (int i = 0; i < Math.min(10, mismatchNotes.size()); i++) System.out.println("  NOTE " + cut(mismatchNotes.get(i)));
    for (String k : seenKnown) System.out.println("KNOWN-FINDING: property=" + prop + " " + k);
    for (File f : scratch.toFile().listFiles()) f.delete();
    scratch.toFile().delete();
    if (!fresh.isEmpty()) {
      Path rp = evidence.resolveSibling(prop + ".replay.txt");
      List<Explorer.Sample> out = new ArrayList<>();
      StringBuilder txt = new StringBuilder();
      for (int i : fresh) {
        out.add(real.get(i));
        txt.append("# ").append(confirmed.get(i)).append("\n");
      }
      Explorer.writeCases(rp, out);
      Files.write(rp, (txt + Files.readString(rp)).getBytes(StandardCharsets.UTF_8));
      for (int i = 0; i < Math.min(8, fresh.size()); i++) System.out.println("  counterexample " + cut(confirmed.get(fresh.get(i))));
      System.out.println("VIOLATION property=" + prop + " replay=" + rp);
      System.exit(1);
    }
    System.exit(0);
  }

  static String cut(String s) {
    return s.length() > 500 ? s.substring(0, 500) + "..." : s;
  }

  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    return b.append('"').toString();
  }

  static String list(Collection<String> c) {
    StringBuilder b = new StringBuilder("[");
    for (String s : c) b.append(b.length() > 1 ? "," : "").append(q(s));
    return b.append("]").toString();
  }

  static String map(Map<String, Integer> m) {
    StringBuilder b = new StringBuilder("{");
    m.forEach((k, v) -> b.append(b.length() > 1 ? "," : "").append(q(k)).append(":").append(v));
    return b.append("}").toString();
  }
}
