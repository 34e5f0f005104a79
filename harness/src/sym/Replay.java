package sym;

import java.io.BufferedReader;
import java.io.File;
import java.io.FileInputStream;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.lang.reflect.InvocationTargetException;
import java.net.URL;
import java.net.URLClassLoader;
import java.util.HashMap;
import java.util.Map;

/** Runs harnesses on a real virtual machine with given input values. */
public final class Replay {
  public static void main(String[] args) throws Exception {
    PrintStream out = new PrintStream(System.out, true, "UTF-8");
    try (BufferedReader r = new BufferedReader(new InputStreamReader(new FileInputStream(args[0]), "UTF-8"))) {
      String l, cls = null, m = null;
      Map<String, Long> in = new HashMap<>();
      boolean lenient = args.length > 1;
      while ((l = r.readLine()) != null) {
        String[] p = l.split(" ");
        if (p[0].equals("CASE")) {
          cls = p[1];
          m = p[2];
          in = new HashMap<>();
        } else if (p[0].equals("IN")) {
          in.put(unesc(p[1]), Long.parseLong(p[2]));
        } else if (p[0].equals("RUN")) {
          Sym.reset(in, lenient);
          String[] res = {null};
          String c = cls, name = m;
          Thread t = new Thread(null, () -> res[0] = one(c, name), "case", 8L << 20);
          t.setDaemon(true);
          t.start();
          t.join(30000);
          if (t.isAlive()) {
            out.println("END FAIL no result within 30 s");
            out.flush();
            Runtime.getRuntime().halt(0);
          }
          for (String s : Sym.outs) out.println("OUT " + esc(s));
          out.println("END " + oneLine(res[0]));
        }
      }
    }
  }

  private static final URL[] PATH = path();

  private static URL[] path() {
    String[] p = System.getProperty("java.class.path").split(File.pathSeparator);
    URL[] u = new URL[p.length];
    try {
      for (int i = 0; i < p.length; i++) u[i] = new File(p[i]).toURI().toURL();
    } catch (java.net.MalformedURLException e) {
      throw new IllegalStateException(e);
    }
    return u;
  }

  /** gives every case its own static state */
  private static final class Fresh extends URLClassLoader {
    Fresh() {
      super(PATH, Replay.class.getClassLoader());
    }

    @Override
    protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
      if (!name.startsWith("h.") && !name.startsWith("io.fastprintf.")) return super.loadClass(name, resolve);
      synchronized (getClassLoadingLock(name)) {
        Class<?> c = findLoadedClass(name);
        if (c != null) return c;
        if (name.startsWith("io.fastprintf.") && Sym.values.containsKey("preempt")) {
          byte[] b = Weave.woven(this, name);
          return defineClass(name, b, 0, b.length);
        }
        return findClass(name);
      }
    }
  }

  private static String one(String cls, String m) {
    try {
      Class.forName(cls, true, new Fresh()).getMethod(m).invoke(null);
      return "OK";
    } catch (InvocationTargetException e) {
      Throwable t = e.getCause();
      if (t instanceof Sym.Skip) return "SKIP " + t.getMessage();
      if (t instanceof Sym.Failed) return "FAIL " + t.getMessage();
      return "FAIL unexpected exception " + t;
    } catch (Throwable t) {
      return "SKIP " + t;
    }
  }

  private static String oneLine(String s) {
    if (s.length() > 600) s = s.substring(0, 600) + "...";
    return s.replace("\n", "\\n").replace("\r", "\\r");
  }

  static String esc(String s) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c > 32 && c < 127 && c != '\\') b.append(c);
      else b.append(String.format("\\u%04x", (int) c));
    }
    return b.toString();
  }

  static String unesc(String s) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < s.length(); i++) {
      if (s.charAt(i) == '\\') {
        b.append((char) Integer.parseInt(s.substring(i + 2, i + 6), 16));
        i += 5;
      } else b.append(s.charAt(i));
    }
    return b.toString();
  }
}
