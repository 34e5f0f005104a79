package symx;

import java.io.*;
import java.net.URI;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import java.util.jar.*;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.tree.*;

/** Finds class files: harness, repository, JDK 8 runtime, selected JDK 21 classes. Shared by workers. */
final class ClassRepo {
  final Path harness, repo;
  final JarFile rt;
  private final ConcurrentHashMap<String, byte[]> cache = new ConcurrentHashMap<>();
  private final FileSystem jrt = FileSystems.getFileSystem(URI.create("jrt:/"));

  ClassRepo(Path harness, Path repo, String rtJar) throws IOException {
    this.harness = harness;
    this.repo = repo;
    this.rt = new JarFile(rtJar);
  }

  String origin(String name) {
    if (Files.exists(repo.resolve(name + ".class"))) return "repo";
    if (Files.exists(harness.resolve(name + ".class"))) return "harness";
    return "jdk";
  }

  byte[] bytes(String name) {
    byte[] b = cache.get(name);
    if (b != null) return b;
    try {
      b = load(name);
    } catch (IOException e) {
      throw new UncheckedIOException(e);
    }
    if (b != null) cache.put(name, b);
    return b;
  }

  private byte[] load(String name) throws IOException {
    Path p = repo.resolve(name + ".class");
    if (Files.exists(p)) return Files.readAllBytes(p);
    p = harness.resolve(name + ".class");
    if (Files.exists(p)) return Files.readAllBytes(p);
    if (name.startsWith("jdk/internal/math/")) {
      Path q = jrt.getPath("/modules/java.base/" + name + ".class");
      return Files.exists(q) ? Files.readAllBytes(q) : null;
    }
    synchronized (rt) {
      JarEntry e = rt.getJarEntry(name + ".class");
      if (e == null) return null;
      try (InputStream in = rt.getInputStream(e)) {
        return in.readAllBytes();
      }
    }
  }

  ClassNode node(String name) {
    byte[] b = bytes(name);
    if (b == null) return null;
    ClassNode n = new ClassNode();
    new ClassReader(b).accept(n, ClassReader.SKIP_FRAMES);
    return n;
  }
}
