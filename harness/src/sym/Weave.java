package sym;

import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.InputStream;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/** Calls Sym.point() before every access to memory and every call out of the repository's classes. */
final class Weave {
  private Weave() {}

  static byte[] woven(ClassLoader l, String name) throws ClassNotFoundException {
    try (InputStream in = l.getResourceAsStream(name.replace('.', '/') + ".class")) {
      if (in == null) throw new ClassNotFoundException(name);
      ByteArrayOutputStream out = new ByteArrayOutputStream();
      byte[] b = new byte[8192];
      for (int n; (n = in.read(b)) > 0; ) out.write(b, 0, n);
      ClassReader r = new ClassReader(out.toByteArray());
      ClassWriter w = new ClassWriter(r, 0);
      r.accept(new ClassVisitor(Opcodes.ASM9, w) {
        @Override
        public MethodVisitor visitMethod(int access, String m, String desc, String sig, String[] ex) {
          MethodVisitor v = super.visitMethod(access, m, desc, sig, ex);
          return m.equals("<clinit>") ? v : new Points(v);
        }
      }, 0);
      return w.toByteArray();
    } catch (IOException e) {
      throw new ClassNotFoundException(name, e);
    }
  }

  private static final class Points extends MethodVisitor {
    Points(MethodVisitor v) {
      super(Opcodes.ASM9, v);
    }

    private void point() {
      super.visitMethodInsn(Opcodes.INVOKESTATIC, "sym/Sym", "point", "()V", false);
    }

    @Override
    public void visitFieldInsn(int op, String owner, String name, String desc) {
      point();
      super.visitFieldInsn(op, owner, name, desc);
    }

    @Override
    public void visitMethodInsn(int op, String owner, String name, String desc, boolean itf) {
      if (!owner.startsWith("io/fastprintf/")) point();
      super.visitMethodInsn(op, owner, name, desc, itf);
    }

    @Override
    public void visitInsn(int op) {
      if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) point();
      super.visitInsn(op);
    }
  }
}
