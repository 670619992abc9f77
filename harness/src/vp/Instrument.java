package vp;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
import org.objectweb.asm.*;

/** Instrument IN OUT: copies class files, adding a probe per source line; writes OUT/vp-lines.txt and OUT/vp-dict.txt. */
public final class Instrument {
  static int next = 0;

  public static void main(String[] a) throws IOException {
    Path in = Paths.get(a[0]), out = Paths.get(a[1]);
    List<Path> files;
    try (Stream<Path> s = Files.walk(in)) {
      files = s.filter(Files::isRegularFile).sorted().collect(Collectors.toList());
    }
    try (PrintWriter lines = new PrintWriter(Files.newBufferedWriter(out.resolve("vp-lines.txt")));
        PrintWriter hot = new PrintWriter(Files.newBufferedWriter(out.resolve("vp-hot.txt")));
        PrintWriter dict = new PrintWriter(Files.newBufferedWriter(out.resolve("vp-dict.txt"), StandardCharsets.UTF_8))) {
      for (Path p : files) {
        Path q = out.resolve(in.relativize(p).toString());
        Files.createDirectories(q.getParent());
        if (!p.toString().endsWith(".class")) {
          Files.copy(p, q, StandardCopyOption.REPLACE_EXISTING);
          continue;
        }
        Files.write(q, one(Files.readAllBytes(p), lines, dict, hot));
      }
    }
  }

  /** classes whose code touches state that outlives a call: "s class"; who calls whom: "c class class" */
  static void state(String cls, boolean en, String m, int op, String o, String f, String t, PrintWriter hot) {
    if (m.equals("<clinit>")) return;
    if (f == null) {
      if (o.startsWith("com/finproto/") && !o.equals(cls.replace('.', '/'))) hot.println("c " + cls + " " + o.replace('/', '.'));
      if (op == Opcodes.INVOKESTATIC && (o.equals("java/lang/System") || o.equals("java/lang/Thread") || o.startsWith("java/util/concurrent/"))) hot.println("s " + cls);
      return;
    }
    if (!o.startsWith("com/finproto/") || t.equals("L" + o + ";") || f.startsWith("$")) return;
    if (op == Opcodes.GETSTATIC || op == Opcodes.PUTSTATIC) {
      hot.println("s " + cls);
      if (!o.equals(cls.replace('.', '/'))) hot.println("s " + o.replace('/', '.'));
    } else if (en && !m.equals("<init>") && (op == Opcodes.PUTFIELD || !t.equals("Ljava/util/Map;"))) hot.println("s " + cls);
  }

  static byte[] one(byte[] b, PrintWriter lines, PrintWriter dict, PrintWriter hot) {
    ClassReader r = new ClassReader(b);
    ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
    String cls = r.getClassName().replace('/', '.');
    Set<String> consts = new LinkedHashSet<>();
    boolean en = (r.getAccess() & Opcodes.ACC_ENUM) != 0;
    r.accept(new ClassVisitor(Opcodes.ASM9, w) {
      @Override
      public MethodVisitor visitMethod(int acc, String n, String d, String sg, String[] ex) {
        MethodVisitor mv = super.visitMethod(acc, n, d, sg, ex);
        return new MethodVisitor(Opcodes.ASM9, mv) {
          /** Probe id to plant before the next instruction (after any stack-map frame), or -1. */
          private int pending = -1;
          private int branch = -1;
          private int line;

          /** a probe at every jump target and after every conditional jump: coverage only */
          private void edge() {
            if (branch >= 0 || next >= Probe.cov.length) return;
            branch = next++;
            lines.println(branch + " " + cls + " " + n + d + " " + -line);
          }

          @Override
          public void visitFrame(int t, int nl, Object[] l, int ns, Object[] st) {
            super.visitFrame(t, nl, l, ns, st);
            edge();
          }

          @Override
          public void visitLineNumber(int line, Label l) {
            super.visitLineNumber(line, l);
            this.line = line;
            if (next >= Probe.cov.length) return;
            if (pending >= 0) return;
            pending = next++;
            lines.println(pending + " " + cls + " " + n + d + " " + line);
          }

          @Override
          public void visitCode() {
            super.visitCode();
            if (n.equals("<clinit>")) super.visitMethodInsn(Opcodes.INVOKESTATIC, "vp/Probe", "init", "()V", false);
          }

          private void flush() {
            int id = pending, e = branch;
            pending = branch = -1;
            if (id >= 0) {
              push(id);
              super.visitMethodInsn(Opcodes.INVOKESTATIC, "vp/Probe", "hit", "(I)V", false);
            }
            if (e >= 0) {
              push(e);
              super.visitMethodInsn(Opcodes.INVOKESTATIC, "vp/Probe", "edge", "(I)V", false);
            }
          }

          @Override
          public void visitInsn(int op) {
            flush();
            super.visitInsn(op);
          }

          @Override
          public void visitVarInsn(int op, int v) {
            flush();
            super.visitVarInsn(op, v);
          }

          @Override
          public void visitTypeInsn(int op, String t) {
            if (op != Opcodes.NEW) flush(); // frames name the instruction NEW by its label: nothing may come between them
            super.visitTypeInsn(op, t);
            flush();
          }

          @Override
          public void visitFieldInsn(int op, String o, String f, String t) {
            flush();
            state(cls, en, n, op, o, f, t, hot);
            super.visitFieldInsn(op, o, f, t);
          }

          @Override
          public void visitMethodInsn(int op, String o, String f, String t, boolean i) {
            flush();
            state(cls, en, n, op, o, null, null, hot);
            super.visitMethodInsn(op, o, f, t, i);
          }

          @Override
          public void visitInvokeDynamicInsn(String f, String t, Handle h, Object... as) {
            flush();
            super.visitInvokeDynamicInsn(f, t, h, as);
          }

          @Override
          public void visitJumpInsn(int op, Label l) {
            flush();
            super.visitJumpInsn(op, l);
            if (op != Opcodes.GOTO && op != Opcodes.JSR) edge();
          }

          @Override
          public void visitIincInsn(int v, int k) {
            flush();
            super.visitIincInsn(v, k);
          }

          @Override
          public void visitMultiANewArrayInsn(String t, int k) {
            flush();
            super.visitMultiANewArrayInsn(t, k);
          }

          private void push(int id) {
            if (id < 128) super.visitIntInsn(Opcodes.BIPUSH, id);
            else if (id < 32768) super.visitIntInsn(Opcodes.SIPUSH, id);
            else super.visitLdcInsn(id);
          }

          @Override
          public void visitIntInsn(int op, int v) {
            flush();
            if (op != Opcodes.NEWARRAY) consts.add("i " + v);
            super.visitIntInsn(op, v);
          }

          @Override
          public void visitLdcInsn(Object v) {
            flush();
            if (v instanceof Integer || v instanceof Long) consts.add("i " + v);
            if (v instanceof Float || v instanceof Double) {
              double x = ((Number) v).doubleValue();
              if (Math.abs(x) < 9e18) consts.add("i " + (long) x);
              consts.add("d " + x);
            }
            if (v instanceof String) {
              String s = (String) v;
              if (!s.isEmpty() && s.length() <= 40 && s.indexOf('=') < 0 && s.indexOf('[') < 0)
                consts.add("s " + s.replace("\\", "\\\\").replace("\n", "\\n").replace("\r", "\\r"));
            }
            super.visitLdcInsn(v);
          }

          @Override
          public void visitTableSwitchInsn(int min, int max, Label d, Label... ls) {
            flush();
            for (int i = min; i <= max && i < min + 64; i++) consts.add("i " + i);
            super.visitTableSwitchInsn(min, max, d, ls);
          }

          @Override
          public void visitLookupSwitchInsn(Label d, int[] keys, Label[] ls) {
            flush();
            for (int k : keys) consts.add("i " + k);
            super.visitLookupSwitchInsn(d, keys, ls);
          }
        };
      }
    }, 0);
    for (String c : consts) dict.println(cls + " " + c);
    return w.toByteArray();
  }
}
