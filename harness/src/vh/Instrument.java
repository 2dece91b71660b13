package vh;

import java.io.File;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;
import java.util.stream.Collectors;
import java.util.stream.Stream;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.tree.AbstractInsnNode;
import org.objectweb.asm.tree.ClassNode;
import org.objectweb.asm.tree.FieldInsnNode;
import org.objectweb.asm.tree.InsnList;
import org.objectweb.asm.tree.LdcInsnNode;
import org.objectweb.asm.tree.LineNumberNode;
import org.objectweb.asm.tree.MethodInsnNode;
import org.objectweb.asm.tree.MethodNode;

/**
 * Usage: Instrument IN OUT SITES [race]. Weaves calls of {@link Noise#hit(int)}, and with 'race'
 * also calls of {@link RaceDetector}, into all classes below IN.
 */
public final class Instrument {

  private static final List<String> sites = new ArrayList<>();
  private static boolean race;

  public static void main(String[] args) throws Exception {
    Path in = Path.of(args[0]);
    Path out = Path.of(args[1]);
    race = args.length > 3 && args[3].equals("race");
    List<Path> files;
    try (Stream<Path> s = Files.walk(in)) {
      files = s.filter(p -> p.toString().endsWith(".class")).sorted().collect(Collectors.toList());
    }
    for (Path f : files) {
      Path o = out.resolve(in.relativize(f).toString());
      Files.createDirectories(o.getParent());
      Files.write(o, weave(Files.readAllBytes(f)));
    }
    Files.write(Path.of(args[2]), sites);
    if (files.isEmpty()) {
      throw new IllegalStateException("no classes in " + new File(args[0]).getAbsolutePath());
    }
  }

  private static byte[] weave(byte[] bytes) {
    ClassReader reader = new ClassReader(bytes);
    ClassNode cn = new ClassNode();
    reader.accept(cn, 0);
    for (MethodNode mn : cn.methods) {
      if (mn.instructions.size() == 0 || mn.name.equals("<clinit>")) {
        continue;
      }
      noise(cn, mn);
      clock(mn);
      if (race) {
        RaceWeaver.weave(cn, mn);
      }
    }
    ClassWriter writer = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    cn.accept(writer);
    return writer.toByteArray();
  }

  private static void clock(MethodNode mn) {
    for (AbstractInsnNode insn : mn.instructions.toArray()) {
      if (!(insn instanceof MethodInsnNode)) {
        continue;
      }
      MethodInsnNode c = (MethodInsnNode) insn;
      if (!c.owner.startsWith("java/") || c.name.equals("<init>")) {
        continue;
      }
      if (c.owner.equals("java/lang/System") && c.desc.equals("()J")
          && (c.name.equals("nanoTime") || c.name.equals("currentTimeMillis"))) {
        c.owner = "vh/Clock";
        continue;
      }
      if (c.owner.equals("java/time/Instant") && c.name.equals("now")
          && c.desc.equals("()Ljava/time/Instant;")) {
        c.owner = "vh/Clock";
        continue;
      }
      if (c.desc.contains("JLjava/util/concurrent/TimeUnit;)") && !c.name.startsWith("schedule")) {
        mn.instructions.insertBefore(insn, new MethodInsnNode(Opcodes.INVOKESTATIC, "vh/Clock",
            "nanos", "(JLjava/util/concurrent/TimeUnit;)J", false));
        mn.instructions.insertBefore(insn, new FieldInsnNode(Opcodes.GETSTATIC,
            "java/util/concurrent/TimeUnit", "NANOSECONDS", "Ljava/util/concurrent/TimeUnit;"));
      } else if (c.name.equals("parkNanos") || c.name.equals("awaitNanos")) {
        mn.instructions.insertBefore(insn, new MethodInsnNode(Opcodes.INVOKESTATIC, "vh/Clock",
            "parkNanos", "(J)J", false));
      } else if (c.desc.equals("(J)V")
          && (c.name.equals("wait") || c.name.equals("sleep") || c.name.equals("join"))) {
        mn.instructions.insertBefore(insn, new MethodInsnNode(Opcodes.INVOKESTATIC, "vh/Clock",
            "millis", "(J)J", false));
      }
    }
  }

  private static void noise(ClassNode cn, MethodNode mn) {
    int line = 0;
    int n = 0;
    boolean constructing = mn.name.equals("<init>");
    for (AbstractInsnNode insn : mn.instructions.toArray()) {
      if (insn instanceof LineNumberNode) {
        line = ((LineNumberNode) insn).line;
      }
      if (constructing) {
        // no noise before the super constructor was called
        if (insn instanceof MethodInsnNode && ((MethodInsnNode) insn).name.equals("<init>")
            && insn.getOpcode() == Opcodes.INVOKESPECIAL
            && (((MethodInsnNode) insn).owner.equals(cn.superName)
            || ((MethodInsnNode) insn).owner.equals(cn.name))) {
          constructing = false;
        }
        continue;
      }
      String what = null;
      if (insn instanceof FieldInsnNode && insn.getOpcode() != Opcodes.GETSTATIC
          && insn.getOpcode() != Opcodes.PUTSTATIC) {
        what = (insn.getOpcode() == Opcodes.GETFIELD ? "get " : "put ")
            + ((FieldInsnNode) insn).name;
      } else if (insn instanceof MethodInsnNode && !((MethodInsnNode) insn).name.equals("<init>")) {
        what = "call " + ((MethodInsnNode) insn).name;
      } else if (insn.getOpcode() == Opcodes.MONITORENTER
          || insn.getOpcode() == Opcodes.MONITOREXIT) {
        what = "monitor";
      } else if (insn.getOpcode() >= Opcodes.IRETURN && insn.getOpcode() <= Opcodes.RETURN) {
        what = "return";
      }
      if (what != null) {
        int id = Noise.HARNESS_SITES + sites.size();
        if (id >= Noise.MAX_SITES) {
          return;
        }
        sites.add(cn.name.substring(cn.name.lastIndexOf('/') + 1) + "." + mn.name + ":" + line + ":"
            + (n++) + " " + what);
        InsnList hit = new InsnList();
        hit.add(new LdcInsnNode(id));
        hit.add(new MethodInsnNode(Opcodes.INVOKESTATIC, "vh/Noise", "hit", "(I)V", false));
        mn.instructions.insertBefore(insn, hit);
      }
    }
  }
}
