package vh;

import java.util.ListIterator;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.AbstractInsnNode;
import org.objectweb.asm.tree.ClassNode;
import org.objectweb.asm.tree.FieldInsnNode;
import org.objectweb.asm.tree.FrameNode;
import org.objectweb.asm.tree.InsnList;
import org.objectweb.asm.tree.InsnNode;
import org.objectweb.asm.tree.LabelNode;
import org.objectweb.asm.tree.LdcInsnNode;
import org.objectweb.asm.tree.MethodInsnNode;
import org.objectweb.asm.tree.MethodNode;
import org.objectweb.asm.tree.TryCatchBlockNode;
import org.objectweb.asm.tree.VarInsnNode;

/** Weaves calls of {@link RaceDetector} into a method. */
final class RaceWeaver implements Opcodes {

  private static final String RD = "vh/RaceDetector";
  private static final String LIB = "com/webotech/";

  static void weave(ClassNode cn, MethodNode mn) {
    boolean constructing = mn.name.equals("<init>");
    for (AbstractInsnNode insn : mn.instructions.toArray()) {
      if (constructing) {
        if (insn instanceof MethodInsnNode && ((MethodInsnNode) insn).name.equals("<init>")
            && (((MethodInsnNode) insn).owner.equals(cn.superName)
            || ((MethodInsnNode) insn).owner.equals(cn.name))) {
          constructing = false;
        }
        continue;
      }
      if (insn instanceof FieldInsnNode) {
        field(mn, (FieldInsnNode) insn);
      } else if (insn instanceof MethodInsnNode) {
        call(mn, (MethodInsnNode) insn);
      } else if (insn.getOpcode() == MONITORENTER) {
        mn.instructions.insertBefore(insn, new InsnNode(DUP));
        mn.instructions.insert(insn, stat("acquire", "(Ljava/lang/Object;)V"));
      } else if (insn.getOpcode() == MONITOREXIT) {
        mn.instructions.insertBefore(insn, new InsnNode(DUP));
        mn.instructions.insertBefore(insn, stat("release", "(Ljava/lang/Object;)V"));
      }
    }
    if ((mn.access & ACC_SYNCHRONIZED) != 0) {
      synchronizedMethod(cn, mn);
    }
    if (mn.name.startsWith("lambda$") || mn.name.equals("run") || mn.name.equals("call")
        || (mn.access & ACC_PRIVATE) != 0 && mn.desc.equals("()V") && !mn.name.equals("<init>")) {
      // may be what an executor runs
      mn.instructions.insert(stat("task", "()V"));
    }
  }

  private static MethodInsnNode stat(String name, String desc) {
    return new MethodInsnNode(INVOKESTATIC, RD, name, desc, false);
  }

  private static void field(MethodNode mn, FieldInsnNode f) {
    if (!f.owner.startsWith(LIB)) {
      return;
    }
    String key = f.owner + "." + f.name;
    InsnList l = new InsnList();
    switch (f.getOpcode()) {
      case GETFIELD: {
        // obj -> value: detector gets obj before the read (plain) and after it (volatile)
        InsnList after = new InsnList();
        int local = mn.maxLocals++;
        l.add(new InsnNode(DUP));
        l.add(new VarInsnNode(ASTORE, local));
        after.add(new VarInsnNode(ALOAD, local));
        after.add(new LdcInsnNode(key));
        after.add(stat("read", "(Ljava/lang/Object;Ljava/lang/String;)V"));
        mn.instructions.insert(f, after);
        mn.instructions.insertBefore(f, l);
        break;
      }
      case PUTFIELD:
        if (Type.getType(f.desc).getSize() == 1) {
          l.add(new InsnNode(DUP2));
          l.add(new InsnNode(POP));
        } else {
          l.add(new InsnNode(DUP2_X1));
          l.add(new InsnNode(POP2));
          l.add(new InsnNode(DUP_X2));
        }
        l.add(new LdcInsnNode(key));
        l.add(stat("write", "(Ljava/lang/Object;Ljava/lang/String;)V"));
        mn.instructions.insertBefore(f, l);
        break;
      case GETSTATIC:
        l.add(new LdcInsnNode(key));
        l.add(new LdcInsnNode(key));
        l.add(stat("read", "(Ljava/lang/Object;Ljava/lang/String;)V"));
        mn.instructions.insert(f, l);
        break;
      case PUTSTATIC:
        l.add(new LdcInsnNode(key));
        l.add(new LdcInsnNode(key));
        l.add(stat("write", "(Ljava/lang/Object;Ljava/lang/String;)V"));
        mn.instructions.insertBefore(f, l);
        break;
      default:
        break;
    }
  }

  /** Gives the detector the receiver of calls into the JDK, before and after the call. */
  private static void call(MethodNode mn, MethodInsnNode m) {
    if (m.getOpcode() != INVOKEVIRTUAL && m.getOpcode() != INVOKEINTERFACE) {
      return;
    }
    if (!m.owner.startsWith("java/") || m.owner.equals("java/lang/String")
        || m.owner.startsWith("java/lang/String") || m.owner.equals("java/util/StringJoiner")) {
      return;
    }
    Type[] args = Type.getArgumentTypes(m.desc);
    InsnList before = new InsnList();
    int[] locals = new int[args.length];
    for (int i = args.length - 1; i >= 0; i--) {
      locals[i] = mn.maxLocals;
      mn.maxLocals += args[i].getSize();
      before.add(new VarInsnNode(args[i].getOpcode(ISTORE), locals[i]));
    }
    int rec = mn.maxLocals++;
    before.add(new InsnNode(DUP));
    before.add(new VarInsnNode(ASTORE, rec));
    for (int i = 0; i < args.length; i++) {
      before.add(new VarInsnNode(args[i].getOpcode(ILOAD), locals[i]));
    }
    before.add(new VarInsnNode(ALOAD, rec));
    before.add(new LdcInsnNode(m.name));
    before.add(stat("beforeCall", "(Ljava/lang/Object;Ljava/lang/String;)V"));
    InsnList after = new InsnList();
    after.add(new VarInsnNode(ALOAD, rec));
    after.add(new LdcInsnNode(m.name));
    after.add(stat("afterCall", "(Ljava/lang/Object;Ljava/lang/String;)V"));
    mn.instructions.insertBefore(m, before);
    mn.instructions.insert(m, after);
  }

  private static void synchronizedMethod(ClassNode cn, MethodNode mn) {
    boolean isStatic = (mn.access & ACC_STATIC) != 0;
    LabelNode start = new LabelNode();
    LabelNode end = new LabelNode();
    InsnList entry = new InsnList();
    entry.add(self(cn, isStatic));
    entry.add(stat("acquire", "(Ljava/lang/Object;)V"));
    entry.add(start);
    for (ListIterator<AbstractInsnNode> it = mn.instructions.iterator(); it.hasNext(); ) {
      AbstractInsnNode insn = it.next();
      if (insn.getOpcode() >= IRETURN && insn.getOpcode() <= RETURN) {
        InsnList l = new InsnList();
        l.add(self(cn, isStatic));
        l.add(stat("release", "(Ljava/lang/Object;)V"));
        mn.instructions.insertBefore(insn, l);
      }
    }
    mn.instructions.insert(entry);
    InsnList handler = new InsnList();
    handler.add(end);
    handler.add(isStatic ? new FrameNode(F_FULL, 0, new Object[0], 1,
        new Object[]{"java/lang/Throwable"})
        : new FrameNode(F_FULL, 1, new Object[]{cn.name}, 1, new Object[]{"java/lang/Throwable"}));
    handler.add(self(cn, isStatic));
    handler.add(stat("release", "(Ljava/lang/Object;)V"));
    handler.add(new InsnNode(ATHROW));
    mn.instructions.add(handler);
    mn.tryCatchBlocks.add(new TryCatchBlockNode(start, end, end, null));
  }

  private static AbstractInsnNode self(ClassNode cn, boolean isStatic) {
    return isStatic ? new LdcInsnNode(Type.getObjectType(cn.name)) : new VarInsnNode(ALOAD, 0);
  }
}
