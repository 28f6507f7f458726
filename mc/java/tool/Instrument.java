import java.io.File;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
import jdk.internal.org.objectweb.asm.*;
import jdk.internal.org.objectweb.asm.tree.*;

/** Rewrites the class files below a directory: a call of Hook.line before every line, of Hook.part before every field access and call. */
public class Instrument {
    static AbstractInsnNode call(String name) { return new MethodInsnNode(Opcodes.INVOKESTATIC, "org/msgpack/core/Hook", name, "()V", false); }

    public static void main(String[] args) throws Exception {
        List<Path> files;
        try (Stream<Path> s = Files.walk(Paths.get(args[0]))) {
            files = s.filter(p -> p.toString().endsWith(".class")).collect(Collectors.toList());
        }
        for (Path p : files) {
            ClassNode c = new ClassNode();
            new ClassReader(Files.readAllBytes(p)).accept(c, 0);
            for (MethodNode m : c.methods) {
                boolean line = false;
                for (AbstractInsnNode i : m.instructions.toArray()) {
                    if (i instanceof LineNumberNode) line = true;
                    if (i.getOpcode() < 0) continue;
                    if (line) {
                        if (i.getOpcode() == Opcodes.NEW) m.instructions.insert(i, call("line"));   // stack maps name the place of new
                        else m.instructions.insertBefore(i, call("line"));
                        line = false;
                    } else if (i instanceof FieldInsnNode || i instanceof MethodInsnNode || i instanceof InvokeDynamicInsnNode
                            || i.getOpcode() >= Opcodes.IALOAD && i.getOpcode() <= Opcodes.SALOAD || i.getOpcode() >= Opcodes.IASTORE && i.getOpcode() <= Opcodes.SASTORE)
                        m.instructions.insertBefore(i, call("part"));
                }
            }
            ClassWriter w = new ClassWriter(0);
            c.accept(w);
            Files.write(p, w.toByteArray());
        }
    }
}
