import java.io.*;
import java.lang.reflect.*;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;
import org.msgpack.core.*;
import se.lth.cs.docria.*;
import se.lth.cs.docria.values.*;

/**
 * Executes scripts against the compiled docria classes.  One script per frame (4 bytes length, marshalled list of operations), all registers
 * are dropped between scripts.  An operation is [register or nil, kind, ...]; its outcome is ["v", value] or ["e", exception class, message].
 */
public class Bridge {
    final Map<String, Object> regs = new HashMap<>();
    final IdentityHashMap<Object, String> names = new IdentityHashMap<>();
    int fresh = 0;

    // ---------------------------------------------------------------------------------------------------- values to and from Python

    String nameOf(Object o) {
        String n = names.get(o);
        if (n == null) {
            n = "?" + (fresh++);
            names.put(o, n);
            regs.put(n, o);
        }
        return n;
    }

    /** What Python gets to see of a result: data as data, everything else as a name, the same object always under the same name. */
    Object show(Object o) {
        if (o == null || o instanceof Boolean || o instanceof Integer || o instanceof Long || o instanceof Double || o instanceof Float || o instanceof String || o instanceof byte[])
            return o;
        if (o instanceof Raw)
            return ((Raw) o).value;
        if (o instanceof Optional)
            return ((Optional<?>) o).isPresent() ? show(((Optional<?>) o).get()) : null;
        if (names.containsKey(o))
            return Collections.singletonMap("$", names.get(o));
        if (o instanceof IntStream)
            return ((IntStream) o).boxed().collect(Collectors.toList());
        if (o instanceof Stream)
            return ((Stream<?>) o).map(this::show).collect(Collectors.toList());
        if (o instanceof Object[])
            return Arrays.stream((Object[]) o).map(this::show).collect(Collectors.toList());
        if (o instanceof int[])
            return Arrays.stream((int[]) o).boxed().collect(Collectors.toList());
        if (o instanceof Iterator) {
            List<Object> all = new ArrayList<>();
            ((Iterator<?>) o).forEachRemaining(x -> all.add(show(x)));
            return all;
        }
        if (o instanceof Collection && !(o instanceof Layer))
            return ((Collection<?>) o).stream().map(this::show).collect(Collectors.toList());
        if (o instanceof Map) {
            Map<Object, Object> all = new TreeMap<>();
            ((Map<?, ?>) o).forEach((k, v) -> all.put(String.valueOf(k), show(v)));
            return all;
        }
        if (o instanceof org.msgpack.core.buffer.MessageBuffer)
            return ((org.msgpack.core.buffer.MessageBuffer) o).toByteArray();
        if (o instanceof CharSequence && !(o instanceof Span) && !(o instanceof Text))
            return o.toString();
        if (o instanceof Enum)
            return ((Enum<?>) o).name();
        return Collections.singletonMap("$", nameOf(o));
    }

    static final class Raw {
        final Object value;
        Raw(Object value) { this.value = value; }
    }

    static final class Long_ { final long v; Long_(long v) { this.v = v; } }

    /** Argument of a call: plain data, or {"$": register}, {"l": long}, {"list": [...]}, {"nodes": [...]}, {"enum": [class, name]}, {"by": field}. */
    Object arg(Object a) {
        if (a instanceof Long)
            return (int) (long) (Long) a;
        if (!(a instanceof Map))
            return a;
        Map.Entry<?, ?> e = ((Map<?, ?>) a).entrySet().iterator().next();
        Object v = e.getValue();
        switch ((String) e.getKey()) {
            case "$": {
                if (!regs.containsKey(v)) throw new IllegalStateException("script: register " + v + " is not set");
                return regs.get(v);
            }
            case "l": return new Long_((Long) v);
            case "list": {
                List<Object> all = new ArrayList<>();
                for (Object x : (List<?>) v) all.add(arg(x));
                return all;
            }
            case "nodes": {
                Node[] all = new Node[((List<?>) v).size()];
                for (int k = 0; k < all.length; k++) all[k] = (Node) arg(((List<?>) v).get(k));
                return all;
            }
            case "enum": {
                try {
                    return Enum.valueOf((Class) Class.forName((String) ((List<?>) v).get(0)), (String) ((List<?>) v).get(1));
                } catch (ClassNotFoundException x) {
                    throw new IllegalStateException(x);
                }
            }
            case "by": {
                final String field = (String) v;
                return (Comparator<Node>) (x, y) -> Integer.compare(x.get(field).intValue(), y.get(field).intValue());
            }
            case "down": {
                final String field = (String) v;
                return (Comparator<Node>) (x, y) -> Integer.compare(y.get(field).intValue(), x.get(field).intValue());
            }
            default: throw new IllegalArgumentException("script: " + a);
        }
    }

    // ------------------------------------------------------------------------------------------------------------------ invocation

    static int fits(Class<?> p, Object a) {
        if (a == null) return p.isPrimitive() ? -1 : 5;
        if (a instanceof Long_) return p == long.class ? 0 : p == Long.class ? 2 : -1;
        if (a instanceof Integer) return p == int.class ? 0 : p == long.class ? 3 : p == Integer.class ? 4 : p.isAssignableFrom(Integer.class) ? 8 : -1;
        if (a instanceof Double) return p == double.class ? 0 : p == Double.class ? 2 : p.isAssignableFrom(Double.class) ? 8 : -1;
        if (a instanceof Boolean) return p == boolean.class ? 0 : p == Boolean.class ? 2 : p.isAssignableFrom(Boolean.class) ? 8 : -1;
        if (p.isPrimitive() || !p.isInstance(a)) return -1;
        int far = 0;
        for (Class<?> c = a.getClass(); c != null; c = c.getSuperclass()) {
            if (c == p) return far;
            for (Class<?> i : c.getInterfaces()) if (p == i) return far + 1;
            far += 2;
        }
        return far;
    }

    static <E extends Executable> E pick(List<E> all, Object[] args, String what) throws NoSuchMethodException {
        E best = null;
        int score = Integer.MAX_VALUE;
        for (E m : all) {
            Class<?>[] ps = m.getParameterTypes();
            if (ps.length != args.length) continue;
            int sum = 0;
            for (int k = 0; k < ps.length && sum >= 0; k++) {
                int f = fits(ps[k], args[k]);
                sum = f < 0 ? -1 : sum + f;
            }
            if (sum >= 0 && sum < score) {
                score = sum;
                best = m;
            }
        }
        if (best == null) throw new NoSuchMethodException("script: no " + what + " for " + Arrays.toString(args));
        return best;
    }

    static Object[] unlong(Object[] args) {
        Object[] out = args.clone();
        for (int k = 0; k < out.length; k++)
            if (out[k] instanceof Long_) out[k] = ((Long_) out[k]).v;
        return out;
    }

    static Object[] fitted(Executable m, Object[] args) {
        Object[] out = unlong(args);
        for (int k = 0; k < out.length; k++)
            if (out[k] instanceof Integer && m.getParameterTypes()[k] == long.class) out[k] = (long) (Integer) out[k];
        return out;
    }

    static final Map<Class<?>, Map<String, List<Method>>> METHODS = new HashMap<>();
    static final Map<String, Class<?>> KNOWN = new HashMap<>();

    static Class<?> cls(String name) throws ClassNotFoundException {
        Class<?> known = KNOWN.get(name);
        if (known != null) return known;
        if (name.startsWith("java.")) return Class.forName(name);
        for (String p : new String[] {"se.lth.cs.docria.", "se.lth.cs.docria.values.", "se.lth.cs.docria.io.", "se.lth.cs.docria.algorithms.",
                                      "se.lth.cs.docria.hadoop.", ""}) {
            try {
                Class<?> c = Class.forName(p + name);
                KNOWN.put(name, c);
                return c;
            } catch (ClassNotFoundException e) {
                // next package
            }
        }
        throw new ClassNotFoundException(name);
    }

    static Object invoke(Class<?> c, Object target, String name, Object[] args) throws Throwable {
        List<Method> all = METHODS.computeIfAbsent(c, x -> new HashMap<>()).get(name + (target == null));
        if (all == null) {
            all = new ArrayList<>();
            for (Method m : c.getMethods())
                if (m.getName().equals(name) && !m.isBridge() && (target != null || Modifier.isStatic(m.getModifiers()))) {
                    m.setAccessible(true);
                    all.add(m);
                }
            METHODS.get(c).put(name + (target == null), all);
        }
        Method m = pick(all, args, c.getSimpleName() + "." + name);
        return m.invoke(target, fitted(m, args));
    }

    Object run(List<?> op) throws Throwable {
        String kind = (String) op.get(1);
        try {
            switch (kind) {
                case "new": {
                    Class<?> c = cls((String) op.get(2));
                    Object[] args = args(op, 3);
                    Constructor<?> k = pick(Arrays.asList(c.getConstructors()), args, "new " + c.getSimpleName());
                    return k.newInstance(fitted(k, args));
                }
                case "call": {
                    Object t = arg(op.get(2));
                    Object[] args = args(op, 4);
                    return invoke(t.getClass(), t, (String) op.get(3), args);
                }
                case "static": {
                    return invoke(cls((String) op.get(2)), null, (String) op.get(3), args(op, 4));
                }
                case "field": {
                    Object t = arg(op.get(2));
                    return t.getClass().getField((String) op.get(3)).get(t);
                }
                case "help": {
                    Object[] args = args(op, 3);
                    for (Method m : Helpers.class.getDeclaredMethods())
                        if (m.getName().equals(op.get(2)))
                            return m.invoke(null, m.getParameterTypes().length == args.length + 1 ? prepend(args) : unlong(args));
                    throw new NoSuchMethodException("script: helper " + op.get(2));
                }
                case "raw": {   // helper that takes plain data
                    List<Class<?>> places = new ArrayList<>(Arrays.asList(Helpers.class, Files.class, Sched.class, Algos.class, Lazy.class, Vals.class, Iterations.class));
                    try {
                        places.add(Class.forName("Hadoop"));
                    } catch (ClassNotFoundException e) {
                        // compiled without
                    }
                    for (Class<?> c : places)
                        for (Method m : c.getDeclaredMethods())
                            if (m.getName().equals(op.get(2)) && m.getParameterCount() == 2 && m.getParameterTypes()[0] == Bridge.class)
                                return m.invoke(null, this, op.subList(3, op.size()));
                    throw new NoSuchMethodException("script: helper " + op.get(2));
                }
                default: throw new IllegalArgumentException("script: " + kind);
            }
        } catch (InvocationTargetException e) {
            throw e.getCause();
        }
    }

    Object[] prepend(Object[] args) {
        Object[] out = new Object[args.length + 1];
        out[0] = this;
        System.arraycopy(unlong(args), 0, out, 1, args.length);
        return out;
    }

    Object[] args(List<?> op, int from) {
        Object[] out = new Object[op.size() - from];
        for (int k = 0; k < out.length; k++) out[k] = arg(op.get(from + k));
        return out;
    }

    byte[] script(List<?> ops) throws IOException {
        regs.clear();
        names.clear();
        fresh = 0;
        Hook.point = null;
        List<Object> out = new ArrayList<>();
        for (Object o : ops) {
            List<?> op = (List<?>) o;
            try {
                Object r = run(op);
                if (op.get(0) != null) {
                    regs.put((String) op.get(0), r);
                    if (r != null && !(r instanceof Boolean) && !(r instanceof Number) && !(r instanceof String) && !names.containsKey(r)) names.put(r, (String) op.get(0));
                    out.add(Arrays.asList("v", null));
                } else out.add(Arrays.asList("v", show(r)));
            } catch (VirtualMachineError e) {
                if (!(e instanceof StackOverflowError)) throw e;
                out.add(Arrays.asList("e", "StackOverflowError", ""));
            } catch (Throwable e) {
                StackTraceElement[] st = e.getStackTrace();
                out.add(Arrays.asList("e", e.getClass().getSimpleName(), e.getMessage() + (st.length > 0 ? " at " + st[0] : "")));
            }
        }
        return Marshal.dumps(out);
    }

    public static void main(String[] args) throws Exception {
        DataInputStream in = new DataInputStream(new BufferedInputStream(System.in, 1 << 16));
        PrintStream stdout = System.out;
        System.setOut(System.err);
        DataOutputStream out = new DataOutputStream(new BufferedOutputStream(stdout, 1 << 16));
        Bridge b = new Bridge();
        while (true) {
            int n;
            try {
                n = in.readInt();
            } catch (EOFException e) {
                return;
            }
            byte[] frame = new byte[n];
            in.readFully(frame);
            byte[] answer = b.script((List<?>) Marshal.loads(frame));
            out.writeInt(answer.length);
            out.write(answer);
            out.flush();
        }
    }
}
