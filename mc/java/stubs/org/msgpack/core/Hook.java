package org.msgpack.core;

/** Not part of msgpack-core: lets a controlled scheduler see every call into the library. */
public final class Hook {
    public interface Point { void at(String what); }
    public static volatile Point point = null;
    static void at(String what) {
        Point p = point;
        if (p != null)
            p.at(what);
    }
    /** Points at every call, for a scheduler that asks for them. */
    public static volatile Point fine = null;
    static void fine(String what) {
        Point p = fine;
        if (p != null)
            p.at(what);
    }
    /** Points between lines, and between parts of them, in instrumented code. */
    public static volatile Runnable lines = null, parts = null;
    public static void line() {
        Runnable r = lines;
        if (r != null)
            r.run();
    }
    public static void part() {
        Runnable r = parts;
        if (r != null)
            r.run();
    }
    private Hook() { }
}
