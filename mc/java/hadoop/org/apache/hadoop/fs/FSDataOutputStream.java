package org.apache.hadoop.fs;

import java.io.*;
import java.util.Arrays;

/** What was written is in the file after a flush or close; what is only buffered is not. */
public class FSDataOutputStream extends DataOutputStream {
    private static final class Memory extends OutputStream {
        final String name;
        final ByteArrayOutputStream buffer = new ByteArrayOutputStream();
        boolean closed = false;
        Memory(String name) { this.name = name; }
        private void check() throws IOException { if (closed) throw new IOException("Stream is closed!"); }
        @Override public void write(int b) throws IOException {
            check();
            buffer.write(b);
        }
        @Override public void write(byte[] b, int off, int len) throws IOException {
            check();
            buffer.write(b, off, len);
        }
        @Override public void flush() throws IOException {
            if (!closed) FileSystem.FILES.put(name, buffer.toByteArray());
        }
        @Override public void close() throws IOException {
            if (closed) return;
            flush();
            closed = true;
            FileSystem.open--;
        }
    }
    FSDataOutputStream(String name) { super(new Memory(name)); }
    public long getPos() { return ((Memory) out).buffer.size(); }
    public void hflush() throws IOException { flush(); }
    public void hsync() throws IOException { flush(); }
}
