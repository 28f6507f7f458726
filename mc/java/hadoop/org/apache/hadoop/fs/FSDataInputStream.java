package org.apache.hadoop.fs;

import java.io.*;

public class FSDataInputStream extends DataInputStream {
    static final class Memory extends InputStream {
        final byte[] data;
        final int most;
        int pos = 0;
        boolean closed = false;
        Memory(byte[] data, int most) { this.data = data; this.most = most; }
        private void check() throws IOException { if (closed) throw new IOException("Stream is closed!"); }
        @Override public int read() throws IOException {
            check();
            return pos < data.length ? data[pos++] & 0xff : -1;
        }
        @Override public int read(byte[] b, int off, int len) throws IOException {
            check();
            if (len == 0) return 0;
            if (pos >= data.length) return -1;
            int n = Math.min(Math.min(len, most), data.length - pos);
            System.arraycopy(data, pos, b, off, n);
            pos += n;
            return n;
        }
        @Override public long skip(long n) throws IOException {
            check();
            int k = (int) Math.max(0, Math.min(Math.min(n, most), data.length - pos));
            pos += k;
            return k;
        }
        @Override public int available() throws IOException {
            check();
            return data.length - pos;
        }
        @Override public void close() {
            if (!closed) FileSystem.open--;
            closed = true;
        }
    }

    private final Memory memory;
    FSDataInputStream(Memory memory) {
        super(memory);
        this.memory = memory;
    }
    public long getPos() throws IOException { return memory.pos; }
    public void seek(long to) throws IOException {
        memory.check();
        if (to < 0 || to > memory.data.length) throw new EOFException("Cannot seek to " + to);
        memory.pos = (int) to;
    }
}
