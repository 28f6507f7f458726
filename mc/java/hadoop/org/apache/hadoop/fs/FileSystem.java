package org.apache.hadoop.fs;

import java.io.*;
import java.util.*;
import org.apache.hadoop.conf.Configuration;

/** Files in memory; a read answers at most standin.read bytes at a time, as a distributed file system may. */
public class FileSystem {
    public static final Map<String, byte[]> FILES = new TreeMap<>();
    public static int open = 0;
    private final Configuration conf;
    private FileSystem(Configuration conf) { this.conf = conf; }
    public static FileSystem get(Configuration conf) { return new FileSystem(conf); }

    public FSDataInputStream open(Path f) throws IOException {
        byte[] data = FILES.get(f.toString());
        if (data == null) throw new FileNotFoundException(f.toString());
        open++;
        return new FSDataInputStream(new FSDataInputStream.Memory(data, conf.getInt("standin.read", 1 << 20)));
    }
    public FSDataInputStream open(Path f, int bufferSize) throws IOException { return open(f); }

    public FSDataOutputStream create(Path f) throws IOException { return create(f, true); }
    public FSDataOutputStream create(Path f, boolean overwrite) throws IOException {
        if (!overwrite && FILES.containsKey(f.toString())) throw new IOException("exists: " + f);
        FILES.put(f.toString(), new byte[0]);
        open++;
        return new FSDataOutputStream(f.toString());
    }
    public boolean exists(Path f) { return FILES.containsKey(f.toString()); }
}
