package org.apache.hadoop.fs;

import java.io.IOException;
import org.apache.hadoop.conf.Configuration;

public class Path implements Comparable<Path> {
    private final String path;
    public Path(String path) { this.path = path; }
    public Path(Path parent, String child) { this(parent.path + "/" + child); }
    public Path(String parent, String child) { this(parent + "/" + child); }
    public FileSystem getFileSystem(Configuration conf) throws IOException { return FileSystem.get(conf); }
    public String getName() { return path.substring(path.lastIndexOf('/') + 1); }
    @Override public String toString() { return path; }
    @Override public boolean equals(Object o) { return o instanceof Path && ((Path) o).path.equals(path); }
    @Override public int hashCode() { return path.hashCode(); }
    @Override public int compareTo(Path o) { return path.compareTo(o.path); }
}
