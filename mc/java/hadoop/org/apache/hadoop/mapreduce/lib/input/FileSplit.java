package org.apache.hadoop.mapreduce.lib.input;

import org.apache.hadoop.fs.Path;
import org.apache.hadoop.mapreduce.InputSplit;

public class FileSplit extends InputSplit {
    private final Path file;
    private final long start, length;
    private final String[] hosts;
    public FileSplit(Path file, long start, long length, String[] hosts) {
        this.file = file;
        this.start = start;
        this.length = length;
        this.hosts = hosts;
    }
    public Path getPath() { return file; }
    public long getStart() { return start; }
    @Override public long getLength() { return length; }
    @Override public String[] getLocations() { return hosts == null ? new String[0] : hosts; }
}
