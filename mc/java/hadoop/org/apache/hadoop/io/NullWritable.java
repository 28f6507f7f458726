package org.apache.hadoop.io;

import java.io.*;

public class NullWritable implements Writable {
    private static final NullWritable THIS = new NullWritable();
    private NullWritable() { }
    public static NullWritable get() { return THIS; }
    @Override public void write(DataOutput out) { }
    @Override public void readFields(DataInput in) { }
}
