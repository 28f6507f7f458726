package org.apache.hadoop.mapreduce;

import java.io.*;

public abstract class RecordReader<K, V> implements Closeable {
    public abstract void initialize(InputSplit split, TaskAttemptContext context) throws IOException, InterruptedException;
    public abstract boolean nextKeyValue() throws IOException, InterruptedException;
    public abstract K getCurrentKey() throws IOException, InterruptedException;
    public abstract V getCurrentValue() throws IOException, InterruptedException;
    public abstract float getProgress() throws IOException, InterruptedException;
    public abstract void close() throws IOException;
}
