package org.apache.hadoop.mapreduce;

import java.io.IOException;

public abstract class OutputFormat<K, V> {
    public abstract RecordWriter<K, V> getRecordWriter(TaskAttemptContext context) throws IOException, InterruptedException;
}
