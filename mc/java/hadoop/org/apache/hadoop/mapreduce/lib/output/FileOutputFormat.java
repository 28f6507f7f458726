package org.apache.hadoop.mapreduce.lib.output;

import java.io.IOException;
import org.apache.hadoop.fs.Path;
import org.apache.hadoop.mapreduce.*;

public abstract class FileOutputFormat<K, V> extends OutputFormat<K, V> {
    @Override public abstract RecordWriter<K, V> getRecordWriter(TaskAttemptContext context) throws IOException, InterruptedException;

    public Path getDefaultWorkFile(TaskAttemptContext context, String extension) throws IOException {
        return new Path("/out/part-" + (context.getConfiguration().getInt("standin.part", 0) + 100000) + extension);
    }
}
