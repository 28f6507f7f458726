package org.apache.hadoop.mapreduce.lib.input;

import java.io.IOException;
import java.util.*;
import org.apache.hadoop.fs.*;
import org.apache.hadoop.mapreduce.*;

/** Splits files into pieces of the split size, or leaves them whole when the format says so. */
public abstract class FileInputFormat<K, V> extends InputFormat<K, V> {
    protected boolean isSplitable(JobContext context, Path file) { return true; }

    @Override public List<InputSplit> getSplits(JobContext context) throws IOException {
        List<InputSplit> out = new ArrayList<>();
        long size = context.getConfiguration().getLong("mapreduce.input.fileinputformat.split.maxsize", Long.MAX_VALUE);
        for (Map.Entry<String, byte[]> e : FileSystem.FILES.entrySet()) {
            Path path = new Path(e.getKey());
            long length = e.getValue().length;
            if (length == 0 || !isSplitable(context, path)) out.add(new FileSplit(path, 0, length, new String[] {"here"}));
            else for (long at = 0; at < length; at += size) {
                out.add(new FileSplit(path, at, Math.min(size, length - at), new String[] {"here"}));
                if (size >= length - at) break;
            }
        }
        return out;
    }
}
