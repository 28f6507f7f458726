package org.apache.hadoop.mapreduce;

public interface TaskAttemptContext extends JobContext { }
