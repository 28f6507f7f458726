package org.apache.hadoop.mapreduce;

import org.apache.hadoop.conf.Configuration;

public interface JobContext {
    Configuration getConfiguration();
}
