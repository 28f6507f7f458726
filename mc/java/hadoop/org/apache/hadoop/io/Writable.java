package org.apache.hadoop.io;

import java.io.*;

public interface Writable {
    void write(DataOutput out) throws IOException;
    void readFields(DataInput in) throws IOException;
}
