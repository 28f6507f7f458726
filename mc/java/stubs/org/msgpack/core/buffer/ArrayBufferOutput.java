package org.msgpack.core.buffer;

/** Only imported by docria. */
public class ArrayBufferOutput {
    public ArrayBufferOutput() { }
}
