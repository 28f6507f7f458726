package org.msgpack.core.buffer;

import java.nio.ByteBuffer;
import java.util.Arrays;

public class MessageBuffer {
    private final byte[] array;
    private final int off, len;

    private MessageBuffer(byte[] array, int off, int len) {
        if (off < 0 || len < 0 || off + len > array.length)
            throw new IndexOutOfBoundsException();
        this.array = array;
        this.off = off;
        this.len = len;
    }

    public static MessageBuffer allocate(int size) { return new MessageBuffer(new byte[size], 0, size); }
    public static MessageBuffer wrap(byte[] array) { return new MessageBuffer(array, 0, array.length); }
    public static MessageBuffer wrap(byte[] array, int offset, int length) { return new MessageBuffer(array, offset, length); }
    public int size() { return len; }
    public byte getByte(int i) { return array[off + i]; }
    public MessageBuffer slice(int offset, int length) { return new MessageBuffer(array, off + offset, length); }
    public byte[] toByteArray() { return Arrays.copyOfRange(array, off, off + len); }
    public void getBytes(int index, byte[] dst, int dstOffset, int length) { System.arraycopy(array, off + index, dst, dstOffset, length); }
    public byte[] array() { return array; }
    public int arrayOffset() { return off; }
    public ByteBuffer sliceAsByteBuffer() { return ByteBuffer.wrap(array, off, len).slice(); }
    public ByteBuffer sliceAsByteBuffer(int index, int length) { return ByteBuffer.wrap(array, off + index, length).slice(); }
}
