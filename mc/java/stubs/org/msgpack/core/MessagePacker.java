package org.msgpack.core;

import java.io.Closeable;
import java.io.Flushable;
import java.io.IOException;
import java.io.OutputStream;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import org.msgpack.value.Value;

/** As msgpack-core's: buffers up to 8 KiB, large payloads pass the buffer by, integers in their shortest form. */
public class MessagePacker implements Closeable, Flushable {
    private static final int BUFFER = 8192;
    protected OutputStream out;
    private final byte[] buffer = new byte[BUFFER];
    private int position = 0;
    private long flushed = 0;

    protected MessagePacker(OutputStream out) {
        if (out == null)
            throw new NullPointerException("MessageBufferOutput is null");
        this.out = out;
    }

    /** Hands bytes on, by reference where the output keeps references. */
    protected void emit(byte[] src, int off, int len, boolean mine) throws IOException {
        out.write(src, off, len);
    }

    private void flushBuffer() throws IOException {
        if (position > 0) {
            byte[] copy = java.util.Arrays.copyOf(buffer, position);
            emit(copy, 0, copy.length, true);
            flushed += position;
            position = 0;
        }
    }

    private void put(int b) throws IOException {
        if (position == BUFFER)
            flushBuffer();
        buffer[position++] = (byte) b;
    }

    private void big(long v, int bytes) throws IOException {
        if (BUFFER - position < bytes + 1)
            flushBuffer();
        for (int k = bytes - 1; k >= 0; k--)
            put((int) (v >> (8 * k)));
    }

    public long getTotalWrittenBytes() { return flushed + position; }

    public void clear() { position = 0; }

    @Override
    public void flush() throws IOException {
        flushBuffer();
        out.flush();
    }

    @Override
    public void close() throws IOException {
        try {
            flush();
        } finally {
            out.close();
        }
    }

    public MessagePacker packNil() throws IOException { Hook.fine("pack"); put(0xc0); return this; }
    public MessagePacker packBoolean(boolean b) throws IOException { Hook.fine("pack"); put(b ? 0xc3 : 0xc2); return this; }
    public MessagePacker packByte(byte b) throws IOException { return packLong(b); }
    public MessagePacker packShort(short v) throws IOException { return packLong(v); }
    public MessagePacker packInt(int r) throws IOException { return packLong(r); }

    public MessagePacker packLong(long v) throws IOException { Hook.fine("pack");
        if (v < -(1L << 5)) {
            if (v < -(1L << 31)) { put(0xd3); big(v, 8); }
            else if (v < -(1L << 15)) { put(0xd2); big(v, 4); }
            else if (v < -(1L << 7)) { put(0xd1); big(v, 2); }
            else { put(0xd0); big(v, 1); }
        } else if (v < (1L << 7)) {
            put((int) v);
        } else if (v < (1L << 8)) { put(0xcc); big(v, 1); }
        else if (v < (1L << 16)) { put(0xcd); big(v, 2); }
        else if (v < (1L << 32)) { put(0xce); big(v, 4); }
        else { put(0xcf); big(v, 8); }
        return this;
    }

    public MessagePacker packBigInteger(BigInteger bi) throws IOException {
        if (bi.bitLength() <= 63)
            return packLong(bi.longValue());
        if (bi.bitLength() == 64 && bi.signum() == 1) { put(0xcf); big(bi.longValue(), 8); return this; }
        throw new IllegalArgumentException("MessagePack cannot serialize BigInteger larger than 2^64-1");
    }

    public MessagePacker packFloat(float v) throws IOException { Hook.fine("pack"); put(0xca); big(Float.floatToRawIntBits(v), 4); return this; }
    public MessagePacker packDouble(double v) throws IOException { Hook.fine("pack"); put(0xcb); big(Double.doubleToRawLongBits(v), 8); return this; }

    public MessagePacker packString(String s) throws IOException { Hook.fine("pack");
        byte[] bytes = s.getBytes(StandardCharsets.UTF_8);
        packRawStringHeader(bytes.length);
        addPayload(bytes);
        return this;
    }

    public MessagePacker packArrayHeader(int n) throws IOException { Hook.fine("pack");
        if (n < 0)
            throw new IllegalArgumentException("array size must be >= 0");
        if (n < 16) put(0x90 | n);
        else if (n < (1 << 16)) { put(0xdc); big(n, 2); }
        else { put(0xdd); big(n, 4); }
        return this;
    }

    public MessagePacker packMapHeader(int n) throws IOException { Hook.fine("pack");
        if (n < 0)
            throw new IllegalArgumentException("map size must be >= 0");
        if (n < 16) put(0x80 | n);
        else if (n < (1 << 16)) { put(0xde); big(n, 2); }
        else { put(0xdf); big(n, 4); }
        return this;
    }

    public MessagePacker packValue(Value v) throws IOException { v.writeTo(this); return this; }

    public MessagePacker packExtensionTypeHeader(byte type, int n) throws IOException { Hook.fine("pack");
        if (n < (1 << 8)) {
            if (n > 0 && (n & (n - 1)) == 0 && n <= 16) {
                put(0xd4 + Integer.numberOfTrailingZeros(n));
            } else { put(0xc7); big(n, 1); }
        } else if (n < (1 << 16)) { put(0xc8); big(n, 2); }
        else { put(0xc9); big(n, 4); }
        put(type);
        return this;
    }

    public MessagePacker packBinaryHeader(int n) throws IOException { Hook.fine("pack");
        Hook.at("packBinaryHeader");
        if (n < (1 << 8)) { put(0xc4); big(n, 1); }
        else if (n < (1 << 16)) { put(0xc5); big(n, 2); }
        else { put(0xc6); big(n, 4); }
        return this;
    }

    public MessagePacker packRawStringHeader(int n) throws IOException { Hook.fine("pack");
        if (n < (1 << 5)) put(0xa0 | n);
        else if (n < (1 << 8)) { put(0xd9); big(n, 1); }
        else if (n < (1 << 16)) { put(0xda); big(n, 2); }
        else { put(0xdb); big(n, 4); }
        return this;
    }

    public MessagePacker writePayload(byte[] src) throws IOException { return writePayload(src, 0, src.length); }

    public MessagePacker writePayload(byte[] src, int off, int len) throws IOException { Hook.fine("payload");
        if (BUFFER - position < len) {
            flushBuffer();
            if (len > BUFFER) {
                byte[] copy = java.util.Arrays.copyOfRange(src, off, off + len);
                emit(copy, 0, len, true);
                flushed += len;
                return this;
            }
        }
        System.arraycopy(src, off, buffer, position, len);
        position += len;
        return this;
    }

    public MessagePacker addPayload(byte[] src) throws IOException { return addPayload(src, 0, src.length); }

    public MessagePacker addPayload(byte[] src, int off, int len) throws IOException {
        Hook.at("addPayload");
        if (BUFFER - position < len) {
            flushBuffer();
            emit(src, off, len, false);
            flushed += len;
        } else {
            System.arraycopy(src, off, buffer, position, len);
            position += len;
        }
        return this;
    }
}
