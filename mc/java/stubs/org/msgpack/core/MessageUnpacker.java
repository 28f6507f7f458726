package org.msgpack.core;

import java.io.Closeable;
import java.io.IOException;
import java.io.InputStream;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import org.msgpack.core.buffer.MessageBuffer;
import org.msgpack.value.ImmutableValue;
import org.msgpack.value.Value;
import org.msgpack.value.ValueFactory;

/** As msgpack-core's: integers of any width are taken if they fit, strings and binaries may stand for each other, floats are not integers. */
public class MessageUnpacker implements Closeable {
    private InputStream in;
    private byte[] buf;
    private int pos, end;
    private long base;   // bytes consumed before buf[start]
    private int start;

    MessageUnpacker(InputStream in) {
        if (in == null)
            throw new NullPointerException("MessageBufferInput is null");
        this.in = in;
        this.buf = new byte[0];
    }

    MessageUnpacker(byte[] contents, int off, int len) {
        if (off < 0 || len < 0 || off + len > contents.length)
            throw new IndexOutOfBoundsException("off " + off + " len " + len + " of " + contents.length);
        this.buf = contents;
        this.start = this.pos = off;
        this.end = off + len;
    }

    /** Makes at least n bytes available, or tells that there are fewer. */
    private boolean ensure(int n) throws IOException {
        while (end - pos < n) {
            if (in == null)
                return false;
            byte[] next = new byte[Math.max(8192, end - pos + 8192)];
            int left = end - pos;
            System.arraycopy(buf, pos, next, 0, left);
            base += pos - start;
            int got = in.read(next, left, 8192);
            buf = next;
            start = pos = 0;
            end = left + Math.max(got, 0);
            if (got <= 0)
                return end - pos >= n;
        }
        return true;
    }

    private void need(int n) throws IOException {
        if (!ensure(n))
            throw new MessageInsufficientBufferException();
    }

    private int peek() throws IOException {
        need(1);
        return buf[pos] & 0xff;
    }

    private int u8() throws IOException {
        need(1);
        return buf[pos++] & 0xff;
    }

    private long big(int n) throws IOException {
        need(n);
        long v = 0;
        for (int k = 0; k < n; k++)
            v = (v << 8) | (buf[pos++] & 0xff);
        return v;
    }

    private static String name(int b) {
        if (b < 0x80 || b >= 0xe0 || (b >= 0xcc && b <= 0xd3)) return "Integer";
        if (b < 0x90 || b == 0xde || b == 0xdf) return "Map";
        if (b < 0xa0 || b == 0xdc || b == 0xdd) return "Array";
        if (b < 0xc0 || (b >= 0xd9 && b <= 0xdb)) return "String";
        if (b == 0xc0) return "Nil";
        if (b == 0xc2 || b == 0xc3) return "Boolean";
        if (b == 0xca || b == 0xcb) return "Float";
        if (b >= 0xc4 && b <= 0xc6) return "Binary";
        return "Extension";
    }

    private static MessagePackException unexpected(String expected, int b) {
        if (b == 0xc1)
            return new MessageNeverUsedFormatException("Expected " + expected + ", but encountered 0xC1 \"NEVER_USED\" byte");
        return new MessageTypeException("Expected " + expected + ", but got " + name(b) + " (" + String.format("%02x", b) + ")");
    }

    public long getTotalReadBytes() { return base + pos - start; }

    public boolean hasNext() throws IOException {
        Hook.at("hasNext");
        return ensure(1);
    }

    public boolean tryUnpackNil() throws IOException {
        if (!ensure(1))
            throw new MessageInsufficientBufferException();
        if (peek() == 0xc0) {
            pos++;
            return true;
        }
        return false;
    }

    public void unpackNil() throws IOException { Hook.fine("unpack");
        int b = u8();
        if (b != 0xc0)
            throw unexpected("Nil", b);
    }

    public boolean unpackBoolean() throws IOException { Hook.fine("unpack");
        int b = u8();
        if (b == 0xc2) return false;
        if (b == 0xc3) return true;
        throw unexpected("boolean", b);
    }

    public byte unpackByte() throws IOException { return (byte) ranged(Byte.MIN_VALUE, Byte.MAX_VALUE); }
    public short unpackShort() throws IOException { return (short) ranged(Short.MIN_VALUE, Short.MAX_VALUE); }
    public int unpackInt() throws IOException { return (int) ranged(Integer.MIN_VALUE, Integer.MAX_VALUE); }
    public long unpackLong() throws IOException { return ranged(Long.MIN_VALUE, Long.MAX_VALUE); }

    private long ranged(long low, long high) throws IOException { Hook.fine("unpack");
        BigInteger v = unpackBigInteger();
        if (v.compareTo(BigInteger.valueOf(low)) < 0 || v.compareTo(BigInteger.valueOf(high)) > 0)
            throw new MessageIntegerOverflowException(v.toString());
        return v.longValue();
    }

    public BigInteger unpackBigInteger() throws IOException { Hook.fine("unpack");
        int b = u8();
        if (b < 0x80) return BigInteger.valueOf(b);
        if (b >= 0xe0) return BigInteger.valueOf((byte) b);
        switch (b) {
            case 0xcc: return BigInteger.valueOf(big(1));
            case 0xcd: return BigInteger.valueOf(big(2));
            case 0xce: return BigInteger.valueOf(big(4));
            case 0xcf: return new BigInteger(Long.toUnsignedString(big(8)));
            case 0xd0: return BigInteger.valueOf((byte) big(1));
            case 0xd1: return BigInteger.valueOf((short) big(2));
            case 0xd2: return BigInteger.valueOf((int) big(4));
            case 0xd3: return BigInteger.valueOf(big(8));
            default: throw unexpected("Integer", b);
        }
    }

    public float unpackFloat() throws IOException { return (float) unpackDouble(); }

    public double unpackDouble() throws IOException { Hook.fine("unpack");
        int b = u8();
        if (b == 0xca) return Float.intBitsToFloat((int) big(4));
        if (b == 0xcb) return Double.longBitsToDouble(big(8));
        throw unexpected("Float", b);
    }

    public String unpackString() throws IOException { Hook.fine("unpack");
        int n = unpackRawStringHeader();
        need(n);
        String s = new String(buf, pos, n, StandardCharsets.UTF_8);
        pos += n;
        return s;
    }

    private int size(long n) {
        if (n > Integer.MAX_VALUE)
            throw new MessageSizeException("" + n);
        return (int) n;
    }

    private int stringHeader(int b) throws IOException {
        if (b >= 0xa0 && b < 0xc0) return b & 0x1f;
        if (b == 0xd9) return (int) big(1);
        if (b == 0xda) return (int) big(2);
        if (b == 0xdb) return size(big(4));
        return -1;
    }

    private int binaryHeader(int b) throws IOException {
        if (b == 0xc4) return (int) big(1);
        if (b == 0xc5) return (int) big(2);
        if (b == 0xc6) return size(big(4));
        return -1;
    }

    public int unpackRawStringHeader() throws IOException { Hook.fine("unpack");
        int b = u8(), n = stringHeader(b);
        if (n < 0) n = binaryHeader(b);
        if (n < 0) throw unexpected("String", b);
        return n;
    }

    public int unpackBinaryHeader() throws IOException { Hook.fine("unpack");
        Hook.at("unpackBinaryHeader");
        int b = u8(), n = stringHeader(b);
        if (n < 0) n = binaryHeader(b);
        if (n < 0) throw unexpected("Binary", b);
        return n;
    }

    public int unpackArrayHeader() throws IOException { Hook.fine("unpack");
        int b = u8();
        if (b >= 0x90 && b < 0xa0) return b & 0x0f;
        if (b == 0xdc) return (int) big(2);
        if (b == 0xdd) return size(big(4));
        throw unexpected("Array", b);
    }

    public int unpackMapHeader() throws IOException { Hook.fine("unpack");
        int b = u8();
        if (b >= 0x80 && b < 0x90) return b & 0x0f;
        if (b == 0xde) return (int) big(2);
        if (b == 0xdf) return size(big(4));
        throw unexpected("Map", b);
    }

    private int extensionLength(int b) throws IOException {
        if (b >= 0xd4 && b <= 0xd8) return 1 << (b - 0xd4);
        if (b == 0xc7) return (int) big(1);
        if (b == 0xc8) return (int) big(2);
        if (b == 0xc9) return size(big(4));
        throw unexpected("Ext", b);
    }

    public void skipValue(int count) throws IOException {
        for (int k = 0; k < count; k++)
            skipValue();
    }

    public void skipValue() throws IOException { Hook.fine("unpack");
        Hook.at("skipValue");
        skip();
    }

    private void skip() throws IOException {
        int b = peek();
        switch (name(b)) {
            case "Map": {
                int n = unpackMapHeader();
                for (int k = 0; k < 2 * n; k++) skip();
                break;
            }
            case "Array": {
                int n = unpackArrayHeader();
                for (int k = 0; k < n; k++) skip();
                break;
            }
            case "Nil": case "Boolean": pos++; break;
            case "Integer": unpackBigInteger(); break;
            case "Float": unpackDouble(); break;
            case "String": readPayload(unpackRawStringHeader()); break;
            case "Binary": { u8(); readPayload(binaryHeader(b)); break; }
            default: {
                if (b == 0xc1)
                    throw new MessageNeverUsedFormatException("Encountered 0xC1 \"NEVER_USED\" byte");
                u8();
                readPayload(extensionLength(b) + 1);
            }
        }
    }

    public ImmutableValue unpackValue() throws IOException { Hook.fine("unpack");
        int b = peek();
        switch (name(b)) {
            case "Nil": pos++; return ValueFactory.newNil();
            case "Boolean": return ValueFactory.newBoolean(unpackBoolean());
            case "Integer": return ValueFactory.newInteger(unpackBigInteger());
            case "Float": return ValueFactory.newFloat(unpackDouble());
            case "String": return ValueFactory.newString(readPayload(unpackRawStringHeader()));
            case "Binary": { u8(); return ValueFactory.newBinary(readPayload(binaryHeader(b))); }
            case "Array": {
                int n = unpackArrayHeader();
                List<Value> all = new ArrayList<>();
                for (int k = 0; k < n; k++) all.add(unpackValue());
                return ValueFactory.newArray(all);
            }
            case "Map": {
                int n = unpackMapHeader();
                Map<Value, Value> all = new LinkedHashMap<>();
                for (int k = 0; k < n; k++) {
                    Value key = unpackValue();
                    all.put(key, unpackValue());
                }
                return ValueFactory.newMap(all);
            }
            default: {
                if (b == 0xc1)
                    throw new MessageNeverUsedFormatException("Encountered 0xC1 \"NEVER_USED\" byte");
                u8();
                int n = extensionLength(b);
                byte type = (byte) u8();
                return ValueFactory.newExtension(type, readPayload(n));
            }
        }
    }

    public byte[] readPayload(int n) throws IOException { Hook.fine("unpack");
        Hook.at("readPayload");
        need(n);
        byte[] out = Arrays.copyOfRange(buf, pos, pos + n);
        pos += n;
        return out;
    }

    public void readPayload(byte[] dst) throws IOException { readPayload(dst, 0, dst.length); }

    public void readPayload(byte[] dst, int off, int len) throws IOException {
        System.arraycopy(readPayload(len), 0, dst, off, len);
    }

    public MessageBuffer readPayloadAsReference(int n) throws IOException { return MessageBuffer.wrap(readPayload(n)); }

    @Override
    public void close() throws IOException {
        if (in != null)
            in.close();
    }
}
