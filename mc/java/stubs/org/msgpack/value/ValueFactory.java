package org.msgpack.value;

import java.io.IOException;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.charset.StandardCharsets;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Iterator;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import org.msgpack.core.MessageIntegerOverflowException;
import org.msgpack.core.MessagePacker;

public final class ValueFactory {
    private ValueFactory() { }

    abstract static class Base implements ImmutableValue {
        final ValueType type;
        final Object key;
        Base(ValueType type, Object key) { this.type = type; this.key = key; }
        @Override public ValueType getValueType() { return type; }
        @Override public int hashCode() { return 31 * type.hashCode() + key.hashCode(); }
        @Override public boolean equals(Object o) { return o instanceof Base && ((Base) o).type == type && ((Base) o).key.equals(key); }
        @Override public String toString() { return key.toString(); }
    }

    public static ImmutableValue newNil() {
        return new Base(ValueType.NIL, "null") {
            @Override public void writeTo(MessagePacker p) throws IOException { p.packNil(); }
        };
    }

    static class Bool extends Base implements ImmutableBooleanValue {
        Bool(boolean v) { super(ValueType.BOOLEAN, v); }
        @Override public boolean getBoolean() { return (Boolean) key; }
        @Override public ImmutableBooleanValue asBooleanValue() { return this; }
        @Override public void writeTo(MessagePacker p) throws IOException { p.packBoolean(getBoolean()); }
    }

    public static ImmutableBooleanValue newBoolean(boolean v) { return new Bool(v); }

    static class Int extends Base implements ImmutableIntegerValue {
        final BigInteger v;
        Int(BigInteger v) { super(ValueType.INTEGER, v); this.v = v; }
        private boolean in(int bits) { return v.bitLength() <= bits; }
        @Override public ImmutableIntegerValue asIntegerValue() { return this; }
        @Override public ImmutableNumberValue asNumberValue() { return this; }
        @Override public byte toByte() { return v.byteValue(); }
        @Override public short toShort() { return v.shortValue(); }
        @Override public int toInt() { return v.intValue(); }
        @Override public long toLong() { return v.longValue(); }
        @Override public BigInteger toBigInteger() { return v; }
        @Override public float toFloat() { return v.floatValue(); }
        @Override public double toDouble() { return v.doubleValue(); }
        @Override public boolean isInByteRange() { return in(7); }
        @Override public boolean isInShortRange() { return in(15); }
        @Override public boolean isInIntRange() { return in(31); }
        @Override public boolean isInLongRange() { return in(63); }
        private void check(int bits) { if (!in(bits)) throw new MessageIntegerOverflowException(v.toString()); }
        @Override public byte asByte() { check(7); return toByte(); }
        @Override public short asShort() { check(15); return toShort(); }
        @Override public int asInt() { check(31); return toInt(); }
        @Override public long asLong() { check(63); return toLong(); }
        @Override public BigInteger asBigInteger() { return v; }
        @Override public void writeTo(MessagePacker p) throws IOException { p.packBigInteger(v); }
    }

    public static ImmutableIntegerValue newInteger(long v) { return new Int(BigInteger.valueOf(v)); }
    public static ImmutableIntegerValue newInteger(BigInteger v) { return new Int(v); }

    static class Flt extends Base implements ImmutableFloatValue {
        final double v;
        Flt(double v) { super(ValueType.FLOAT, v); this.v = v; }
        @Override public ImmutableFloatValue asFloatValue() { return this; }
        @Override public ImmutableNumberValue asNumberValue() { return this; }
        @Override public byte toByte() { return (byte) v; }
        @Override public short toShort() { return (short) v; }
        @Override public int toInt() { return (int) v; }
        @Override public long toLong() { return (long) v; }
        @Override public BigInteger toBigInteger() { return new java.math.BigDecimal(v).toBigInteger(); }
        @Override public float toFloat() { return (float) v; }
        @Override public double toDouble() { return v; }
        @Override public void writeTo(MessagePacker p) throws IOException { p.packDouble(v); }
    }

    public static ImmutableFloatValue newFloat(double v) { return new Flt(v); }

    static class Str extends Base implements ImmutableStringValue {
        final byte[] data;
        Str(byte[] data) { super(ValueType.STRING, new String(data, StandardCharsets.UTF_8)); this.data = data; }
        @Override public ImmutableStringValue asStringValue() { return this; }
        @Override public ImmutableRawValue asRawValue() { return this; }
        @Override public byte[] asByteArray() { return data.clone(); }
        @Override public ByteBuffer asByteBuffer() { return ByteBuffer.wrap(data).asReadOnlyBuffer(); }
        @Override public String asString() { return (String) key; }
        @Override public void writeTo(MessagePacker p) throws IOException { p.packRawStringHeader(data.length); p.writePayload(data); }
    }

    public static ImmutableStringValue newString(String s) { return new Str(s.getBytes(StandardCharsets.UTF_8)); }
    public static ImmutableStringValue newString(byte[] b) { return new Str(b); }

    static class Bin extends Base implements ImmutableBinaryValue {
        final byte[] data;
        Bin(byte[] data) { super(ValueType.BINARY, ByteBuffer.wrap(data)); this.data = data; }
        @Override public ImmutableBinaryValue asBinaryValue() { return this; }
        @Override public ImmutableRawValue asRawValue() { return this; }
        @Override public byte[] asByteArray() { return data.clone(); }
        @Override public ByteBuffer asByteBuffer() { return ByteBuffer.wrap(data).asReadOnlyBuffer(); }
        @Override public String asString() { return new String(data, StandardCharsets.UTF_8); }
        @Override public String toString() { return asString(); }
        @Override public void writeTo(MessagePacker p) throws IOException { p.packBinaryHeader(data.length); p.writePayload(data); }
    }

    public static ImmutableBinaryValue newBinary(byte[] b) { return new Bin(b); }

    static class Arr extends Base implements ImmutableArrayValue {
        final List<Value> all;
        Arr(List<Value> all) { super(ValueType.ARRAY, all); this.all = all; }
        @Override public ImmutableArrayValue asArrayValue() { return this; }
        @Override public int size() { return all.size(); }
        @Override public Value get(int i) { return all.get(i); }
        @Override public List<Value> list() { return all; }
        @Override public Iterator<Value> iterator() { return all.iterator(); }
        @Override public void writeTo(MessagePacker p) throws IOException {
            p.packArrayHeader(all.size());
            for (Value v : all) v.writeTo(p);
        }
    }

    public static ImmutableArrayValue newArray(List<? extends Value> all) { return new Arr(new ArrayList<>(all)); }
    public static ImmutableArrayValue newArray(Value... all) { return new Arr(new ArrayList<>(Arrays.asList(all))); }

    static class Obj extends Base implements ImmutableMapValue {
        final Map<Value, Value> all;
        Obj(Map<Value, Value> all) { super(ValueType.MAP, all); this.all = all; }
        @Override public ImmutableMapValue asMapValue() { return this; }
        @Override public int size() { return all.size(); }
        @Override public Map<Value, Value> map() { return all; }
        @Override public Set<Value> keySet() { return all.keySet(); }
        @Override public Set<Map.Entry<Value, Value>> entrySet() { return all.entrySet(); }
        @Override public void writeTo(MessagePacker p) throws IOException {
            p.packMapHeader(all.size());
            for (Map.Entry<Value, Value> e : all.entrySet()) {
                e.getKey().writeTo(p);
                e.getValue().writeTo(p);
            }
        }
    }

    public static ImmutableMapValue newMap(Map<Value, Value> all) { return new Obj(new LinkedHashMap<>(all)); }

    static class Ext extends Base implements ImmutableExtensionValue {
        final byte code;
        final byte[] data;
        Ext(byte code, byte[] data) { super(ValueType.EXTENSION, code + ":" + ByteBuffer.wrap(data).hashCode()); this.code = code; this.data = data; }
        @Override public ImmutableExtensionValue asExtensionValue() { return this; }
        @Override public byte getType() { return code; }
        @Override public byte[] getData() { return data; }
        @Override public void writeTo(MessagePacker p) throws IOException { p.packExtensionTypeHeader(code, data.length); p.writePayload(data); }
    }

    public static ImmutableExtensionValue newExtension(byte type, byte[] data) { return new Ext(type, data); }
}
