import java.io.*;
import java.math.BigInteger;
import java.nio.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Python's marshal format, version 2: what scripts and answers are sent in. */
class Marshal {
    private final ByteBuffer in;

    private Marshal(byte[] data) { in = ByteBuffer.wrap(data).order(ByteOrder.LITTLE_ENDIAN); }

    static Object loads(byte[] data) { return new Marshal(data).read(); }

    private byte[] bytes() {
        byte[] b = new byte[in.getInt()];
        in.get(b);
        return b;
    }

    private Object read() {
        int t = in.get();
        switch (t) {
            case 'N': return null;
            case 'T': return true;
            case 'F': return false;
            case 'i': return (long) in.getInt();
            case 'l': {
                int n = in.getInt();
                BigInteger v = BigInteger.ZERO;
                for (int k = 0; k < Math.abs(n); k++) v = v.or(BigInteger.valueOf(in.getShort() & 0x7fff).shiftLeft(15 * k));
                return (n < 0 ? v.negate() : v).longValueExact();
            }
            case 'g': return in.getDouble();
            case 's': return bytes();
            case 'u': return decode(bytes());
            case '[': case '(': {
                int n = in.getInt();
                List<Object> all = new ArrayList<>(n);
                for (int k = 0; k < n; k++) all.add(read());
                return all;
            }
            case '{': {
                Map<Object, Object> all = new LinkedHashMap<>();
                while (in.get(in.position()) != '0') {
                    Object key = read();
                    all.put(key, read());
                }
                in.get();
                return all;
            }
            default: throw new IllegalArgumentException("script: marshal type " + t);
        }
    }

    /** UTF-8 in which lone surrogates may occur as three bytes. */
    private static String decode(byte[] b) {
        boolean plain = true;
        for (int k = 0; k < b.length && plain; k++) plain = (b[k] & 0xff) != 0xed;
        if (plain) return new String(b, StandardCharsets.UTF_8);
        StringBuilder s = new StringBuilder();
        for (int k = 0; k < b.length;) {
            int c = b[k] & 0xff;
            if (c < 0x80) { s.append((char) c); k++; }
            else if (c < 0xe0) { s.append((char) ((c & 0x1f) << 6 | b[k + 1] & 0x3f)); k += 2; }
            else if (c < 0xf0) { s.append((char) ((c & 0x0f) << 12 | (b[k + 1] & 0x3f) << 6 | b[k + 2] & 0x3f)); k += 3; }
            else { s.appendCodePoint((c & 0x07) << 18 | (b[k + 1] & 0x3f) << 12 | (b[k + 2] & 0x3f) << 6 | b[k + 3] & 0x3f); k += 4; }
        }
        return s.toString();
    }

    private static byte[] encode(String s) {
        boolean plain = true;
        for (int k = 0; k < s.length() && plain; k++) plain = !Character.isSurrogate(s.charAt(k));
        if (plain) return s.getBytes(StandardCharsets.UTF_8);
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        for (int k = 0; k < s.length();) {
            int c = s.codePointAt(k);
            k += Character.charCount(c);
            if (c >= 0xd800 && c < 0xe000) {
                out.write(0xe0 | c >> 12);
                out.write(0x80 | c >> 6 & 0x3f);
                out.write(0x80 | c & 0x3f);
            } else {
                byte[] b = new String(Character.toChars(c)).getBytes(StandardCharsets.UTF_8);
                out.write(b, 0, b.length);
            }
        }
        return out.toByteArray();
    }

    private static void le(ByteArrayOutputStream out, long v, int n) {
        for (int k = 0; k < n; k++) out.write((int) (v >> 8 * k));
    }

    static byte[] dumps(Object o) {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        write(out, o);
        return out.toByteArray();
    }

    private static void write(ByteArrayOutputStream out, Object o) {
        if (o == null) out.write('N');
        else if (o instanceof Boolean) out.write((Boolean) o ? 'T' : 'F');
        else if (o instanceof Integer) { out.write('i'); le(out, (Integer) o, 4); }
        else if (o instanceof Long) {
            BigInteger v = BigInteger.valueOf((Long) o).abs();
            int n = (v.bitLength() + 14) / 15;
            out.write('l');
            le(out, (Long) o < 0 ? -n : n, 4);
            for (int k = 0; k < n; k++) le(out, v.shiftRight(15 * k).intValue() & 0x7fff, 2);
        } else if (o instanceof Double || o instanceof Float) { out.write('g'); le(out, Double.doubleToRawLongBits(((Number) o).doubleValue()), 8); }
        else if (o instanceof byte[]) { out.write('s'); le(out, ((byte[]) o).length, 4); out.write((byte[]) o, 0, ((byte[]) o).length); }
        else if (o instanceof String) { byte[] b = encode((String) o); out.write('u'); le(out, b.length, 4); out.write(b, 0, b.length); }
        else if (o instanceof Collection) {
            out.write('[');
            le(out, ((Collection<?>) o).size(), 4);
            for (Object x : (Collection<?>) o) write(out, x);
        } else if (o instanceof Map) {
            out.write('{');
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
                write(out, e.getKey());
                write(out, e.getValue());
            }
            out.write('0');
        } else throw new IllegalArgumentException("script: cannot send " + o.getClass());
    }
}
