import java.io.*;
import java.security.MessageDigest;
import java.util.*;
import se.lth.cs.docria.io.BoundaryReader;
import se.lth.cs.docria.io.BoundaryWriter;

/** Executes one line of operations after the other against the Java boundary streams. */
public class Driver {
    static byte at(int i) {
        int k = i / 3, r = i % 3;
        return (byte) (r == 0 ? k & 0xff : r == 1 ? (k >> 8) & 0xff : (k * 3 * 37 + 11) & 0xff);
    }

    static byte[] data(int start, int n) {
        byte[] out = new byte[n];
        for (int i = 0; i < n; i++)
            out[i] = at(start + i);
        return out;
    }

    /** Gives at most `most` bytes per call. */
    static class Short extends FilterInputStream {
        final int most;
        Short(InputStream in, int most) { super(in); this.most = most; }
        @Override public int read(byte[] b, int off, int len) throws IOException { return super.read(b, off, Math.min(len, most)); }
        @Override public long skip(long n) throws IOException { return super.skip(Math.min(n, most)); }
    }

    static String md5(byte[] b, int off, int n) throws Exception {
        MessageDigest d = MessageDigest.getInstance("MD5");
        d.update(b, off, n);
        StringBuilder s = new StringBuilder();
        for (byte x : d.digest())
            s.append(String.format("%02x", x));
        return s.toString();
    }

    static String hex(byte[] b) {
        StringBuilder s = new StringBuilder();
        for (byte x : b)
            s.append(String.format("%02x", x));
        return s.toString();
    }

    static byte[] write(String[] t) throws Exception {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        int boundary = Integer.parseInt(t[1]);
        BoundaryWriter w = boundary < 0 ? new BoundaryWriter(out) : new BoundaryWriter(out, boundary);
        int pos = 0;
        for (int k = 2; k < t.length; k++) {
            char c = t[k].charAt(0);
            int n = t[k].length() > 1 ? Integer.parseInt(t[k].substring(1)) : 0;
            if (c == 's') {
                w.split();
            } else if (c == 'f') {
                w.flush();
            } else if (c == 'b') {
                for (int i = 0; i < n; i++)
                    w.write(at(pos + i));
            } else if (c == 'h') {   // only the low eight bits of the argument count
                for (int i = 0; i < n; i++)
                    w.write((at(pos + i) & 0xff) | 0x5a00);
            } else if (c == 'w') {
                w.write(data(pos, n));
            } else if (c == 'o') {
                byte[] big = new byte[n + 9];
                Arrays.fill(big, (byte) 0xEE);
                System.arraycopy(data(pos, n), 0, big, 5, n);
                w.write(big, 5, n);
            }
            if (c != 's' && c != 'f')
                pos += n;
        }
        w.close();
        return out.toByteArray();
    }

    static String read(byte[] raw, String[] t) throws Exception {
        int most = Integer.parseInt(t[2]);
        InputStream in = new ByteArrayInputStream(raw);
        if (most > 0)
            in = new Short(in, most);
        BoundaryReader r = new BoundaryReader(in);
        StringBuilder out = new StringBuilder("R");
        for (int k = 3; k < t.length; k++) {
            char c = t[k].charAt(0);
            int n = t[k].length() > 1 ? Integer.parseInt(t[k].substring(1)) : 0;
            byte[] got = new byte[Math.max(n + 16, 16)];
            Arrays.fill(got, (byte) 0xA5);
            long count = 0;
            int off = 0;
            if (c == 'b') {
                for (int i = 0; i < n; i++) {
                    int v = r.read();
                    if (v < -1 || v > 255)
                        throw new IllegalStateException("read() gives " + v);
                    if (v < 0) {
                        if (count == 0)
                            count = -1;
                        break;
                    }
                    got[(int) count++] = (byte) v;
                }
            } else if (c == 'r') {
                byte[] exact = new byte[n];
                count = r.read(exact);
                System.arraycopy(exact, 0, got, 0, n);
            } else if (c == 'o') {
                off = 7;
                count = r.read(got, off, n);
                for (int i = 0; i < got.length; i++)
                    if ((i < off || i >= off + n) && got[i] != (byte) 0xA5)
                        throw new IllegalStateException("read(b, off, len) wrote outside its range");
            } else if (c == 'A') {
                got = r.readAllBytes();
                count = got.length;
            } else if (c == 'N') {
                got = r.readNBytes(n);
                count = got.length;
            } else if (c == 'k') {
                while (count < n) {
                    long s = r.skip(n - count);
                    if (s < 0 || s > n - count)
                        throw new IllegalStateException("skip(" + (n - count) + ") gives " + s);
                    if (s == 0)
                        break;
                    count += s;
                }
                out.append(" k").append(count);
                continue;
            } else if (c == 'a') {
                out.append(" a").append(r.available());
                continue;
            }
            out.append(' ').append(c).append(count).append(':').append(count > 0 ? md5(got, off, (int) count) : "");
        }
        r.close();
        return out.toString();
    }

    public static void main(String[] args) throws Exception {
        DataInputStream in = new DataInputStream(new BufferedInputStream(System.in, 1 << 16));
        PrintStream out = new PrintStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out), 1 << 16), false);
        byte[] raw = new byte[0];
        while (true) {
            StringBuilder line = new StringBuilder();
            int c;
            while ((c = in.read()) != '\n') {
                if (c < 0)
                    return;
                line.append((char) c);
            }
            String[] t = line.toString().split(" ");
            String answer;
            try {
                if (t[0].equals("W")) {
                    byte[] b = write(t);
                    answer = "W " + b.length + " " + md5(b, 0, b.length);
                } else if (t[0].equals("X")) {
                    answer = "X " + hex(write(t));
                } else if (t[0].equals("L")) {
                    raw = new byte[Integer.parseInt(t[1])];
                    in.readFully(raw);
                    answer = "L";
                } else if (t[0].equals("R")) {
                    answer = read(raw, t);
                } else if (t[0].equals("C")) {
                    answer = "C " + BoundaryReader.computeLength(Integer.parseInt(t[1]), Long.parseLong(t[2]), Long.parseLong(t[3]));
                } else if (t[0].equals("B")) {
                    answer = "B " + BoundaryReader.readBoundary(new ByteArrayInputStream(new byte[]{(byte) Integer.parseInt(t[1])}));
                } else {
                    answer = "E unknown request";
                }
            } catch (Throwable e) {
                answer = "E " + String.valueOf(e).replace('\n', ' ');
            }
            out.print(answer);
            out.print('\n');
            out.flush();
        }
    }
}
