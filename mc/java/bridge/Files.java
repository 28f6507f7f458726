import java.io.*;
import java.util.*;
import java.util.function.Function;
import java.util.stream.*;
import se.lth.cs.docria.*;
import se.lth.cs.docria.io.*;

/** Histories of calls on the document file readers and writers, and what each call gave. */
class Files {
    /** An input stream that returns at most n bytes per request. */
    static InputStream chunked(byte[] data, int n) {
        ByteArrayInputStream in = new ByteArrayInputStream(data);
        if (n == 0) return in;
        return new InputStream() {
            @Override public int read() { return in.read(); }
            @Override public int read(byte[] b, int off, int len) { return in.read(b, off, Math.min(len, n)); }
            @Override public int available() { return Math.min(n, in.available()); }
        };
    }

    static Function<byte[], byte[]> codec(String name) {
        switch (name) {
            case "none": return x -> x;
            case "zip": return DeflateCodec::decompress;
            case "zipsq": return x -> DeflateCodec.decompress(DeflateCodec.decompress(x));
            case "reverse": return x -> {
                byte[] y = new byte[x.length];
                for (int i = 0; i < x.length; i++) y[i] = x[x.length - 1 - i];
                return y;
            };
            default: throw new IllegalArgumentException("script: codec " + name);
        }
    }

    static Object failure(Throwable e) { return Arrays.asList("e", e.getClass().getSimpleName() + ": " + e.getMessage()); }

    static Object ident(Object doc) {
        if (doc == null) return null;
        if (doc instanceof byte[]) return doc;
        if (doc instanceof MsgpackDocument) return ((MsgpackDocument) doc).data();
        Map<Object, Object> out = new TreeMap<>();
        Document d = (Document) doc;
        d.props().forEach((k, v) -> out.put(k, v.stringValue()));
        return out;
    }

    /** The reading interface the two readers share. */
    interface Reader {
        Object next();
        Object nextRaw();
        Stream<?> nextBlock();
        boolean skip();
        long skip(long n);
        boolean skipBlock();
        long count();
        long position();
        void close();
    }

    static Reader reader(int kind, InputStream in, String codec) {
        return reader(kind, in, codec, null);
    }

    static Reader reader(int kind, InputStream in, String codecName, java.util.function.Consumer<String> point) {
        Function<byte[], byte[]> codec = codecName == null ? null : point == null ? codec(codecName) : x -> {
            point.accept("codec");
            return codec(codecName).apply(x);
        };
        if (kind == 0) {
            DocumentStreamReader r = codec == null ? new DocumentStreamReader(in) : new DocumentStreamReader(in, codec);
            return new Reader() {
                public Object next() { return r.next(); }
                public Object nextRaw() { return r.nextRaw(); }
                public Stream<?> nextBlock() { return r.nextBlock(); }
                public boolean skip() { return r.skip(); }
                public long skip(long n) { return r.skip(n); }
                public boolean skipBlock() { return r.skipBlock(); }
                public long count() { return r.count(); }
                public long position() { return -1; }
                public void close() { r.close(); }
            };
        }
        MsgpackDocumentStreamReader r = codec == null ? new MsgpackDocumentStreamReader(in) : new MsgpackDocumentStreamReader(in, codec);
        return new Reader() {
            public Object next() { return r.next(); }
            public Object nextRaw() { return r.next(); }
            public Stream<?> nextBlock() { return r.nextBlock(); }
            public boolean skip() { return r.skip(); }
            public long skip(long n) { return r.skip(n); }
            public boolean skipBlock() { return r.skipBlock(); }
            public long count() { return r.count(); }
            public long position() { return r.position(); }
            public void close() { r.close(); }
        };
    }

    static Object block(Stream<?> s) {
        return s == null ? null : s.map(Files::ident).collect(Collectors.toList());
    }

    /** [file, reader kind, framed, request size, codec or null, calls, whether blocks are read at the end] -> outcome of opening and of each call. */
    static Object readHistory(Bridge b, List<?> args) {
        byte[] file = (byte[]) args.get(0);
        int kind = (int) (long) (Long) args.get(1);
        boolean framed = (Boolean) args.get(2);
        InputStream in = chunked(file, (int) (long) (Long) args.get(3));
        List<Object> out = new ArrayList<>();
        Reader r;
        try {
            r = reader(kind, framed ? new BoundaryReader(in) : in, (String) args.get(4));
            out.add(Arrays.asList("v", r.position()));
        } catch (Throwable e) {
            out.add(failure(e));
            return Helpers.raw(out);
        }
        boolean late = (Boolean) args.get(6);
        List<Integer> where = new ArrayList<>();
        List<Stream<?>> streams = new ArrayList<>();
        for (Object o : (List<?>) args.get(5)) {
            List<?> op = (List<?>) o;
            try {
                Object got;
                switch ((String) op.get(0)) {
                    case "next": got = ident(r.next()); break;
                    case "nextRaw": got = ident(r.nextRaw()); break;
                    case "skip": got = r.skip(); break;
                    case "skipn": got = r.skip((long) (Long) op.get(1)); break;
                    case "skipBlock": got = r.skipBlock(); break;
                    case "count": got = r.count(); break;
                    case "nextBlock": {
                        Stream<?> s = r.nextBlock();
                        if (late && s != null) {
                            where.add(out.size());
                            streams.add(s);
                            got = null;
                        } else got = block(s);
                        break;
                    }
                    case "close": r.close(); got = null; break;
                    default: throw new IllegalArgumentException("script: " + op);
                }
                out.add(Arrays.asList("v", got, r.position()));
            } catch (Throwable e) {
                out.add(failure(e));
            }
        }
        for (int k = where.size() - 1; k >= 0; k--) {     // the last block first
            Object got;
            try {
                got = Arrays.asList("v", block(streams.get(k)), ((List<?>) out.get(where.get(k))).get(2));
            } catch (Throwable e) {
                got = failure(e);
            }
            out.set(where.get(k), got);
        }
        return Helpers.raw(out);
    }

    /** [framed boundary or 0, documents per block or 0, codec, calls] -> file after every call. */
    static Object writeHistory(Bridge b, List<?> args) throws IOException {
        int boundary = (int) (long) (Long) args.get(0), per = (int) (long) (Long) args.get(1);
        String name = (String) args.get(2);
        final boolean[] closed = {false};
        ByteArrayOutputStream file = new ByteArrayOutputStream() {
            @Override public void close() { closed[0] = true; }
        };
        DocumentStreamWriter.Codec codec = name == null ? null : DocumentStreamWriter.Codec.valueOf(name);
        DocumentStreamWriter w;
        if (boundary == 0)
            w = per == 0 && codec == null ? new DocumentStreamWriter(file) : per == 0 ? new DocumentStreamWriter(file, codec) : codec == null ? new DocumentStreamWriter(file, per)
                    : new DocumentStreamWriter(file, per, codec);
        else if (boundary < 0)
            w = per == 0 && codec == null ? new DocumentStreamBoundaryWriter(file) : per == 0 ? new DocumentStreamBoundaryWriter(file, codec)
                    : codec == null ? new DocumentStreamBoundaryWriter(file, per) : new DocumentStreamBoundaryWriter(file, per, codec);
        else
            w = per == 0 && codec == null ? new DocumentStreamBoundaryWriter(boundary, file) : per == 0 ? new DocumentStreamBoundaryWriter(boundary, file, codec)
                    : codec == null ? new DocumentStreamBoundaryWriter(boundary, file, per) : new DocumentStreamBoundaryWriter(boundary, file, per, codec);
        List<Object> out = new ArrayList<>();
        for (Object o : (List<?>) args.get(3)) {
            List<?> op = (List<?>) o;
            switch ((String) op.get(0)) {
                case "raw": w.write((byte[]) op.get(1)); break;
                case "doc": w.write(MsgpackCodec.decode((byte[]) op.get(1))); break;
                case "flush": w.flush(); break;
                case "close": w.close(); break;
                default: throw new IllegalArgumentException("script: " + op);
            }
            out.add(Arrays.asList(file.toByteArray(), closed[0]));
        }
        return Helpers.raw(out);
    }
}
