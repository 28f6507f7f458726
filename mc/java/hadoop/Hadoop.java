import java.io.*;
import java.util.*;
import org.apache.hadoop.conf.Configuration;
import org.apache.hadoop.fs.FileSystem;
import org.apache.hadoop.io.*;
import org.apache.hadoop.mapreduce.*;
import org.msgpack.core.Hook;
import se.lth.cs.docria.*;
import se.lth.cs.docria.hadoop.*;
import se.lth.cs.docria.io.*;
import se.lth.cs.docria.values.*;

/** Jobs. */
class Hadoop {
    static int n(Object o) { return (int) (long) (Long) o; }

    static DocumentWritable again(DocumentWritable w, boolean java) throws Exception {
        ByteArrayOutputStream out = new ByteArrayOutputStream();
        if (java) {
            ObjectOutputStream o = new ObjectOutputStream(out);
            o.writeObject(w);
            o.close();
            return (DocumentWritable) new ObjectInputStream(new ByteArrayInputStream(out.toByteArray())).readObject();
        }
        w.write(new DataOutputStream(out));
        out.write(77);
        DocumentWritable x = new DocumentWritable();
        DataInputStream in = new DataInputStream(new ByteArrayInputStream(out.toByteArray()));
        x.readFields(in);
        if (in.read() != 77 || in.read() != -1) throw new IllegalStateException("the writable did not read what it wrote");
        return x;
    }

    static Document doc(byte[] data) { return MsgpackCodec.decode(data); }

    static Object dump(Document d) { return d == null ? null : ((Bridge.Raw) Helpers.dump(d)).value; }

    /** [documents, operations] -> results; one writable goes through the operations. */
    static Object writable(Bridge b, List<?> args) throws Exception {
        List<?> docs = (List<?>) args.get(0);
        DocumentWritable w = new DocumentWritable();
        List<Object> out = new ArrayList<>();
        for (Object o : (List<?>) args.get(1)) {
            List<?> op = (List<?>) o;
            Object r = null;
            try {
                switch ((String) op.get(0)) {
                    case "newDocument": w = new DocumentWritable(doc((byte[]) docs.get(n(op.get(1))))); break;
                    case "newBlob": w = new DocumentWritable((byte[]) docs.get(n(op.get(1)))); break;
                    case "setDocument": w.setDocument(doc((byte[]) docs.get(n(op.get(1))))); break;
                    case "setBlob": w.setMsgpackBlob((byte[]) docs.get(n(op.get(1)))); break;
                    case "edit": w.getDocument().props().put("edited", Values.get(n(op.get(1)))); break;
                    case "write": w = again(w, false); break;
                    case "serialize": w = again(w, true); break;
                    case "reread": {   // fields are read into a writable that held something else
                        ByteArrayOutputStream bytes = new ByteArrayOutputStream();
                        w.write(new DataOutputStream(bytes));
                        w = new DocumentWritable(doc((byte[]) docs.get(n(op.get(1)))));
                        w.readFields(new DataInputStream(new ByteArrayInputStream(bytes.toByteArray())));
                        break;
                    }
                    case "document": r = dump(w.getDocument()); break;
                    case "blob": {
                        byte[] blob = w.getMsgpackBlob();
                        r = blob == null ? null : dump(doc(blob));
                        break;
                    }
                    case "sections": r = dump(w.getMsgpackDocument().document()); break;
                    case "props": r = Lazy.properties(w.getMsgpackDocument().properties()); break;
                    default: throw new IllegalStateException("script: " + op);
                }
                out.add(Arrays.asList("v", r));
            } catch (RuntimeException | IOException e) {
                out.add(Arrays.asList("e", e.getClass().getSimpleName()));
            }
        }
        return Helpers.raw(out);
    }

    static TaskAttemptContext context(Map<?, ?> settings) {
        Configuration conf = new Configuration();
        settings.forEach((k, v) -> conf.set((String) k, String.valueOf(v)));
        return () -> conf;
    }

    /** [parts: [[document or blob, bytes]...]..., settings] -> {file: bytes}, streams left open */
    static Object output(Bridge b, List<?> args) throws Exception {
        FileSystem.FILES.clear();
        FileSystem.open = 0;
        int part = 0;
        for (Object p : (List<?>) args.get(0)) {
            Map<Object, Object> settings = new TreeMap<>((Map<?, ?>) args.get(1));
            settings.put("standin.part", part++);
            TaskAttemptContext context = context(settings);
            RecordWriter<DocumentWritable, NullWritable> w = new DocriaOutputFormat().getRecordWriter(context);
            for (Object x : (List<?>) p) {
                byte[] data = (byte[]) ((List<?>) x).get(1);
                w.write(((List<?>) x).get(0).equals("document") ? new DocumentWritable(doc(data)) : new DocumentWritable(data), NullWritable.get());
            }
            w.close(context);
            w.close(context);
        }
        Map<Object, Object> files = new TreeMap<>(FileSystem.FILES);
        return Helpers.raw(Arrays.asList(files, FileSystem.open));
    }

    /** [{file: bytes}, settings, most records to read] -> [[file, [document...], progress, what next said after the end]...], streams left open */
    static Object input(Bridge b, List<?> args) throws Exception {
        FileSystem.FILES.clear();
        FileSystem.open = 0;
        ((Map<?, ?>) args.get(0)).forEach((k, v) -> FileSystem.FILES.put((String) k, (byte[]) v));
        TaskAttemptContext context = context((Map<?, ?>) args.get(1));
        int most = n(args.get(2));
        boolean keep = (Boolean) args.get(3);
        DocriaInputFormat format = new DocriaInputFormat();
        List<Object> out = new ArrayList<>();
        for (InputSplit split : format.getSplits(context)) {
            RecordReader<DocumentWritable, NullWritable> r = format.createRecordReader(split, context);
            List<Object> docs = new ArrayList<>(), progress = new ArrayList<>();
            List<Document> kept = new ArrayList<>();
            String end = null;
            try {
                r.initialize(split, context);
                progress.add((double) r.getProgress());
                while (docs.size() + kept.size() < most && r.nextKeyValue()) {
                    if (keep) kept.add(r.getCurrentKey().getDocument());
                    else docs.add(dump(doc(r.getCurrentKey().getMsgpackBlob())));
                    if (r.getCurrentValue() != NullWritable.get()) throw new IllegalStateException("a value");
                    progress.add((double) r.getProgress());
                }
                if (docs.size() + kept.size() < most) end = r.nextKeyValue() ? "more" : r.nextKeyValue() ? "more" : "end";
                progress.add((double) r.getProgress());
            } catch (RuntimeException | IOError | IOException e) {
                end = "error";
            }
            r.close();
            r.close();
            for (Document d : kept) docs.add(dump(d));
            out.add(Arrays.asList(((org.apache.hadoop.mapreduce.lib.input.FileSplit) split).getPath().toString(), docs, progress, end));
        }
        return Helpers.raw(Arrays.asList(out, FileSystem.open));
    }

    /** [programs: [[bytes...]...], block size, preemptions] -> [schedules, decisions, [file, schedule]...] */
    static Object writers(Bridge b, List<?> args) throws Exception {
        List<?> programs = (List<?>) args.get(0);
        int size = n(args.get(1));
        return Helpers.raw(Sched.all(n(args.get(2)), () -> {
            ByteArrayOutputStream file = new ByteArrayOutputStream();
            DocriaWriter w = new DocriaWriter(new DocumentStreamWriter(file, size));
            List<Runnable> bodies = new ArrayList<>();
            List<Object> failures = Collections.synchronizedList(new ArrayList<>());
            for (Object p : programs) {
                bodies.add(() -> {
                    boolean first = true;
                    for (Object x : (List<?>) p) {
                        if (!first) Sched.point("call");
                        first = false;
                        try {
                            w.write(new DocumentWritable((byte[]) x), NullWritable.get());
                        } catch (Throwable e) {
                            failures.add(String.valueOf(e));
                        }
                    }
                });
            }
            return new Sched.Run(bodies, () -> {
                w.close(null);
                return Arrays.asList(file.toByteArray(), new ArrayList<>(failures));
            });
        }));
    }
}
