import java.io.*;
import java.lang.management.*;
import java.util.*;
import java.util.concurrent.Callable;
import java.util.concurrent.Semaphore;
import java.util.concurrent.locks.LockSupport;
import org.msgpack.core.Hook;
import se.lth.cs.docria.*;
import se.lth.cs.docria.io.*;

/** All interleavings, up to a number of preemptions, of threads that use one reader; threads are switched at every call into the msgpack stand-in and the codec. */
class Sched {
    static final ThreadMXBean MX = ManagementFactory.getThreadMXBean();

    final Worker[] workers;
    final Thread main = Thread.currentThread();

    class Worker extends Thread {
        final Semaphore go = new Semaphore(0);
        volatile int state = 0;   // 0 running, 1 waits for its turn, 2 finished
        final Runnable body;

        Worker(Runnable body) {
            this.body = body;
            setDaemon(true);
        }

        void park() {
            state = 1;
            LockSupport.unpark(main);
            go.acquireUninterruptibly();
        }

        @Override public void run() {
            try {
                park();
                body.run();
            } finally {
                state = 2;
                LockSupport.unpark(main);
            }
        }
    }

    static void point(String what) {
        Thread t = Thread.currentThread();
        if (t instanceof Worker) ((Worker) t).park();
    }

    Sched(List<Runnable> bodies) {
        workers = new Worker[bodies.size()];
        for (int k = 0; k < workers.length; k++) workers[k] = new Worker(bodies.get(k));
    }

    /** Whether a worker that is neither parked nor finished waits for something another, parked worker has. */
    boolean blocked(Worker w) {
        Thread.State s = w.getState();
        if (s == Thread.State.BLOCKED || s == Thread.State.WAITING || s == Thread.State.TIMED_WAITING) {
            ThreadInfo i = MX.getThreadInfo(w.getId());
            if (i == null || w.state != 0) return false;
            long owner = i.getLockOwnerId();
            for (Worker o : workers)
                if (o != w && o.getId() == owner) return o.state == 1 || o.state == 0 && waits(o, new HashSet<>(Collections.singleton(w)));
        }
        return false;
    }

    boolean waits(Worker w, Set<Worker> seen) {
        if (!seen.add(w)) return true;
        ThreadInfo i = MX.getThreadInfo(w.getId());
        if (i == null) return false;
        for (Worker o : workers)
            if (o != w && o.getId() == i.getLockOwnerId()) return o.state == 1 || o.state == 0 && waits(o, seen);
        return false;
    }

    void settle() {
        long start = System.nanoTime();
        for (Worker w : workers) {
            int spins = 0;
            while (w.state == 0 && !blocked(w)) {
                if (++spins < 200) Thread.onSpinWait();
                else LockSupport.parkNanos(20_000);
                if (System.nanoTime() - start > 60_000_000_000L) throw new IllegalStateException("a thread neither finished nor waits for another one: " + w.getState());
            }
        }
        for (Worker w : workers) if (w.state == 0 && !blocked(w)) { settle(); return; }
    }

    static final class Choice {
        int[] options;
        int at;
        int preemptions;   // before this choice
        boolean free;      // whether leaving the first option costs nothing
    }

    /** Runs one schedule: the given choices, then always the first option.  Extends the list of choices; tells the number of preemptions used. */
    boolean run(List<Choice> choices) {
        for (Worker w : workers) w.start();
        int last = -1, preemptions = 0, step = 0;
        while (true) {
            settle();
            List<Integer> enabled = new ArrayList<>();
            boolean live = false, lastEnabled = last >= 0 && workers[last].state == 1;   // staying with it is no preemption
            if (lastEnabled) enabled.add(last);
            for (int k = 0; k < workers.length; k++) {
                live |= workers[k].state != 2;
                if (workers[k].state == 1 && k != last) enabled.add(k);
            }
            if (!live) return true;
            // While a thread waits for a lock, only those go on that have what others wait for: which of two waiting threads gets a lock is not ours to choose.
            Set<Long> owners = new HashSet<>();
            for (Worker w : workers)
                if (w.state == 0) {
                    ThreadInfo i = MX.getThreadInfo(w.getId());
                    if (i != null) owners.add(i.getLockOwnerId());
                }
            if (!owners.isEmpty()) enabled.removeIf(k -> !owners.contains(workers[k].getId()));
            if (enabled.isEmpty()) return false;
            lastEnabled &= enabled.get(0) == last;
            int[] options = enabled.stream().mapToInt(x -> x).toArray();
            Choice c;
            if (step < choices.size()) {
                c = choices.get(step);
                if (!Arrays.equals(c.options, options)) throw new IllegalStateException("schedules diverge: " + Arrays.toString(c.options) + " was " + Arrays.toString(options));
            } else {
                c = new Choice();
                c.options = options;
                c.preemptions = preemptions;
                c.free = !lastEnabled;
                choices.add(c);
            }
            if (c.at > 0 && !c.free) preemptions++;
            last = options[c.at];
            step++;
            workers[last].state = 0;
            workers[last].go.release();
        }
    }

    static final class Run {
        final List<Runnable> bodies;
        final Callable<Object> outcome;   // once all threads are done

        Run(List<Runnable> bodies, Callable<Object> outcome) {
            this.bodies = bodies;
            this.outcome = outcome;
        }
    }

    /** All schedules of what make makes -> [schedules, decisions, [outcome, schedule]...]; each outcome once. */
    static Object all(int bound, Callable<Run> make) throws Exception { return all(bound, make, false); }

    static Object all(int bound, Callable<Run> make, boolean fine) throws Exception {
        List<Choice> choices = new ArrayList<>();
        Map<String, Object> outcomes = new LinkedHashMap<>();
        int schedules = 0, decisions = 0;
        Hook.point = Sched::point;
        Hook.fine = fine ? Sched::point : null;
        try {
            while (true) {
                Run run = make.call();
                boolean done = new Sched(run.bodies).run(choices);
                schedules++;
                decisions += choices.size();
                Object outcome = done ? run.outcome.call() : "deadlock";
                String key = Arrays.toString(Marshal.dumps(outcome));
                if (!outcomes.containsKey(key)) {
                    List<Object> schedule = new ArrayList<>();
                    for (Choice c : choices) schedule.add(c.options[c.at]);
                    outcomes.put(key, Arrays.asList(outcome, schedule));
                    if (!done || outcomes.size() > 200) break;
                }
                // the next schedule
                while (!choices.isEmpty()) {
                    Choice c = choices.get(choices.size() - 1);
                    if (c.at + 1 < c.options.length && (c.free || c.preemptions < bound)) {
                        c.at++;
                        break;
                    }
                    choices.remove(choices.size() - 1);
                }
                if (choices.isEmpty()) break;
            }
        } finally {
            Hook.point = Hook.fine = null;
        }
        return Arrays.asList(schedules, decisions, new ArrayList<>(outcomes.values()));
    }

    /** [file, reader kind, framed, codec or null, programs, preemptions] */
    static Object explore(Bridge b, List<?> args) throws Exception {
        byte[] file = (byte[]) args.get(0);
        int kind = (int) (long) (Long) args.get(1);
        boolean framed = (Boolean) args.get(2);
        String codec = (String) args.get(3);
        List<?> programs = (List<?>) args.get(4);
        return Helpers.raw(all((int) (long) (Long) args.get(5), () -> {
            InputStream in = new ByteArrayInputStream(file);
            Files.Reader r = Files.reader(kind, framed ? new BoundaryReader(in) : in, codec, Sched::point);
            List<List<Object>> results = new ArrayList<>();
            List<Runnable> bodies = new ArrayList<>();
            for (Object p : programs) {
                List<Object> mine = new ArrayList<>();
                results.add(mine);
                bodies.add(() -> {
                    for (Object op : (List<?>) p) {
                        if (!mine.isEmpty()) point("call");
                        try {
                            mine.add(Arrays.asList("v", op.equals("S") ? r.skipBlock() : Files.block(r.nextBlock())));
                        } catch (Throwable e) {
                            mine.add(Files.failure(e));
                        }
                    }
                });
            }
            return new Run(bodies, () -> results);
        }));
    }

    static Object plain(Object o) { return o instanceof Bridge.Raw ? ((Bridge.Raw) o).value : o; }

    /** What a thread does with objects of its own; made before the threads start. */
    static Callable<Object> own(List<?> job) throws Exception {
        String op = (String) job.get(0);
        byte[] data = (byte[]) job.get(1);
        switch (op) {
            case "encode": {
                Document doc = MsgpackCodec.decode(data);
                return () -> MsgpackCodec.encode(doc).toByteArray();
            }
            case "decode": return () -> plain(Helpers.dump(MsgpackCodec.decode(data)));
            case "lazy": return () -> {
                MsgpackDocument d = new MsgpackDocument(data);
                List<Object> out = new ArrayList<>();
                for (char q : Lazy.QUERIES.toCharArray()) out.add(plain(Lazy.ask(d, q)));
                return out;
            };
            case "write": case "framed": {
                List<Document> docs = new ArrayList<>();
                for (int k = 2; k < job.size(); k++) docs.add(MsgpackCodec.decode((byte[]) job.get(k)));
                return () -> {
                    ByteArrayOutputStream out = new ByteArrayOutputStream();
                    DocumentStreamWriter w = op.equals("write") ? new DocumentStreamWriter(out, 2) : new DocumentStreamBoundaryWriter(out, 1);
                    for (Document d : docs) w.write(d);
                    w.close();
                    return out.toByteArray();
                };
            }
            case "read": case "unframe": return () -> {
                List<Object> out = new ArrayList<>();
                InputStream raw = new FilterInputStream(new ByteArrayInputStream(data)) {
                    @Override public int read(byte[] to, int off, int n) throws IOException {
                        point("read");
                        return super.read(to, off, n);
                    }
                };
                Files.Reader r = Files.reader(job.size() % 2, op.equals("read") ? raw : new BoundaryReader(raw), null, Sched::point);
                for (Object x = r.next(); x != null; x = r.next()) out.add(plain(Files.ident(x)));
                return out;
            };
            default: throw new IllegalArgumentException("script: " + op);
        }
    }

    /** [job, ..., preemptions]: threads with objects of their own */
    static Object independent(Bridge b, List<?> args) throws Exception {
        List<?> jobs = args.subList(0, args.size() - 1);
        return Helpers.raw(all((int) (long) (Long) args.get(jobs.size()), () -> {
            List<Object> results = new ArrayList<>();
            List<Runnable> bodies = new ArrayList<>();
            for (Object job : jobs) {
                int me = bodies.size();
                results.add(null);
                Callable<Object> body = own((List<?>) job);
                bodies.add(() -> {
                    Object got;
                    try {
                        got = Arrays.asList("v", body.call());
                    } catch (Throwable e) {
                        got = Files.failure(e);
                    }
                    results.set(me, got);
                });
            }
            return new Run(bodies, () -> results);
        }, true));
    }

    /** One of two threads, of which one runs at a time; points are counted, and after some number of them the other runs to its end. */
    static final class Turn extends Thread {
        static long patience = 3000;
        final Callable<Object> body;
        final Semaphore go = new Semaphore(0), ended = new Semaphore(0);
        Turn other;
        long points, until = -1;
        Object result;

        Turn(Callable<Object> body) {
            this.body = body;
            setDaemon(true);
        }

        void pass() {
            if (points++ != until) return;
            Hook.lines = Hook.parts = null;   // nothing is switched any more
            other.go.release();
            try {
                // An other that does not end waits for this one (a lock): such a schedule cannot be, both go on
                if (!other.ended.tryAcquire(patience, java.util.concurrent.TimeUnit.MILLISECONDS)) patience = Math.max(5, patience * 4 / 5);
                else other.ended.release();
            } catch (InterruptedException e) {
                throw new IllegalStateException(e);
            }
        }

        @Override public void run() {
            go.acquireUninterruptibly();
            try {
                result = Arrays.asList("v", body.call());
            } catch (Throwable e) {
                result = Files.failure(e);
            } finally {
                ended.release();
            }
        }
    }

    static void turn() {
        Thread t = Thread.currentThread();
        if (t instanceof Turn) ((Turn) t).pass();
    }

    /** Both jobs, the second within the first after so many points -> [result, result, points of the first] */
    static List<Object> within(Object first, Object second, boolean parts, long until) throws Exception {
        Turn a = new Turn(own((List<?>) first)), b = new Turn(own((List<?>) second));
        a.other = b;
        a.until = until;
        a.start();
        b.start();
        Hook.lines = Sched::turn;
        Hook.parts = parts ? Sched::turn : null;
        try {
            a.go.release();
            a.join();
            Hook.lines = Hook.parts = null;
            b.go.release();
            b.join();
        } finally {
            Hook.lines = Hook.parts = null;
        }
        return Arrays.asList(a.result, b.result, a.points);
    }

    /** [first, second, parts, every, offset] -> [[what each job gives alone], points of the first, schedules, [[results, until]...] of those that differ] */
    static Object interrupt(Bridge b, List<?> args) throws Exception {
        Object first = args.get(0), second = args.get(1);
        boolean parts = (Boolean) args.get(2);
        List<Object> alone = null;
        for (int i = 0; i < 2; i++) {   // twice: classes are loaded
            alone = within(first, second, parts, -1);
        }
        long points = (Long) alone.get(2), schedules = 0;
        String want = Arrays.toString(Marshal.dumps(alone.subList(0, 2)));
        List<Object> different = new ArrayList<>();
        for (long k = (Long) args.get(4); k < points && different.size() < 3; k += (Long) args.get(3)) {
            List<Object> got = within(first, second, parts, k);
            schedules++;
            if (!Arrays.toString(Marshal.dumps(got.subList(0, 2))).equals(want)) different.add(Arrays.asList(got.get(0), got.get(1), k));
        }
        return Helpers.raw(Arrays.asList(alone.subList(0, 2), points, schedules, different));
    }
}
