"""C41: threads that work on their own documents do not disturb each other."""
import io
import sys
import threading
from mc import core, coll, docs, java, points
from mc.core import ensure, same

LEVEL = "model_checking"
RULE = "two real threads, each with its own objects, under a scheduler that lets one run at a time and switches at chosen points of docria's code: every " \
       "pair of operations x every point at which the first is interrupted by all of the second (statements and, for some pairs, single expressions), and " \
       "every pair of switching points for some pairs; oracle: the result of each operation alone; in Java, all schedules up to a number of preemptions.  states: cases of up to 64 schedules, transitions: points passed"
DEADLINE = {"quick": 420, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS + ["threads switch between statements, or calls, attributes and items, of docria's own code, not within library calls (which hold the interpreter lock or have no shared objects); Java threads at calls into msgpack and reads of the file"]


# -- operations: each makes its own objects, and gives plain data

def sample(k):
    """Document k: texts, spans, references, several layers, a gap; different in content, alike in names."""
    from docria.model import Document, DataTypes as T, NodeSpan
    doc = Document(id="d%d" % k, n=k)
    text = doc.add_text("main", "ab%d cd\U0001F600 ef%d" % (k, k + 10))
    tok = doc.add_layer("tok", text=text.spantype, v=T.int32(7 + k), head=T.noderef("tok"))
    ent = doc.add_layer("ent", toks=T.noderef_many("tok"), span=T.nodespan("tok"), text=text.spantype, w=T.string(None))
    nodes = [tok.add(text=text[i:i + 1 + (i + k) % 3], v=i * (k + 1)) for i in range(4)]
    nodes[2]["head"] = nodes[k % 2]
    gone = tok.add(v=99)
    last = tok.add(text=text[6:8])
    tok.remove(gone)
    ent.add(toks=[nodes[k % 3], last], span=NodeSpan(nodes[k % 2], nodes[2]), text=text[0:5 + k], w="w%d" % k)
    ent.add(toks=[nodes[3]], text=text[2:7])
    return doc


_CACHE = {}


def cached(name, k, make):
    if (name, k) not in _CACHE:
        _CACHE[name, k] = make()
    return _CACHE[name, k]


def raw(k):
    from docria.codec import MsgpackCodec
    return cached("raw", k, lambda: MsgpackCodec.encode(sample(k)))


def jsondata(k):
    from docria.codec import JsonCodec
    return cached("json", k, lambda: JsonCodec.encode(sample(k)))


def stored(k, framed=False):
    def make():
        from docria.collection import MsgpackDocumentWriter, _BoundaryWriter
        out = coll.Keep()
        with MsgpackDocumentWriter(_BoundaryWriter(out, boundary=12) if framed else out, num_docs_per_block=2, codec=coll.codec("zip")) as w:
            for i in range(3):
                w.write(coll.make(i + k, 2000 if framed else 0))
        return out.getvalue()
    return cached("framed" if framed else "stored", k, make)


_SHARED = []


def fixed(k):
    """A document made before the threads start, or the one they share."""
    return _SHARED[0] if _SHARED else sample(k)


def op_build(k):
    return lambda: docs.observed(sample(k))


def op_encode(k):
    doc = fixed(k)

    def run():
        from docria.codec import MsgpackCodec
        return MsgpackCodec.encode(doc)
    return run


def op_decode(k):
    data = raw(k)

    def run():
        from docria.codec import MsgpackCodec
        return docs.observed(MsgpackCodec.decode(data))
    return run


def op_lazy(k):
    data = raw(k)

    def run():
        from docria.codec import MsgpackDocument
        d = MsgpackDocument(data)
        return d.properties(), sorted(d.schema().layers) if hasattr(d.schema(), "layers") else None, [str(t) for t in d.texts().values()], docs.observed(d.document())
    return run


def op_json(k):
    doc = fixed(k)

    def run():
        from docria.codec import JsonCodec
        return JsonCodec.encode(doc)
    return run


def op_unjson(k):
    data = jsondata(k)

    def run():
        from docria.codec import JsonCodec
        return docs.observed(JsonCodec.decode(data))
    return run


def op_xml(k):
    doc = fixed(k)

    def run():
        from docria.codec import XmlCodec
        return XmlCodec.encode_utf8string(doc, verbose=True)
    return run


def op_render(k):
    doc = fixed(k)
    return lambda: (str(doc["tok"]), doc["ent"]._repr_html_(), repr(doc), str(doc["tok"][0]))


def op_query(k):
    doc = fixed(k)

    def run():
        tok = doc["tok"]
        q = tok[(tok["v"] > k) & ~tok["text"].is_none() | tok["v"].is_any(0, 3)]
        return [n["v"] for n in q], list(q["v"]), [n.i for n in tok[tok["text"].covered_by(0, 4)]]
    return run


def op_edit(k):
    doc = fixed(k)

    def run():
        tok = doc["tok"]
        tok.remove(tok[1])
        a = tok.add(v=50 + k)
        tok.sort(lambda n: -n["v"])

        doc.add_layer("new", x=__import__("docria.model").model.DataTypes.int32(k)).add()
        return docs.observed(doc), a.i, [str(s) for s in tok["text"]]
    return run


def op_algorithms(k):
    doc = fixed(k)

    def run():
        from docria.algorithm import group_by_span, bfs, dfs, dominant_right
        tok, ent = doc["tok"], doc["ent"]
        groups = [(g.i, [n.i for n in m["tok"]]) for g, m in group_by_span(ent, {"tok": tok})]
        walk = [n.i for n in dfs(tok[2], lambda n: [n["head"]] if "head" in n else [])]
        dom = dominant_right([(0, 3, "a%d" % k), (2, 5 + k, "b"), (7, 8, "c")])
        return groups, walk, dom
    return run


def op_write(k):
    ds = [coll.make(i + k) for i in range(3)]

    def run():
        from docria.collection import MsgpackDocumentWriter
        out = coll.Keep()
        with MsgpackDocumentWriter(out, num_docs_per_block=2, codec=coll.codec("zip")) as w:
            for d in ds:
                w.write(d)
        return out.getvalue()
    return run


def op_read(k):
    data = stored(k)

    def run():
        from docria.collection import MsgpackDocumentReader
        r = MsgpackDocumentReader(io.BytesIO(data))
        got = list(r)
        return [bytes(d.binary()) for d in got], [d.properties() for d in got], bytes(r.get(got[1].ref).binary())
    return run


def op_framed(k):
    data = stored(k, True)

    def run():
        from docria.collection import MsgpackDocumentReader, _BoundaryReader, MsgpackDocumentWriter, _BoundaryWriter
        r = MsgpackDocumentReader(_BoundaryReader(io.BytesIO(data)))
        got = [d for b in r.blocks() for d in b]
        out = coll.Keep()
        with MsgpackDocumentWriter(_BoundaryWriter(out, boundary=12), num_docs_per_block=1, codec=coll.codec("none")) as w:
            for d in got:
                w.write(d)
        return [d.ref for d in got], out.getvalue()
    return run


def op_observe(k):
    doc = fixed(k)
    return lambda: docs.observed(doc)


def op_pickle(k):
    doc = fixed(k)

    def run():
        import pickle
        return docs.observed(pickle.loads(pickle.dumps(doc)))
    return run


def op_walks(k):
    doc = fixed(k)

    def run():
        from docria import algorithm as a
        tok, ent = doc["tok"], doc["ent"]
        start = ent[0]

        def down(n):
            if "toks" in n:
                yield from n["toks"]
            if "head" in n:
                yield n["head"]
        seen = set()

        def once(n):
            for c in down(n):
                if id(c) not in seen:
                    seen.add(id(c))
                    yield c
        walks = []
        for walk in (a.bfs, a.dfs, a.dfs_leaves):
            seen.clear()
            walks.append([n.i if hasattr(n, "i") else [x.i if hasattr(x, "i") else x for x in n] for n in walk(start, once)])
        kids = [[n.i for n in a.children_of(ent, "toks")(e)] for e in ent] + [[n.i for n in a.children_of(tok, "head")(e)] for e in tok]
        dom = [n.i for n in a.dominant_right_span(tok)]
        spans = [str(x) for x in a.sequence_to_textspans(["ab%d" % k, "cd", "ef"], doc.text["main"])]
        return walks, kids, dom, spans, a.chain(a.get_prop("v", 0), lambda v: v + k)(tok[0])
    return run


def op_columns(k):
    doc = fixed(k)

    def run():
        tok, ent = doc["tok"], doc["ent"]
        part = ent[0]["span"]
        nodes = tok[0:3]
        return list(tok["v"]), [str(x) for x in nodes["text"]], list(nodes["v"]), [n["v"] for n in reversed(tok)], [n.i for n in part], len(part), part.text(), \
            [n["v"] for n in tok if n in part], tok.first().i, tok.last().i, [n.i for n in part.left.iter_span(part.right)], str(part), [str(e["span"]) for e in ent if "span" in e]
    return run


def op_codecs(k):
    ds = [coll.make(i + k) for i in range(2)]

    def run():
        from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader
        outs = []
        for name in coll.codecs():
            out = coll.Keep()
            with MsgpackDocumentWriter(out, num_docs_per_block=1, codec=coll.codec(name)) as w:
                for d in ds:
                    w.write(d)
            outs.append([bytes(d.binary()) for d in MsgpackDocumentReader(io.BytesIO(out.getvalue()))])
        return outs
    return run


def op_tar(k):
    ds = [coll.make(i + k) for i in range(2)]
    path = coll.scratch_file("c41-%d.tar" % k)

    def run():
        from docria.collection import TarMsgpackWriter, TarMsgpackReader
        with TarMsgpackWriter(path, mode="w|", rootdir="r%d" % k) as w:
            for d in ds:
                w.write(d)
        with TarMsgpackReader(path, mode="r|") as r:
            return [bytes(d.binary()) for d in r]
    return run


def op_index(k):
    path = coll.scratch_file("c41-%d.docria" % k)
    with open(path, "wb") as f:
        f.write(stored(k))

    def run():
        from docria.collection import build_msgpack_fileindex
        i = build_msgpack_fileindex(path, "id", "key")
        return i.properties, i.docrefs, [docs.observed(d) for d in i.search({"key": "k%d" % ((k + 1) % 3)})], [bytes(d.binary()) for d in i.search({"id": k + 2}, lazy=True)]
    return run


def op_refuse(k):
    """What is refused, and how the object looks after it."""
    doc = fixed(k)

    def run():
        from docria.model import Node
        from docria.codec import MsgpackCodec
        out = []
        tok = doc["tok"]
        for bad in (lambda: tok.add(text=5), lambda: tok.add(nothing=k), lambda: tok.add(head=Node(v=k)), lambda: doc.add_text("main", "x"), lambda: doc.add_layer("tok"),
                    lambda: MsgpackCodec.decode(raw(k)[:40 + k]), lambda: tok[99], lambda: tok["no"]):
            try:
                n = bad()
                out.append("accepted")
                tok.remove(n)
            except Exception as e:
                out.append(type(e).__name__)
        return out, docs.observed(doc)
    return run


OPS = ["build", "encode", "decode", "lazy", "json", "unjson", "xml", "render", "query", "edit", "algorithms", "write", "read", "framed", "pickle", "walks", "columns", "codecs", "tar", "index", "refuse"]
READS = ["encode", "json", "xml", "render", "query", "algorithms", "pickle", "observe", "walks", "columns"]


# -- the scheduler

class Scheduler:
    """Runs two functions in two threads, one at a time.  plan: (thread, points) - that thread runs so many points, then the next of the plan; what is left
    after the plan runs to the end, the first thread first."""
    wait = 3

    def __init__(self, fns, plan, fine):
        self.fns, self.fine = fns, fine
        self.go = [threading.Lock(), threading.Lock()]
        for lock in self.go:
            lock.acquire()
        self.result, self.points, self.done = [None, None], [0, 0], [False, False]
        self.plan, self.trail = list(plan), None
        self.running, self.left = None, None

    def next_turn(self):
        """Whose turn it is, by the plan, and for how long."""
        while self.plan:
            t, n = self.plan.pop(0)
            if not self.done[t]:
                return t, n
        for t in (0, 1):
            if not self.done[t]:
                return t, None
        return None, None

    def hand_over(self, t, n):
        if n is None and not self.plan and self.trail is None:
            points.SCHEDULER = None   # nothing is switched any more: no need to look
        self.running, self.left = t, n
        self.go[t].release()

    def point(self, site):
        me = self.running
        self.points[me] += 1
        if self.trail is not None:
            self.trail.append(site)
        if self.left is None:
            return
        if self.left == 0:
            t, n = self.next_turn()
            if t == me:
                self.left = n
            else:
                self.hand_over(t, n)
                if not self.go[me].acquire(timeout=Scheduler.wait):
                    # the other waits for this one (a lock): such a schedule cannot be, both go on freely
                    Scheduler.wait = max(.01, Scheduler.wait * .8)
                    points.SCHEDULER = None
                    return
        if self.left is not None:
            self.left -= 1

    def body(self, me):
        self.go[me].acquire()
        try:
            self.result[me] = ("gives", self.fns[me]())
        except BaseException as e:
            self.result[me] = ("raises", "%s: %s" % (type(e).__name__, e))
        self.done[me] = True
        t, n = self.next_turn()
        if t is not None:
            self.hand_over(t, n)

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)   # only hands over faster: one thread waits for the other at all times
        try:
            for t in ts:
                t.start()
            points.SCHEDULER = self
            self.hand_over(*self.next_turn())
            for t in ts:
                t.join()
        finally:
            points.SCHEDULER = None
            sys.setswitchinterval(interval)
        return self.result


_ALONE = {}


def share():
    """A fresh document that both threads read: decoded, so without gaps."""
    from docria.codec import MsgpackCodec
    _SHARED[:] = [MsgpackCodec.decode(raw(0))]


def functions(a, b, shared):
    if not shared:
        return [globals()["op_" + a](0), globals()["op_" + b](1)]
    share()
    try:
        return [globals()["op_" + a](0), globals()["op_" + b](0)]
    finally:
        del _SHARED[:]


VISITS = 1


def visits(trail):
    """The points that are among the first or last visits of their place in the code."""
    seen, chosen = {}, set()
    for direction in (1, -1):
        seen.clear()
        for i in range(len(trail))[::direction]:
            seen[trail[i]] = seen.get(trail[i], 0) + 1
            if seen[trail[i]] <= VISITS:
                chosen.add(i)
    return sorted(chosen) + [len(trail)]


def alone(op, k, fine, shared=False):
    """Result and number of points of the operation on its own."""
    if (op, k, fine, shared) not in _ALONE:
        for _ in range(2):   # imports, caches
            s = Scheduler([functions(op, op, shared)[k], lambda: None], [], fine)
            s.trail = []
            r = s.run()[0]
        ensure(r[0] == "gives", "%s alone raises %s", op, r[1])
        _ALONE[op, k, fine, shared] = r[1], s.points[0], visits(s.trail)
    return _ALONE[op, k, fine, shared]


def execute(a, b, plan, fine, shared=False):
    s = Scheduler(functions(a, b, shared), plan, fine)
    got = s.run()
    core.step(sum(s.points))
    for name, k, r in ((a, 0, got[0]), (b, 1, got[1])):
        want = alone(name, 0 if shared else k, fine, shared)[0]
        what = (name, "the same" if shared else "one", b if k == 0 else a, "it" if shared else "another", plan)
        ensure(r[0] == "gives", "%s of %s document while another thread does %s with %s (switching after %s): %s", *what, r[1])
        ensure(r[1] == want, "%s of %s document while another thread does %s with %s (switching after %s) gives %s, alone %s", *what, core.short(r[1]), core.short(want))


STEP = 64


def switches(a, fine, shared, all_points):
    n, chosen = alone(a, 0, fine, shared)[1:]
    return range(n + 1) if all_points else chosen


def gen_once(pairs, fine=False, shared=False, all_points=False):
    def gen():
        for a, b in pairs:
            for lo in range(0, len(switches(a, fine, shared, all_points)), STEP):
                yield a, b, fine, shared, all_points, lo
    return gen


def run_once(case):
    a, b, fine, shared, all_points, lo = case
    for k in switches(a, fine, shared, all_points)[lo:lo + STEP]:
        execute(a, b, [(0, k), (1, None)], fine, shared)
    return case


def gen_twice(pairs, stride, shared=False):
    """The first runs to a point, then the second to a point, then all of the first, then the rest of the second."""
    def gen():
        for a, b in pairs:
            n = alone(a, 0, False, shared)[1]
            for k in range(0, n + 1, stride):
                yield a, b, k, stride, shared
    return gen


def run_twice(case):
    a, b, k, stride, shared = case
    for m in range(1, alone(b, 0 if shared else 1, False, shared)[1], stride):
        execute(a, b, [(0, k), (1, m), (0, None)], False, shared)
    return case


# -- Java

def java_job(name, k):
    """Work of a thread with Java objects of its own, on document or file k."""
    if name in ("encode", "decode", "lazy"):
        return [name, bytes(raw(k))]
    if name in ("write", "framed"):
        return [name, None] + [bytes(raw((k + i) % 3)) for i in range(3 - k)]
    return [name, bytes(stored(k, name == "unframe"))] + [k] * (k % 2)


JAVA = ["encode", "decode", "lazy", "write", "framed", "read", "unframe"]


def tiny(k):
    """A job on little data, for schedules with more preemptions."""
    from docria.codec import MsgpackCodec
    from docria.model import Document, DataTypes as T
    doc = Document(id="d%d" % k)
    text = doc.add_text("main", "ab%d" % k)
    doc.add_layer("tok", text=text.spantype, v=T.int32(7 + k)).add(text=text[k:2], v=k)
    return bytes(MsgpackCodec.encode(doc))


SLICES = 4


def gen_java(pairs, parts):
    def gen():
        for a, b in pairs:
            for k in range(SLICES * (4 if parts else 1)):
                yield a, b, parts, SLICES * (4 if parts else 1), k
    return gen


_JAVA_ALONE = {}


def run_java(case):
    a, b, parts, stride, offset = case
    jobs = [java_job(a, 0), java_job(b, 1)]
    res = java.script([[None, "raw", "interrupt", *jobs, parts, stride, offset]])[0]
    ensure(not isinstance(res, java.JavaError), "threads that do %s and %s failed: %s", a, b, res)
    want, points, schedules, different = res
    core.step(schedules)
    for k, name in ((0, a), (1, b)):
        ensure(want[k][0] == "v", "%s in Java, alone, raises %s", name, want[k])
        same(want[k], _JAVA_ALONE.setdefault((name, k), want[k]), "%s in Java, alone" % name)
    for first, second, k in different:
        for name, got, alone_ in ((a, first, want[0]), (b, second, want[1])):
            ensure(got == alone_, "%s of one Java object, while another thread does %s with another (the second within the first after %s points of %s), gives %s, alone %s",
                   name, b if got is first else a, k, points, core.short(got), core.short(alone_))
    return core.h64(case)


def gen_schedules():
    for a, b in [("encode", "encode"), ("decode", "decode")] + ([("encode", "decode")] if core.thorough() else []):
        yield a, b


def run_schedules(case):
    jobs = [[name, tiny(k)] for k, name in enumerate(case)]
    res = java.script([[None, "raw", "independent", *jobs, 2]])[0]
    ensure(not isinstance(res, java.JavaError), "threads that do %s failed: %s", case, res)
    schedules, decisions, outcomes = res
    core.step(schedules)
    for outcome, schedule in outcomes:
        same(outcome, outcomes[0][0], "threads that do %s with Java objects of their own, under the schedule %s rather than one after the other" % (case, core.short(schedule)))
    ensure(outcomes[0][0] != "deadlock" and all(r[0] == "v" for r in outcomes[0][0]), "threads that do %s one after the other: %s", case, outcomes[0][0])
    return core.h64(case)


def main(rep):
    t = core.thorough()
    if not java.available(rep) or not java.compile_java(rep, points=True):
        return
    points.install()
    every = [(a, b) for a in OPS for b in OPS]
    itself = [(a, a) for a in OPS]
    reads = [(a, b) for a in READS for b in READS]
    core.enumerate_cases(rep, "itself", gen_once(itself, all_points=True), run_once, bound="%d operations, each within itself with a document of its own, at every statement" % len(itself))
    core.enumerate_cases(rep, "statements", gen_once(every, all_points=t), run_once,
                         bound="all %d ordered pairs of operations on documents of their own, the second within the first at %s" % (len(every), "every statement" if t else "the first and last visit of every statement"))
    core.enumerate_cases(rep, "shared", gen_once(reads, shared=True, all_points=t), run_once,
                         bound="all %d ordered pairs of operations that read the same document (without gaps), the second within the first at %s" % (len(reads), "every statement" if t else "the first and last visit of every statement"))
    core.enumerate_cases(rep, "expressions", gen_once(itself, True, all_points=True), run_once, bound="each operation within itself at every expression")
    small = [(a, a) for a in ("query", "read", "edit", "algorithms", "unjson", "json", "decode", "encode")]
    stride = 3 if t else 9
    core.enumerate_cases(rep, "switches", gen_twice(small, stride), run_twice, bound="%d operations within themselves, with two switching points, at every %dth statement of each" % (len(small), stride))
    pairs = [(a, b) for a in JAVA for b in JAVA]
    core.enumerate_cases(rep, "java", gen_java(pairs, t), run_java, bound="%d ordered pairs of jobs of the Java codec, readers and writers on objects of their own, the second within the first at every %s" % (len(pairs), "part of a line" if t else "line"))
    core.enumerate_cases(rep, "java parts", gen_java([(a, a) for a in JAVA], True), run_java, bound="each Java job within itself at every field access and call") if not t else None
    core.enumerate_cases(rep, "java schedules", gen_schedules, run_schedules, bound="encoding and decoding little documents in Java, all schedules with two preemptions at calls into msgpack")
