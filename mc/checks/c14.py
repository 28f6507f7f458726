"""C14: index search finds exactly the matching documents."""
import io
import itertools
import os
import pickle
import shutil
from mc import core, coll, docs
from mc.core import same, ensure

LEVEL = "model_checking"
RULE = "all assignments of small property values to documents x blocks x conditions, oracle: linear scan over the descriptions; " \
       "directory building under every completion order of the workers (pool replaced by a controlled one, arguments and results " \
       "pickled); every interleaving of result iterators; all working directory / base path / save / load combinations; " \
       "states: distinct outcomes, transitions: searches and iterator steps"
DEADLINE = {"quick": 300, "thorough": 820}


def mkdoc(props, i):
    spec = (dict(props, id=i), (("main", "text %d" % i),), (("l", (("s", ("span", "main")),), ({"s": ("span", "main", 0, 4)},)),))
    return spec


def write_collection(path, specs, blocks=None, per_block=128, codec="none"):
    from docria.collection import MsgpackDocumentWriter
    with open(path, "wb") as f:
        w = MsgpackDocumentWriter(f, num_docs_per_block=per_block, codec=coll.codec(codec))
        k = 0
        for n in blocks if blocks is not None else [len(specs)]:
            for _ in range(n):
                w.write(docs.build(specs[k]))
                k += 1
            if blocks is not None:
                w.flush()
        w.close()


def matches(props, conds):
    return all(k in props and props[k] == v for k, v in conds.items())


def ids_of(found, lazy, what, specs=None):
    from docria.codec import MsgpackDocument
    from docria.model import Document
    out = []
    for d in found:
        core.step()
        if lazy:
            ensure(isinstance(d, MsgpackDocument), "%s: a lazy search gives %r", what, type(d))
            i = d.properties("id")["id"]
            full = d.document()
        else:
            ensure(isinstance(d, Document), "%s: a search gives %r", what, type(d))
            i = d.props["id"]
            full = d
        if specs is not None:
            docs.compare(full, specs[i], "%s: document %d" % (what, i))
        out.append(i)
    return out


CONDS = [dict(c) for c in
         [(("a", v),) for v in (0, 1, "1", "", None, "zz")] + [(("b", v),) for v in (0, 1)] +
         [(("a", v), ("b", w)) for v in (0, 1, "1", None) for w in (0, 1)] + [(("b", 1), ("a", 1)), (("a", 1), ("b", 1), ("id", 0))]]
A_VALUES = [{}, {"a": 0}, {"a": 1}, {"a": "1"}, {"a": None}, {"a": ""}]
B_VALUES = [{}, {"b": 0}, {"b": 1}]


def gen_values():
    t = core.thorough()
    rows = [dict(a, **b) for a in A_VALUES for b in B_VALUES]
    small = [r for r in rows if "" not in r.values() and r.get("a", 1) is not None and r.get("b", 1) == 1]
    for n in range(0, 3):
        for h in itertools.product(range(len(rows)), repeat=n):
            for per in (1, 2):
                yield [rows[i] for i in h], per
    for n in (3, 4) if not t else (3, 4, 5):
        for h in itertools.product(range(len(small)), repeat=n):
            for per in (1, 2, 3):
                if n < 4 or per == 2 or t:
                    yield [small[i] for i in h], per


def run_values(case):
    rows, per = case
    from docria.collection import build_msgpack_fileindex
    specs = [mkdoc(r, i) for i, r in enumerate(rows)]
    path = coll.scratch_file("idx")
    write_collection(path, specs, per_block=per, codec="zip")
    index = build_msgpack_fileindex(path, "a", "b", "id")
    out = []
    for k, conds in enumerate(CONDS):
        want = [i for i, s in enumerate(specs) if matches(s[0], conds)]
        what = "search %s over %s, %d per block" % (conds, rows, per)
        lazy = bool((k + len(rows)) % 2)
        same(ids_of(index.search(conds if k % 3 else list(conds.items()), lazy=lazy), lazy, what, specs if k % 4 == 0 else None), want, what)
        out.append(tuple(want))
    os.unlink(path)
    return tuple(out)


def compositions(n):
    if n == 0:
        yield ()
    for k in range(1, n + 1):
        for c in compositions(n - k):
            yield (k,) + c


def gen_subsets():
    n = 6 if core.thorough() else 5
    for m in range(0, n + 1):
        for c in compositions(m):
            for codec in coll.codecs() if m < 4 else ("none", "zip"):
                yield m, c, codec


def run_subsets(case):
    """One property per subset of the documents: every set of hits, for every division into blocks."""
    from docria.collection import build_msgpack_fileindex, MsgpackDocumentReader
    m, blocks, codec = case
    specs = [mkdoc({"h%d" % mask: mask >> i & 1 for mask in range(1 << m)}, i) for i in range(m)]
    path = coll.scratch_file("sub")
    write_collection(path, specs, blocks, codec=codec)
    index = build_msgpack_fileindex(path, *["h%d" % mask for mask in range(1 << m)])
    for mask in range(1 << m):
        want = [i for i in range(m) if mask >> i & 1]
        for v, w in ((1, want), (0, [i for i in range(m) if i not in want])):
            for lazy in (False, True):
                what = "search for documents %s in blocks %s (%s%s)" % (w, blocks, codec, ", lazy" if lazy else "")
                found = list(index.search({"h%d" % mask: v}, lazy=lazy))
                same(ids_of(found, lazy, what), w, what)
                if lazy and found:
                    r = MsgpackDocumentReader(path)
                    for d, i in zip(found, w):
                        same(r.get(d.ref).properties("id"), {"id": i}, what + ": position of the document found")
                    r.close()
    os.unlink(path)
    return case


SPREAD = [0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 99, 127, 128, 129]


def gen_spread():
    for per in (1, 3, 4, 8, 32, 128):
        for size in (0, 2000):
            for n in (40, 100, 130):
                yield n, per, size


def run_spread(case):
    """Large collections: every set of up to three hits at far apart and neighbouring positions."""
    from docria.collection import build_msgpack_fileindex
    n, per, size = case
    pos = [p for p in SPREAD if p < n]
    sets = [c for k in range(4) for c in itertools.combinations(pos, k)] + [tuple(range(n)), tuple(range(0, n, 2)), tuple(range(n - 1)), tuple(range(1, n))]
    specs = [mkdoc(dict({"h%d" % k: True for k, c in enumerate(sets) if i in c}, pad="x" * size), i) for i in range(n)]
    path = coll.scratch_file("spread")
    write_collection(path, specs, per_block=per)
    index = build_msgpack_fileindex(path, "id", *["h%d" % k for k in range(len(sets))])
    for k, c in enumerate(sets):
        for lazy in (False, True):
            if c:
                same(ids_of(index.search({"h%d" % k: True}, lazy=lazy), lazy, "search"), list(c), "search for %s of %d documents, %d per block" % (c, n, per))
    for i in pos:
        same(ids_of(index.search({"id": i}), False, "search"), [i], "search for document %d" % i)
    os.unlink(path)
    return case


# -- several files, working directories, base paths, saving

def layout_files(root, sizes, values):
    """sizes[k] documents in file k; document i has properties a, b from values."""
    files, specs, i = [], {}, 0
    for k, n in enumerate(sizes):
        sub = os.path.join(root, "coll") if k % 2 == 0 else os.path.join(root, "coll", "sub")
        os.makedirs(sub, exist_ok=True)
        path = os.path.join(sub, "f%d.docria" % k)
        mine = {}
        for _ in range(n):
            mine[i] = mkdoc(values(i), i)
            i += 1
        write_collection(path, [mine[j] for j in sorted(mine)], per_block=1 + k % 3, codec="zip" if k % 2 else "none")
        files.append((path, sorted(mine)))
        specs.update(mine)
    return files, specs


def check_index(index, files, specs, what, condsets):
    out = []
    for conds in condsets:
        for lazy in (False, True):
            got = ids_of(index.search(conds, lazy=lazy), lazy, "%s, search %s" % (what, conds), specs)
            want = [i for i, s in specs.items() if matches(s[0], conds)]
            same(sorted(got), sorted(want), "%s, search %s" % (what, conds))
            for path, mine in files:
                same([i for i in got if i in mine], [i for i in want if i in mine], "%s, search %s: order within %s" % (what, conds, os.path.basename(path)))
            out.append(tuple(sorted(got)))
    return out


def values1(i):
    return {"a": i % 2, "b": i % 3} if i % 5 != 4 else {"b": 1}


CONDSETS = [{"a": 0}, {"a": 1}, {"b": 1}, {"a": 1, "b": 1}, {"b": 2, "a": 0}, {"b": "1"}, {"a": 7}]


def gen_paths():
    for sizes in ((), (2,), (2, 3), (1, 0, 4), (3, 2, 2)):
        for base in ("abs", "rel", "dot", "up", "root"):
            for where in ("same", "other", "inside"):
                for spelled in ("abs", "rel", "odd"):
                    for how in ("live", "saved", "saved-moved-cwd", "pickled"):
                        yield sizes, base, where, spelled, how


def run_paths(case):
    from docria.collection import DocumentIndex, build_msgpack_fileindex
    sizes, base, where, spelled, how = case
    root = coll.scratch_file("paths")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "other", "deep"))
    os.makedirs(os.path.join(root, "coll", "sub"))
    old = os.getcwd()
    try:
        files, specs = layout_files(root, sizes, values1)
        os.chdir(root)
        basepath = {"abs": root, "rel": "coll", "dot": ".", "up": os.path.join("other", "deep"), "root": os.path.join(root, "coll", "sub")}[base]
        index = DocumentIndex() if base == "dot" else DocumentIndex(basepath=basepath)
        for path, _ in files:
            rel = os.path.relpath(path, root)
            p = {"abs": path, "rel": rel, "odd": os.path.join(".", "other", "..", rel)}[spelled]
            index.add(build_msgpack_fileindex(p, "a", "b"))
        if len(files) > 1:   # indexing a file again replaces its index
            index.add(build_msgpack_fileindex(files[0][0], "a", "b"))
        if how == "saved":
            index.save(os.path.join("other", "i.pickle"))
        elif how == "saved-moved-cwd":
            p = os.path.join(root, "i.pickle")
            index.save(p)
        os.chdir({"same": root, "other": os.path.join(root, "other"), "inside": os.path.join(root, "coll", "sub")}[where])
        if how == "saved":
            index = DocumentIndex.load(os.path.join(root, "other", "i.pickle"))
        elif how == "saved-moved-cwd":
            index = DocumentIndex.load(os.path.relpath(os.path.join(root, "i.pickle")))
        elif how == "pickled":
            index = pickle.loads(pickle.dumps(index))
        core.step(len(files))
        out = check_index(index, files, specs, "%s" % (case,), CONDSETS)
    finally:
        os.chdir(old)
        shutil.rmtree(root, ignore_errors=True)
    return case if sizes else None


# -- worker schedules

class FakePool:
    """Runs the tasks in this process, in a given order of completion; arguments and results cross by pickling."""
    order = None
    used = 0

    def __init__(self, processes=None, *a, **k):
        FakePool.used += 1
        self.processes = processes

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass

    join = terminate = close

    @staticmethod
    def _run(fn, a):
        core.step()
        fn, a = pickle.loads(pickle.dumps((fn, a)))
        return pickle.loads(pickle.dumps(fn(*a)))

    def _results(self, fn, argss):
        argss = list(argss)
        order = list(FakePool.order)[:len(argss)] if FakePool.order else range(len(argss))
        order = [i for i in order if i < len(argss)] + [i for i in range(len(argss)) if i not in set(order)]
        for i in order:
            yield i, self._run(fn, argss[i])

    def imap_unordered(self, fn, it, chunksize=1):
        for _, r in self._results(fn, [(x,) for x in it]):
            yield r

    def map(self, fn, it, chunksize=None):
        return [r for _, r in sorted(self._results(fn, [(x,) for x in it]), key=lambda p: p[0])]

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it))

    def starmap(self, fn, it, chunksize=None):
        return [r for _, r in sorted(self._results(fn, [tuple(x) for x in it]), key=lambda p: p[0])]

    def apply(self, fn, args=(), kwds=None):
        return self._run(lambda *a: fn(*a, **(kwds or {})), args) if kwds else self._run(fn, args)

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        r = self.apply(fn, args, kwds)

        class Done:
            def get(self, timeout=None):
                return r

            def wait(self, timeout=None):
                pass

            def ready(self):
                return True

            def successful(self):
                return True
        if callback:
            callback(r)
        return Done()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        r = self.map(fn, it)
        return self.apply_async(list, (r,))


def gen_schedules():
    n = 5 if core.thorough() else 4
    for k in range(0, n + 1):
        for order in itertools.permutations(range(k)):
            for extra in (False, True):
                yield k, order, extra
    yield "real", 2, False
    yield "real", None, True


def run_schedules(case):
    import multiprocessing
    from docria import collection
    k, order, extra = case
    root = coll.scratch_file("dir")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "d"))
    real = k == "real"
    n = 3 if real else k
    files, specs, i = [], {}, 0
    for f in range(n):
        path = os.path.join(root, "d", "f%d.docria" % f)
        mine = {}
        for _ in range((f * 2 + 1) % 4):
            mine[i] = mkdoc(values1(i), i)
            i += 1
        write_collection(path, [mine[j] for j in sorted(mine)], per_block=1 + f % 2)
        files.append((path, sorted(mine)))
        specs.update(mine)
    if extra:  # files that are not collections are left alone
        for name in ("notes.txt", "x.docria.tmp", "docria", ".docria", "y.docria.swp", "f0.docriax"):
            with open(os.path.join(root, "d", name), "wb") as f:
                f.write(b"no collection")
    old, oldpool = os.getcwd(), multiprocessing.Pool
    stderr = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)  # progress bars
    try:
        os.chdir(root)
        if not real:
            FakePool.order = order
            multiprocessing.Pool = FakePool
        kw = {} if extra else {"basepath": "d"}
        if real and order:
            kw["num_workers"] = order
        index = collection.build_msgpack_directory_fileindex("d" if not extra else os.path.join(root, "d"), "a", "b", **kw)
        multiprocessing.Pool = oldpool
        os.chdir("/")
        out = check_index(index, files, specs, "workers finishing in order %s" % (order,), CONDSETS)
    finally:
        multiprocessing.Pool = oldpool
        os.chdir(old)
        os.dup2(stderr, 2)
        os.close(stderr)
        os.close(null)
        shutil.rmtree(root, ignore_errors=True)
    return (case, tuple(out))


# -- several searches at a time

def gen_interleavings():
    t = core.thorough()
    pairs = [({"a": 0}, {"a": 1}), ({"a": 0}, {"a": 0}), ({"b": 1}, {"a": 1}), ({"a": 1, "b": 1}, {"a": 0})]
    for conds in pairs:
        for lazy in itertools.product((False, True), repeat=2):
            for word in itertools.product((0, 1), repeat=9 if t else 7):
                yield conds, lazy, word, "index"
                yield conds, lazy, word, "file"
    triple = ({"a": 0}, {"b": 1}, {"a": 1})
    for word in itertools.product((0, 1, 2), repeat=7 if t else 5):
        yield triple, (True, False, False), word, "index"
        yield triple, (False, True, False), word, "file"


_SHARED = {}


def shared(kind):
    """One index per worker, used by all cases: searches started earlier must not matter either."""
    if kind not in _SHARED:
        from docria.collection import DocumentIndex, build_msgpack_fileindex
        root = coll.scratch_file("inter-" + kind)
        if kind == "index":
            files, specs = layout_files(root, (3, 4), values1)
            index = DocumentIndex(root)
            for path, _ in files:
                index.add(build_msgpack_fileindex(path, "a", "b"))
        else:
            files, specs = layout_files(root, (7,), values1)
            index = build_msgpack_fileindex(files[0][0], "a", "b")
        _SHARED[kind] = index, files, specs
    return _SHARED[kind]


def run_interleavings(case):
    conds, lazy, word, kind = case
    index, files, specs = shared(kind)
    its = [iter(index.search(c, lazy=l)) for c, l in zip(conds, lazy)]
    got = [[] for _ in its]
    done = [False] * len(its)
    order = list(word) + [k for k in range(len(its)) for _ in range(12)]
    kept = []
    for k in order:
        core.step()
        d = next(its[k], None)
        if d is None:
            done[k] = True
            continue
        ensure(not done[k], "a search goes on after its end")
        kept.append((k, d))
        got[k].append(d.properties("id")["id"] if lazy[k] else d.props["id"])
    for k, c in enumerate(conds):
        want = [i for i, s in specs.items() if matches(s[0], c)]
        same(got[k], want, "search %s consumed in turns %s with others" % (c, word))
    for k, d in kept:   # documents stay what they were when found
        i = d.properties("id")["id"] if lazy[k] else d.props["id"]
        docs.compare(d.document() if lazy[k] else d, specs[i], "document %d after other searches went on" % i)
    return case


def gen_large():
    for n, per_block in ((1000, 1), (1000, 7), (3000, 128), (3000, 5000), (70000, 1000)):
        for codec in ("none", "zip"):
            yield n, per_block, codec


def run_large(case):
    """Collections of many documents, found one by one, and many at once."""
    from docria.collection import DocumentFileIndex, build_msgpack_fileindex, MsgpackDocumentWriter
    n, per_block, codec = case
    path = coll.scratch_file("large-%d-%d-%s.docria" % case)
    from docria.codec import MsgpackCodec
    from docria.model import Document
    try:
        with open(path, "wb") as f:
            w = MsgpackDocumentWriter(f, num_docs_per_block=per_block, codec=coll.codec(codec))
            for i in range(n):
                w.write(Document(id=i, a=i % 3, b=i // 500))
            w.close()
        index = build_msgpack_fileindex(path, "id", "a", "b")
        same(len(index.docrefs), n, "documents in the index")
        for i in sorted({0, 1, 127, 128, 255, 256, 299, 300, 511, 512, 999, 1000, 2047, 2048, 2999, 32768, 65535, 65536, n - 1}):
            core.step()
            same([d.properties()["id"] for d in index.search({"id": i}, lazy=True)], [i] if i < n else [], "search for document %d of %d" % (i, n))
        for conds, want in (({"a": 1}, range(1, n, 3)), ({"b": 1, "a": 2}, [i for i in range(n) if i % 3 == 2 and i // 500 == 1]), ({"b": 1}, range(500, min(n, 1000)))):
            core.step()
            if len(want) < 5000:
                same([d.props["id"] for d in index.search(conds)], list(want), "search for %s among %d documents" % (conds, n))
            same([d.properties()["id"] for d in index.search(conds, lazy=True)], list(want), "lazy search for %s among %d documents" % (conds, n))
    finally:
        if os.path.exists(path):
            os.remove(path)
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "values", gen_values, run_values, bound="all values of 2 properties for up to %d documents x 17 conditions x block sizes" % (5 if t else 4))
    core.enumerate_cases(rep, "spread", gen_spread, run_spread, bound="40 to 130 documents, all sets of up to 3 hits at 14 positions")
    core.enumerate_cases(rep, "hits", gen_subsets, run_subsets, bound="all sets of hits among up to %d documents x all divisions into blocks" % (6 if t else 5))
    core.enumerate_cases(rep, "paths", gen_paths, run_paths, bound="5 base paths x 3 working directories x 3 spellings x 4 ways of keeping the index")
    core.enumerate_cases(rep, "schedules", gen_schedules, run_schedules, bound="all completion orders of up to %d workers" % (5 if t else 4))
    core.enumerate_cases(rep, "interleavings", gen_interleavings, run_interleavings, bound="all interleavings of 2 and 3 searches")
    core.enumerate_cases(rep, "large", gen_large, run_large, bound="1000 to 70000 documents in blocks of 1 to 5000")
