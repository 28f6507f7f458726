"""C09: collection files return every document, in order and by reference."""
import io
import itertools
import os
import pickle
from mc import core, docs, coll
from mc.core import same, ensure

LEVEL = "model_checking"
RULE = "all writer histories (plain, shared and edited, encoded, partly read, empty documents, flushes) up to a length for " \
       "every block size and codec; all interleavings of reader operations up to a length on files of several layouts and " \
       "storages (short reads included) against a cursor model; states: distinct outcomes, transitions: operations executed"
DEADLINE = {"quick": 300, "thorough": 820}


# -- writer histories

class Writer:
    """Writes symbols and remembers the exact bytes of every document that has to come back."""

    def __init__(self, per_block, codec, out=None):
        from docria.collection import MsgpackDocumentWriter
        from docria.codec import MsgpackCodec, MsgpackDocument
        self.M, self.MD = MsgpackCodec, MsgpackDocument
        self.out = out if out is not None else coll.Keep()
        self.w = MsgpackDocumentWriter(self.out, num_docs_per_block=per_block, codec=coll.codec(codec))
        self.want, self.blocks, self.open, self.per = [], [], 0, per_block
        self.i = 0
        self.shared = coll.make(2)
        self.shared_enc = coll.encoded(3)
        self.lazy = coll.encoded(6)
        self.files = 0

    def put(self, doc, want):
        self.w.write(doc)
        self.want.append(want)
        self.open += 1
        if self.open == self.per:
            self.blocks.append(self.open)
            self.open = 0

    def do(self, sym):
        core.step()
        self.i += 1
        i = self.i
        if sym == "p":
            self.put(coll.make(i), coll.data(i))
        elif sym == "P":   # one document, edited between writes
            self.shared.props["n"] = i
            self.shared["l"].add()
            self.put(self.shared, self.M.encode(self.shared))
            self.shared.props["n"] = -1
        elif sym == "e":
            self.put(coll.encoded(i), coll.data(i))
        elif sym == "E":   # one encoded document again and again
            self.put(self.shared_enc, coll.data(3))
        elif sym == "z":   # partly read before
            self.lazy.properties("id")
            if i % 2:
                self.lazy.texts()
            if i % 3 == 0:
                self.lazy.document()
            self.put(self.lazy, coll.data(6))
        elif sym == "0":
            from docria.model import Document
            self.put(Document(), self.M.encode(Document()))
        elif sym == "F":   # encoded document backed by a file
            path = coll.scratch_file("doc%d" % i)
            with open(path, "wb") as f:
                f.write(coll.data(i))
            with open(path, "rb") as f:
                d = self.MD(f)
                if i % 2:
                    d.properties()
                self.put(d, coll.data(i))
            os.unlink(path)
        elif sym == "x":   # options are passed on to the encoder
            d = coll.make(2)
            d["l"].first()["undeclared"] = 1
            self.w.write(d, extra_fields_ok=True)
            del d["l"].first()["undeclared"]
            self.want.append(self.M.encode(d))
            self.open += 1
            if self.open == self.per:
                self.blocks.append(self.open)
                self.open = 0
        elif sym == "f":
            self.w.flush()
            self.end_block()
        else:
            raise AssertionError(sym)

    def end_block(self):
        if self.open:
            self.blocks.append(self.open)
        self.open = 0

    def finish(self, how="close"):
        if how == "close":
            self.w.close()
            ensure(getattr(self.out, "done", True), "close() leaves the storage open")
        else:
            self.w.flush()
        self.end_block()
        return self.out.getvalue()


def check_reading(raw, want, what, kinds=("bytesio",), sizes=None, path=None):
    """Sequential, by block, by reference (from the same and from a fresh reader, refs pickled)."""
    from docria.collection import MsgpackDocumentReader
    refs = []
    for kind in kinds:
        r = MsgpackDocumentReader(coll.storage(kind, raw, path))
        got = list(r)
        same(len(got), len(want), "%s: number of documents read (%s)" % (what, kind))
        refs = []
        for k, (d, w) in enumerate(zip(got, want)):
            coll.check_doc(d, w, "%s: document %d (%s)" % (what, k, kind))
            refs.append(d.ref)
            core.step()
        same(list(r), [], "%s: reading on at the end" % what)
        ensure(len(set(refs)) == len(refs), "%s: two documents report the same position: %s", what, refs)
        for k in list(range(len(refs)))[::-1] + list(range(len(refs))):
            d = r.get(refs[k])
            coll.check_doc(d, want[k], "%s: retrieving %d by reference at the end (%s)" % (what, k, kind))
            same(d.ref, refs[k], "%s: position of a retrieved document" % what)
        r.close()
        r = MsgpackDocumentReader(coll.storage(kind, raw, path))
        k = 0
        shapes = []
        for bl in r.blocks():
            n0 = k
            for d in bl:
                ensure(k < len(want), "%s: too many documents in the blocks", what)
                coll.check_doc(d, want[k], "%s: document %d by blocks (%s)" % (what, k, kind))
                same(d.ref, refs[k], "%s: position of document %d by blocks" % (what, k))
                k += 1
            shapes.append(k - n0)
            inside = bl.documents()
            same([p for p, _ in inside], [ref[1] for ref in refs[n0:k]], "%s: positions within a block" % what)
            for (p, d), w in zip(inside, want[n0:k]):
                coll.check_doc(d, w, "%s: documents() of a block" % what)
        same(k, len(want), "%s: number of documents by blocks" % what)
        if sizes is not None:
            same(shapes, sizes, "%s: documents per block" % what)
        r.close()
    refs2 = pickle.loads(pickle.dumps(refs))
    for k in range(len(refs2)):
        r = MsgpackDocumentReader(io.BytesIO(raw))
        coll.check_doc(r.get(refs2[k]), want[k], "%s: retrieving %d from a fresh reader" % (what, k))
        rest = want[k + 1:]
        nxt = next(r, None)
        if rest:
            coll.check_doc(nxt, rest[0], "%s: reading on after retrieval" % what)
        else:
            ensure(nxt is None, "%s: reading on after the last document gives one more", what)


def gen_writes():
    t = core.thorough()
    for n in range(0, 6 if t else 5):
        for h in itertools.product("pPef0", repeat=n):
            for per in (1, 2, 3, 128):
                yield "".join(h), per, "none"
    for n in range(0, 4 if t else 3):
        for h in itertools.product("pPeEzF0xf", repeat=n):
            for per in (1, 2, 5):
                for c in coll.codecs():
                    yield "".join(h), per, c


def run_writes(case):
    h, per, codec = case
    w = Writer(per, codec)
    for s in h:
        w.do(s)
    raw = w.finish()
    check_reading(raw, w.want, "%s, %d per block, %s" % (h or "nothing", per, codec), sizes=w.blocks)
    return (h, per, codec)


# -- files, paths, context managers and the deprecated interface

def gen_apis():
    for how in ("path", "path-with", "fileobj", "DocumentIO", "DocumentIO-file", "twice", "flushed-open"):
        for n in (0, 1, 2, 3, 5):
            for per in (1, 2, 128):
                yield how, n, per


def run_apis(case):
    from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, DocumentIO, MsgpackDocumentIO, DocumentReader
    from docria import storage as alias
    how, n, per = case
    path = coll.scratch_file("api")
    if os.path.exists(path):
        os.unlink(path)
    want = [coll.data(i) for i in range(n)]
    kw = dict(num_docs_per_block=per)
    if how == "path":
        w = MsgpackDocumentWriter(path, **kw)
        for i in range(n):
            w.write(coll.make(i))
        w.close()
        core.refused(lambda: MsgpackDocumentWriter(path), "overwriting an existing file")
        rd = lambda: MsgpackDocumentReader(path)
    elif how == "path-with":
        with alias.MsgpackDocumentWriter(path, codec=coll.codec("bzip2"), **kw) as w:
            for i in range(n):
                w.write(coll.encoded(i))
        rd = lambda: alias.MsgpackDocumentIO.read(path)
    elif how == "fileobj":
        with open(path, "wb") as f:
            w = MsgpackDocumentWriter(f, **kw)
            for i in range(n):
                w.write(coll.make(i))
            w.flush()
        rd = lambda: MsgpackDocumentIO.readfile(open(path, "rb"))
    elif how in ("DocumentIO", "DocumentIO-file"):
        w = DocumentIO.write(path, **kw) if how == "DocumentIO" else DocumentIO.writefile(open(path, "wb"), **kw)
        with w:
            for i in range(n):
                w.write(coll.make(i))
        rd = lambda: MsgpackDocumentIO.read(path)
        for opener in (lambda: DocumentIO.read(path), lambda: DocumentIO.readfile(open(path, "rb")), lambda: DocumentReader(rd())):
            with opener() as r:
                got = list(r)
            same(len(got), n, "documents through DocumentIO")
            for i, d in enumerate(got):
                docs.compare(d, coll.spec(i), "document %d through DocumentIO" % i)
    elif how == "twice":  # copy a collection document by document
        with MsgpackDocumentWriter(path, **kw) as w:
            for i in range(n):
                w.write(coll.make(i))
        copy = path + "-copy"
        with MsgpackDocumentReader(path) as r, MsgpackDocumentWriter(copy, mode="wb", num_docs_per_block=2) as w:
            for d in r:
                w.write(d)
        rd = lambda: MsgpackDocumentReader(copy)
    elif how == "flushed-open":  # what is flushed can be read while the writer stays open
        f = open(path, "wb", buffering=0)
        w = MsgpackDocumentWriter(f, **kw)
        for i in range(n):
            w.write(coll.make(i))
            w.flush()
            with MsgpackDocumentReader(path) as r:
                for k, d in enumerate(r):
                    coll.check_doc(d, want[k], "flushed document %d while writing" % k)
                same(k, i, "last flushed document")
        f.close()
        rd = lambda: MsgpackDocumentReader(path)
    with rd() as r:
        got = list(r)
    same(len(got), n, "documents after %s" % how)
    for i, d in enumerate(got):
        coll.check_doc(d, want[i], "%s: document %d" % (how, i), coll.spec(i))
    with rd() as r:
        for i in reversed(range(n)):
            coll.check_doc(r.get(got[i].ref), want[i], "%s: document %d by reference" % (how, i))
    for p in (path, path + "-copy"):
        if os.path.exists(p):
            os.unlink(p)
    return case


# -- sizes: documents and blocks around the limits of headers and read buffers

SIZES = [0, 40, 100, 130, 200, 250, 256, 8000, 16000, 16300, 16384, 16500, 32768, 40000, 65000, 65536, 66000, 70000, 131072]


def gen_sizes():
    for size in SIZES + ([262144, 1 << 20, (1 << 20) + 7] if core.thorough() else []):
        for layout in ((1,), (1, 1, 1), (3,), (2, 1, 2)):
            for c in ("none", "zip"):
                for kind in ("bytesio", "short-large", "file", "unbuffered"):
                    yield size, layout, c, kind
    for n in (15, 16, 17, 127, 128, 129, 300):
        for per in (1, 16, 128, 1000, 65536):
            for c in ("none", "zip"):
                yield n, per, c, "count"


def run_sizes(case):
    if case[3] == "count":
        n, per, c, _ = case
        w = Writer(per, c)
        for i in range(n):
            w.do("p")
        check_reading(w.finish(), w.want, "%d documents, %d per block" % (n, per), sizes=w.blocks)
        return case
    size, layout, c, kind = case
    raw, blocks = coll.write_file(layout, c, size=size)
    want = [coll.data(i, size) for b in blocks for i in b]
    path = coll.scratch_file("size")
    check_reading(raw, want, "documents of %d bytes, blocks %s, %s" % (size, layout, c), kinds=(kind,), sizes=list(layout), path=path)
    if os.path.exists(path):
        os.unlink(path)
    return case


# -- reader interleavings

class Reader:
    """Real reader and a cursor model: the block being read, the place in it, the next block in the file."""

    def __init__(self, raw, blocks, kind, refs):
        from docria.collection import MsgpackDocumentReader
        self.r = MsgpackDocumentReader(coll.storage(kind, raw, coll.scratch_file("rd")))
        self.blocks, self.refs = blocks, refs
        self.cur, self.at, self.nextb = None, 0, 0
        self.held = None
        self.where = {i: (b, k) for b, ids in enumerate(blocks) for k, i in enumerate(ids)}
        self.gen = None

    def do(self, op):
        core.step()
        name = op[0]
        what = "%s after" % (op,)
        if name == "next":
            d = next(self.r, None)
            if self.cur is None or self.at == len(self.blocks[self.cur]):
                self.cur, self.at = (self.nextb, 0) if self.nextb < len(self.blocks) else (None, 0)
                self.nextb = min(self.nextb + 1, len(self.blocks))
            if self.cur is None:
                ensure(d is None, "reading at the end gives %s", core.short(d))
            else:
                i = self.blocks[self.cur][self.at]
                self.at += 1
                self.check(d, i, "sequential reading")
        elif name == "get":
            i = op[1]
            d = self.r.get(self.refs[i])
            b, k = self.where[i]
            if self.cur != b:
                self.nextb = b + 1
            self.cur, self.at = b, k + 1
            self.check(d, i, "retrieval")
        elif name == "seek":
            self.r.seek(self.refs[self.blocks[op[1]][0]][0])
            self.cur, self.at, self.nextb = None, 0, op[1]
        elif name == "block":
            bl = self.r.readblock()
            if self.nextb == len(self.blocks):
                ensure(bl is None, "reading a block at the end gives one")
                return
            ids = self.blocks[self.nextb]
            self.nextb += 1
            if bl is None:
                raise core.Violation("no block where block %d is expected" % (self.nextb - 1))
            same(bl.position, self.refs[ids[0]][0], "position of block %d" % (self.nextb - 1))
            if op[1] == "hold":
                self.held = [bl, ids, 0]
            elif op[1] == "iterate":
                got = list(bl)
                same(len(got), len(ids), "documents of block %d" % (self.nextb - 1))
                for d, i in zip(got, ids):
                    self.check(d, i, "block")
            else:
                got = bl.documents()
                same([p for p, _ in got], [self.refs[i][1] for i in ids], "positions in block %d" % (self.nextb - 1))
                for (_, d), i in zip(got, ids):
                    self.check(d, i, "documents() of a block")
        elif name == "held" and self.held:
            bl, ids, k = self.held
            d = next(bl, None)
            if k == len(ids):
                ensure(d is None, "a finished block gives one more document")
            else:
                self.check(d, ids[k], "block held while reading on")
                self.held[2] += 1
        elif name == "held-seek" and self.held:
            bl, ids, k = self.held
            bl.seek(self.refs[ids[-1]][1])
            same(bl.tell(), self.refs[ids[-1]][1], "tell after seek in a block")
            self.held[2] = len(ids) - 1

    def check(self, d, i, what):
        if d is None:
            raise core.Violation("%s ends where document %d is expected" % (what, i))
        coll.check_doc(d, coll.data(i), what)
        same(d.ref, self.refs[i], "%s: position of document %d" % (what, i))


_FILES = {}


def file_for(layout, c, size=0):
    """A file, and the references to its documents taken by one plain sequential pass."""
    if (layout, c, size) not in _FILES:
        from docria.collection import MsgpackDocumentReader
        raw, blocks = coll.write_file(layout, c, size=size)
        refs = [d.ref for d in MsgpackDocumentReader(io.BytesIO(raw))]
        same(len(refs), sum(layout), "documents of the file")
        _FILES[(layout, c, size)] = raw, blocks, refs
    return _FILES[(layout, c, size)]


def reader_ops(layout, full):
    n = sum(layout)
    ops = [("next",), ("block", "hold"), ("held",), ("held-seek",)] + [("get", i) for i in (range(n) if full else sorted({0, 1, n // 2, n - 1}))] + \
          [("seek", b) for b in range(len(layout))]
    if full:
        ops += [("block", "iterate"), ("block", "documents")]
    return ops


def gen_reads():
    t = core.thorough()
    for layout, c, kind, depth, full in (((2, 1, 2), "none", "bytesio", 5 if t else 4, True), ((2, 2), "zip", "short1", 5 if t else 4, True),
                                         ((1, 1, 1, 1), "none", "short3", 5 if t else 4, False),
                                         ((3, 2), "lzma", "short-mixed", 5 if t else 4, False), ((2, 1), "none", "unbuffered", 5 if t else 4, False),
                                         ((4,), "zip", "bytesio", 6 if t else 5, False)):
        for h in itertools.product(reader_ops(layout, full), repeat=depth):
            yield layout, c, kind, h


def run_reads(case):
    layout, c, kind, h = case
    raw, blocks, refs = file_for(layout, c)
    r = Reader(raw, blocks, kind, refs)
    for op in h:
        r.do(op)
    # whatever came before, the rest of the file is still there
    for _ in range(sum(layout) + 1):
        r.do(("next",))
    r.r.close()
    return (layout, kind, r.cur, r.at, r.nextb, h[-1])


def gen_big_reads():
    for h in itertools.product([("next",), ("get", 0), ("get", 3), ("get", 4), ("seek", 1), ("block", "hold"), ("held",)], repeat=4 if core.thorough() else 3):
        for kind in ("bytesio", "short-large"):
            yield (2, 2, 1), "none", kind, h


def run_big_reads(case):
    layout, c, kind, h = case
    raw, blocks, refs = file_for(layout, c, 20000)
    r = Reader(raw, blocks, kind, refs)
    r.check = lambda d, i, what: (ensure(d is not None, "%s ends at document %d", what, i), coll.check_doc(d, coll.data(i, 20000), what),
                                  same(d.ref, refs[i], what))
    for op in h + (("next",),) * 6:
        r.do(op)
    return (kind, r.cur, r.at, r.nextb, h[-1])


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "writer-histories", gen_writes, run_writes,
                         bound="to length %d over 5 symbols x 4 block sizes; to length %d over 9 symbols x 3 block sizes x all codecs" % ((5, 3) if t else (4, 2)))
    core.enumerate_cases(rep, "interfaces", gen_apis, run_apis, bound="7 ways x 5 numbers of documents x 3 block sizes")
    core.enumerate_cases(rep, "sizes", gen_sizes, run_sizes, bound="documents to %d bytes, to 300 documents" % ((1 << 20) + 7 if t else 131072))
    core.enumerate_cases(rep, "reader-interleavings", gen_reads, run_reads, bound="all sequences of 4 to %d operations on 6 files" % (6 if t else 5))
    core.enumerate_cases(rep, "large-documents", gen_big_reads, run_big_reads, bound="all sequences of %d operations, documents larger than the read buffer" % (4 if t else 3))
