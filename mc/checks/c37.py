"""C37: Hadoop jobs read, carry and write documents unharmed."""
import itertools
from mc import core, coll, docs, java
from mc.core import ensure, same, short, Violation
from mc.java import S, ref
from mc.checks.c31 import compare, expected, check_dump
from mc.checks.c33 import orders

LEVEL = "model_checking"
RULE = "breadth-first search over sequences of uses of a writable; every job over small files, block sizes, split sizes and short reads; every schedule, up to a " \
       "number of preemptions, of threads that share a writer; on the compiled classes, against the documents that went in"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS + ["the Hadoop stand-ins keep files in memory, split them as FileInputFormat does, and may answer reads short"]

SPECS = [({"id": 1}, (("main", "abc"),), (("t", (("f", ("span", "main")),), ({"f": ("span", "main", 0, 2)}, {})),)), ({"id": 2, "b": b"\x00"}, (), ()), ({}, (("main", "\u00e5\U0001F600"),), ())]


def encoded(spec):
    from docria.codec import MsgpackCodec
    return MsgpackCodec.encode(docs.build(spec))


class State:
    """A DocumentWritable; the model is the document it has to hold."""

    def __init__(self, cfg):
        self.now = None     # (number of document, edited or None)
        self.script = []
        self.apply((cfg, 0))

    def ops(self):
        for k in (0, 1):
            yield ("setDocument", k)
            yield ("setBlob", k)
        yield ("newDocument", 2)
        yield ("newBlob", 2)
        yield ("edit", 5)
        yield ("edit", 6)
        for op in ("write", "serialize", "document", "blob", "sections", "props"):
            yield (op,)
        yield ("reread", 1)

    def apply(self, op):
        core.step()
        self.script.append(list(op))
        if op[0] in ("newDocument", "newBlob", "setDocument", "setBlob"):
            self.now = (op[1], None)
        elif op[0] == "edit":
            self.now = (self.now[0], op[1])

    def key(self):
        return (repr(self.now), tuple(o[0] for o in self.script[-2:]))

    def want(self, now):
        k, edit = now
        props = dict(SPECS[k][0])
        if edit is not None:
            props["edited"] = edit
        return expected((props,) + SPECS[k][1:])

    def observe(self):
        for tail in ("document", "blob", "sections", "props", "write", "serialize"):
            script = self.script + [[tail], ["document"], ["blob"]]
            res = java.good(java.script([[None, "raw", "writable", [encoded(s) for s in SPECS], script]])[0])
            now = None
            for op, (state, got) in zip(script, res):
                what = "%s at the end of %s" % (op[0], [o[0] for o in script[:len(script)]])
                ensure(state == "v", "%s failed: %s", what, got)
                if op[0] in ("newDocument", "newBlob", "setDocument", "setBlob"):
                    now = (op[1], None)
                elif op[0] == "edit":
                    now = (now[0], op[1])
                elif op[0] == "props":
                    same(got, self.want(now)["props"], what)
                elif op[0] in ("document", "blob", "sections"):
                    check_dump(got, self.want(now), what)


def gen_jobs():
    t = core.thorough()
    sizes = (0, 1, 2, 3, 5)
    for n in sizes:
        for block in (None, 1, 2, 3):
            for mix in ("document", "blob", "both"):
                yield (n,), block, mix
    for parts in itertools.product((0, 1, 3), repeat=2):
        for block in (1, 2):
            yield parts, block, "both"
    yield (300,), None, "blob"
    yield (128,), None, "blob"
    yield (129, 127), None, "blob"


def run_jobs(case):
    """Written by a job, read by a job, and by Python."""
    parts, block, mix = case
    ids = itertools.count()
    programs, wants = [], []
    for n in parts:
        mine = [next(ids) for _ in range(n)]
        wants.append(mine)
        programs.append([["document" if mix == "document" or mix == "both" and i % 2 else "blob", coll.data(i)] for i in mine])
    settings = {} if block is None else {"docria.block.size": block}
    files, left = java.good(java.script([[None, "raw", "output", programs, settings]])[0])
    same(left, 0, "streams left open by the writers")
    same(len(files), len(parts), "files written")
    for (name, raw), mine in zip(sorted(files.items()), wants):
        ensure(name.endswith(".docria"), "a file is called %s", name)
        got = python_reads(raw)
        same(len(got), len(mine), "number of documents Python reads from the file")
        for i, d in zip(mine, got):
            as_is = mix == "blob" or mix == "both" and i % 2 == 0
            (docs.compare if as_is else compare)(d, coll.spec(i), "document %d, read by Python from the file" % i)
        size = block or 128
        same(blocks_of(raw), [len(mine[k:k + size]) for k in range(0, len(mine), size)], "blocks of the file")
    for split in (None, 1, 7, 40, 100000):
        for short_read in (1, 3, None):
            for keep in (False, True):
                conf = {}
                if split is not None:
                    if split < 40 and sum(parts) > 20:
                        continue
                    conf["mapreduce.input.fileinputformat.split.maxsize"] = split
                if short_read is not None:
                    conf["standin.read"] = short_read
                core.step()
                job(files, wants, conf, 1 << 20, keep)
    for most in (0, 1, 2):
        job(files, wants, {}, most, False)
    return core.h64(case)


def python_reads(raw):
    import io
    from docria.collection import MsgpackDocumentReader
    return [d.document() for d in MsgpackDocumentReader(io.BytesIO(raw))]


def coll_doc(i):
    from docria.codec import MsgpackCodec
    return MsgpackCodec.decode(coll.data(i))


def blocks_of(raw):
    """Numbers of documents in each block, from the bytes."""
    import msgpack
    import zlib
    at = [4]

    def one():
        u = msgpack.Unpacker(raw=False, max_buffer_size=1 << 28, max_bin_len=1 << 28)
        u.feed(raw[at[0]:])
        v = u.unpack()
        at[0] += u.tell()
        return v
    same(raw[:4], b"Dmf1", "header")
    codec, _, extra = one(), one(), one()
    same(extra, False, "header")
    out = []
    while at[0] < len(raw):
        data = one()
        data = {"none": lambda x: x, "zip": zlib.decompress, "zipsq": lambda x: zlib.decompress(zlib.decompress(x))}[codec](data)
        u = msgpack.Unpacker(raw=False, max_buffer_size=1 << 28, max_bin_len=1 << 28)
        u.feed(data)
        out.append(sum(1 for _ in u))
    return out


def job(files, wants, conf, most, keep):
    out, left = java.good(java.script([[None, "raw", "input", files, conf, most, keep]])[0])
    what = "job over files of %s documents with %s%s%s" % ([len(w) for w in wants], conf, "" if most > 1 << 10 else ", stopped after %d" % most, ", documents kept" if keep else "")
    same(left, 0, what + ": streams left open")
    got = {}
    for name, found, progress, end in out:
        ensure(end in ("end", None), "%s: reading ended with %s", what, end)
        got.setdefault(name, []).extend(found)
        ensure(all(-1e-6 <= p <= 1 + 1e-6 for p in progress) and progress == sorted(progress), "%s: progress went %s", what, progress)
    if most > 1 << 10:
        same(sorted(got), sorted(files), what + ": files read")
    for (name, _), mine in zip(sorted(files.items()), wants):
        found = got.get(name, [])
        if most <= 1 << 10:
            mine = mine[:most]
        same(len(found), len(mine), what + ": records of %s" % name)
        for i, d in zip(mine, found):
            check_dump(d, expected(coll.spec(i)), what + ": document %d" % i)


def gen_cut():
    for parts in ((2,), (3,)):
        yield parts


def run_cut(parts):
    """A file that ends early gives no wrong documents, and says so or stops at the last complete block."""
    programs = [[["blob", coll.data(i)] for i in range(n)] for n in parts]
    files, _ = java.good(java.script([[None, "raw", "output", programs, {"docria.block.size": 1}]])[0])
    (name, raw), = files.items()
    for n in range(len(raw)):
        core.step()
        out, left = java.good(java.script([[None, "raw", "input", {name: raw[:n]}, {}, 1 << 20, False]])[0])
        for _, found, progress, end in out:
            ensure(len(found) <= parts[0], "%d bytes of a file of %d documents gave %d", n, parts[0], len(found))
            for i, d in enumerate(found):
                check_dump(d, expected(coll.spec(i)), "document %d of the first %d bytes" % (i, n))
    return core.h64(parts)


def gen_writers():
    t = core.thorough()
    for block in (1, 2, 3):
        for counts in ((1, 1), (1, 2), (2, 2)) + (((2, 3), (1, 1, 1)) if t or block == 1 else ((1, 1, 1),)):
            yield counts, block, (4 if t else 3) if len(counts) == 2 else (3 if t else 2)


def run_writers(case):
    counts, block, bound = case
    ids = itertools.count()
    mine = [[next(ids) for _ in range(n)] for n in counts]
    res = java.good(java.script([[None, "raw", "writers", [[coll.data(i) for i in m] for m in mine], block, bound]])[0])
    schedules, decisions, outcomes = res
    core.step(schedules)
    allowed = set()
    for order in orders(tuple(counts)):
        at, out = [0] * len(counts), []
        for k in order:
            out.append(mine[k][at[k]])
            at[k] += 1
        allowed.add(tuple(out))
    for outcome, schedule in outcomes:
        what = "threads writing %s documents, %d to a block, under the schedule %s" % (counts, block, schedule)
        ensure(outcome != "deadlock", "%s wait for each other", what)
        raw, failures = outcome
        same(failures, [], what + ": failures")
        try:
            got = tuple(map(ident, python_reads(raw)))
        except Violation:
            raise
        except Exception as e:
            raise Violation("%s: the file cannot be read: %r" % (what, e))
        ensure(got in allowed, "%s: the file holds the documents %s", what, got)
        same(blocks_of(raw), [len(got[k:k + block]) for k in range(0, len(got), block)], what + ": blocks of the file")
    return core.h64(case)


KNOWN = {}


def ident(d):
    if not KNOWN:
        for i in range(8):
            KNOWN[repr(docs.observed(coll_doc(i)))] = i
    return KNOWN.get(repr(docs.observed(d)), -1)


def main(rep):
    if not java.available(rep) or not java.compile_java(rep, hadoop=True):
        return
    depth = 5 if core.thorough() else 4
    core.search(rep, "writables", State, ["newDocument", "newBlob"], depth, bound="all sequences of up to %d uses" % depth)
    core.enumerate_cases(rep, "jobs", gen_jobs, run_jobs, bound="files of 0-300 documents, block sizes, split sizes, short reads")
    core.enumerate_cases(rep, "truncated", gen_cut, run_cut, bound="every prefix of two files")
    core.enumerate_cases(rep, "writers", gen_writers, run_writers, bound="2-3 threads of 1-3 writes, all schedules with up to %d preemptions" % (4 if core.thorough() else 3))
