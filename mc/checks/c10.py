"""C10: a cut or failed collection write never yields wrong documents."""
import io
import itertools
from mc import core, coll
from mc.core import same, ensure

LEVEL = "fault_enumeration"
RULE = "every truncation point (each byte) of every file of a set of layouts, codecs and framings, read in every way; every " \
       "writer history up to a length with every choice of up to two storage writes refused; non-trivial: all"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = ["a refused storage write stores nothing; a partial write is completed before any write is refused",
               "a document whose own write() raised because the automatic flush failed may be stored or not"]


def build(layout, c, size, framed):
    """File bytes, and the offset of the end of each block, taken when flush() returned."""
    from docria.collection import MsgpackDocumentWriter, _BoundaryWriter
    out = coll.Keep()
    w = MsgpackDocumentWriter(_BoundaryWriter(out, boundary=12) if framed else out, num_docs_per_block=128, codec=coll.codec(c))
    ends, i = [], 0
    header = out.tell()
    for n in layout:
        for _ in range(n):
            w.write(coll.make(i, size))
            i += 1
        w.flush()
        ends.append(out.tell())
    w.close()
    return out.getvalue(), header, ends


_F = {}


def get(cfg):
    if cfg not in _F:
        from docria.collection import MsgpackDocumentReader
        layout, c, size, framed = cfg
        raw, header, ends = build(*cfg)
        refs = [d.ref for d in MsgpackDocumentReader(opened(io.BytesIO(raw), framed))]
        _F[cfg] = raw, header, ends, refs
    return _F[cfg]


def opened(f, framed):
    from docria.collection import _BoundaryReader
    return _BoundaryReader(f) if framed else f


def configs():
    t = core.thorough()
    for c in coll.codecs():
        yield (2, 1, 2), c, 0, False
    yield (1,), "none", 0, False
    yield (1, 1, 1, 1), "none", 0, False
    yield (1, 3), "zip", 300, False
    yield (2, 2), "none", 0, True
    if t:
        yield (3, 1, 2), "none", 700, False
        yield (2, 1, 1), "none", 1000, True
        yield (1, 2), "zip", 1500, True
        yield (1, 1), "none", 17000, False
    else:
        yield (1, 1, 1), "none", 1500, True


def gen_cuts():
    for cfg in configs():
        raw = get(cfg)[0]
        for cut in range(len(raw) + 1):
            yield cfg, cut


def collect(it, limit):
    """Everything an iteration gives until it ends or fails; then it is asked some more."""
    got, failed = [], 0
    while failed < 3:
        try:
            d = next(it)
        except Exception:
            failed += 1
            continue
        if d is None:
            failed += 1
            continue
        ensure(failed == 0, "a document is returned after the end or an error: %s", core.short(bytes(d.binary())))
        got.append(d)
        ensure(len(got) <= limit, "more documents than were written")
    return got


def run_cuts(case):
    from docria.collection import MsgpackDocumentReader
    cfg, cut = case
    layout, c, size, framed = cfg
    raw, header, ends, refs = get(cfg)
    whole = sum(1 for e in ends if e <= cut)
    ndocs = sum(layout[:whole])
    total = sum(layout)
    kinds = ("bytesio", "short3") if size < 1000 else ("bytesio",)
    for kind in kinds:
        def reader():
            return MsgpackDocumentReader(opened(coll.storage(kind, raw[:cut]), framed))
        try:
            r = reader()
        except Exception:
            ensure(cut < ends[0], "cut at %d of %d: the file cannot be opened although a block is complete", cut, len(raw))
            return (cfg, whole)
        got = collect(r, total)
        what = "cut at %d of %d (%s, %s)" % (cut, len(raw), c, kind)
        same(len(got), ndocs, "%s: documents of complete blocks, sequentially" % what)
        for i, d in enumerate(got):
            coll.check_doc(d, coll.data(i, size), "%s: document %d" % (what, i), coll.spec(i, size) if cut % 16 == 0 else None)
        # block by block
        r = reader()
        blocks = []
        try:
            for bl in r.blocks():
                blocks.append(collect(bl, total))
        except Exception:
            pass
        same([len(b) for b in blocks], list(layout[:whole]), "%s: complete blocks" % what)
        for i, d in enumerate(d for b in blocks for d in b):
            coll.check_doc(d, coll.data(i, size), "%s: document %d by blocks" % (what, i))
        # by reference, in an order that jumps
        r = reader()
        for i in list(range(total))[::-1] + list(range(0, total, 2)):
            try:
                d = r.get(refs[i])
            except Exception:
                ensure(i >= ndocs, "%s: document %d of a complete block cannot be retrieved", what, i)
                continue
            if d is None:
                ensure(i >= ndocs, "%s: document %d of a complete block cannot be retrieved", what, i)
                continue
            ensure(i < ndocs, "%s: document %d of an incomplete block is returned", what, i)
            coll.check_doc(d, coll.data(i, size), "%s: document %d by reference" % (what, i))
    return (cfg, whole, cut)


# -- refused writes

class Faulty(coll.Keep):
    def __init__(self, fail):
        super().__init__()
        self.fail, self.calls, self.failed = set(fail), 0, 0

    def write(self, b):
        k = self.calls
        self.calls += 1
        if k in self.fail:
            self.failed += 1
            raise OSError(28, "No space left on device")
        return super().write(b)


def gen_faults():
    t = core.thorough()
    for n in range(1, 8 if t else 7):
        for h in itertools.product("wfen", repeat=n):
            h = "".join(h)
            if n > 3 and "n" in h[1:]:
                continue
            for per in (1, 2, 3):
                for c in ("none",) if n > 3 else ("none", "zip"):
                    yield h, per, c, None
                if "n" not in h and (n < 6 or t):
                    # framed: documents so large that the blocks cross the boundaries
                    for size in (20, 1360, 4050) if n > 3 else (20, 1000, 1360, 2700, 4050, 4070, 9000):
                        yield h, per, "none", size


def run_faults(case):
    """All fault plans of one history: the calls a fault-free run makes bound the calls that can fail."""
    h, per, c, framed = case
    calls = drive(h, per, c, framed, ())
    for n in (1, 2) if len(h) > 5 else (1, 2, 3):
        for fail in itertools.combinations(range(calls + 2), n):
            core.step()
            drive(h, per, c, framed, fail)
    return case


def drive(h, per, c, framed, fail):
    from docria.collection import MsgpackDocumentWriter, _BoundaryWriter
    from docria.model import Document
    out = Faulty(fail)
    size = framed or 0
    what = "history %r, %d per block, %s, refused writes %s" % (h, per, c, fail)
    if framed:
        what += ", framed, %d bytes each" % size
    try:
        w = MsgpackDocumentWriter(_BoundaryWriter(out, boundary=12) if framed else out, num_docs_per_block=per, codec=coll.codec(c))
    except Exception:
        ensure(out.failed, "%s: the writer cannot be created", what)
        return out.calls
    ensure(not out.failed, "%s: a refused write of the header goes unreported", what)
    sent = []  # (bytes, certain)
    flushed = 0

    def op(fn):
        """Runs one request; True if it succeeded.  A refused storage write has to surface."""
        before = out.failed
        try:
            fn()
        except Exception as e:
            ensure(out.failed > before, "%s: unexpected %r", what, e)
            return False
        ensure(out.failed == before, "%s: a refused write goes unreported", what)
        return True

    for k, s in enumerate(h):
        if s in "we":
            i = k + 1
            sent.append([coll.data(i, size), True])
            if not op(lambda: w.write(coll.make(i, size) if s == "w" else coll.encoded(i, size))):
                sent[-1][1] = False
        elif s == "f":
            if op(w.flush):
                flushed = len(sent)
                # what a successful flush stored is in the storage
                check_stored(out.getvalue(), sent, what + ", after a successful flush", framed)
        elif s == "n":
            bad = Document()
            bad.props["x"] = object()
            core.refused(lambda: w.write(bad), "%s: a document that cannot be encoded" % what)
            core.refused(lambda: w.write("nothing"), "%s: a string" % what)
    out.fail = {f for f in out.fail if f < out.calls}  # the storage recovers
    if len(fail) % 2:
        op(w.flush)
        check_stored(out.getvalue(), sent, what + ", after the last flush", framed)
    ensure(op(w.close), "%s: close fails although the storage works", what)
    check_stored(out.getvalue(), sent, what + ", after closing", framed)
    return out.calls


def check_stored(raw, sent, what, framed=None):
    from docria.collection import MsgpackDocumentReader
    got = [bytes(d.binary()) for d in MsgpackDocumentReader(opened(io.BytesIO(raw), framed))]
    k = 0
    for i, (want, certain) in enumerate(sent):
        if k < len(got) and got[k] == want:
            k += 1
        else:
            ensure(not certain, "%s: document %d is missing or misplaced; stored %d of %d", what, i, len(got), len(sent))
    ensure(k == len(got), "%s: %d documents too many", what, len(got) - k)


# -- refused writes through `with`

def gen_with():
    for n in range(0, 5):
        for per in (1, 2, 3, 128):
            for fail in range(0, 10):
                yield n, per, fail


def run_with(case):
    from docria.collection import MsgpackDocumentWriter
    n, per, fail = case
    out = Faulty((fail,))
    ok = 0
    try:
        with MsgpackDocumentWriter(out, num_docs_per_block=per, codec=coll.codec("none")) as w:
            for i in range(n):
                w.write(coll.make(i))
                ok += 1
    except OSError:
        ensure(out.failed, "unexpected error")
        return case
    ensure(not out.failed, "%d documents, %d per block: the refused write %d goes unreported", n, per, fail)
    check_stored(out.getvalue(), [[coll.data(i), True] for i in range(n)], "with statement, refused write %d" % fail)
    return case


# -- storage that takes a part of what it is given

class Partial(coll.Keep):
    """Takes at most so many bytes per write (a cyclic pattern), and says how many; or takes all and says nothing."""

    def __init__(self, pattern):
        super().__init__()
        self.pattern, self.calls = pattern, 0

    def write(self, b):
        k = self.pattern[self.calls % len(self.pattern)]
        self.calls += 1
        core.step()
        if k is None:
            super().write(b)
            return None
        return super().write(bytes(b)[:k])


PATTERNS = [(1,), (2,), (3,), (1, 7, 2, 100, 4), (1000, 1), (4095,), (4096, 1), (10 ** 9, 5), (None,)]


def gen_partial():
    t = core.thorough()
    for pattern in PATTERNS:
        for layout in ((), (1,), (2, 1, 2), (1, 1, 1, 1), (3, 1)):
            for c in coll.codecs():
                for size in (0, 1360, 4060) + ((700, 9000) if t else ()):
                    for framed in (False, True):
                        yield pattern, layout, c, size, framed


def run_partial(case):
    from docria.collection import MsgpackDocumentWriter, _BoundaryWriter
    pattern, layout, c, size, framed = case
    want = build(layout, c, size, framed)[0] if layout else None
    out = Partial(pattern)
    w = MsgpackDocumentWriter(_BoundaryWriter(out, boundary=12) if framed else out, num_docs_per_block=128, codec=coll.codec(c))
    i = 0
    for n in layout:
        for _ in range(n):
            w.write(coll.make(i, size))
            i += 1
        w.flush()
    w.close()
    what = "storage that takes %s bytes per write, %s" % (pattern, case[1:])
    if want is not None:
        ensure(out.getvalue() == want, "%s: %d bytes stored, %d expected, or different ones", what, len(out.getvalue()), len(want))
    check_stored(out.getvalue(), [[coll.data(k, size), True] for k in range(i)], what, framed)
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "cuts", gen_cuts, run_cuts, bound="every byte of %d files" % len(list(configs())))
    core.enumerate_cases(rep, "refused-writes", gen_faults, run_faults, bound="histories to length %d, all choices of up to 2 refused writes (3 to length 5)" % (7 if t else 6))
    core.enumerate_cases(rep, "partial-writes", gen_partial, run_partial,
                         bound="%d patterns of partial writes x 5 layouts x every codec x sizes x framed or not" % len(PATTERNS))
    core.enumerate_cases(rep, "with", gen_with, run_with, bound="5 numbers of documents x 4 block sizes x every write refused")
