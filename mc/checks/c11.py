"""C11: boundary-framed streams carry exactly the bytes written."""
import io
import itertools
import mmap
import struct
from mc import core, coll, frame
from mc.core import same, ensure, refused

LEVEL = "model_checking"
RULE = "all sequences of writes and splits over sizes around the boundary, all positions of one cut between two writes, all " \
       "sequences of seeks and reads over offsets and sizes around the boundary, every offset; reference: a framing function " \
       "of ten lines; collections: documents of every size around the boundary.  states: distinct streams or outcomes, " \
       "transitions: operations executed"
DEADLINE = {"quick": 300, "thorough": 820}


def write(boundary, ops, kind="bytes"):
    from docria.collection import _BoundaryWriter
    out = coll.Keep()
    w = _BoundaryWriter(out, boundary=boundary)
    conv = {"bytes": bytes, "bytearray": bytearray, "memoryview": memoryview}[kind]
    for op in ops:
        core.step()
        if op[0] == "s":
            w.split()
        else:
            w.write(conv(op[1]))
    w.close()
    ensure(out.done, "close() leaves the storage open")
    return out.getvalue()


def compare(got, want, what):
    if got != want:
        k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise core.Violation("%s: differs at byte %d (length %d, expected %d): got %s, expected %s" %
                             (what, k, len(got), len(want), got[k:k + 12].hex(), want[k:k + 12].hex()))


def around(B):
    return [0, 1, 2, 3, 4, 5, B - 8, B - 6, B - 5, B - 4, B - 3, B - 2, B - 1, B, B + 1, B + 3, B + 4, 2 * B - 9, 2 * B - 5, 2 * B - 4, 2 * B]


def gen_writes():
    t = core.thorough()
    S = around(4096)
    for n in (1, 2, 3):
        for sizes in itertools.product(S if n < 3 or t else S[:1] + S[1:20:3] + S[10:13], repeat=n):
            for splits in itertools.product((0, 1), repeat=n + 1):
                yield 12, sizes, splits
    for b in (13, 14, 16, 17, 20):
        for sizes in itertools.product(around(1 << b)[4:19:2] if not t else around(1 << b), repeat=2 if b < 16 else 1):
            for splits in ((0,) * (len(sizes) + 1), (1,) * (len(sizes) + 1), (0,) + (1,) * len(sizes)):
                yield b, sizes, splits


def run_writes(case):
    b, sizes, splits = case
    ops, at = [], 0
    data = frame.pattern(sum(sizes) + 5)
    for n, s in zip(sizes, splits):
        if s:
            ops.append(("s",))
        ops.append(("w", data[at:at + n]))
        at += n
    if splits[-1]:
        ops += [("s",), ("s",), ("w", data[at:at + 5])]
        at += 5
    want = frame.frame(b, ops)
    for kind in ("bytes", "bytearray", "memoryview"):
        compare(write(b, ops, kind), want, "boundary %d, writes %s, splits %s (%s)" % (b, sizes, splits, kind))
    compare(frame.unframe(want), data[:at], "reference model")
    r = reader(want)
    compare(r.read(), data[:at], "reading back all of it")
    same(r.read(5), b"", "reading at the end")
    return core.h64(want)


def reader(raw, kind="bytesio"):
    from docria.collection import _BoundaryReader
    return _BoundaryReader(coll.storage(kind, raw, coll.scratch_file("bnd")))


def gen_cut():
    for total in (4090, 4095, 4096, 4100, 8187, 8190):
        for i in range(total + 1):
            yield total, i


def run_cut(case):
    total, i = case
    data = frame.pattern(total)
    for split in (False, True):
        ops = [("w", data[:i])] + [("s",)] * split + [("w", data[i:])]
        compare(write(12, ops), frame.frame(12, ops), "%d bytes cut at %d%s" % (total, i, ", split" if split else ""))
    return case


def gen_bytewise():
    for start in (4080, 8180, 12270):
        for step in (1, 2, 3, 4, 5, 7):
            for split in range(0, 20):
                yield start, step, split


def run_bytewise(case):
    start, step, split = case
    data = frame.pattern(start + 40)
    ops = [("w", data[:start])]
    for k, i in enumerate(range(start, len(data), step)):
        if k == split:
            ops.append(("s",))
        ops.append(("w", data[i:i + step]))
    compare(write(12, ops), frame.frame(12, ops), "writes of %d bytes from %d on, split after %d" % (step, start, split))
    return case


# -- reading

TOTALS = [0, 1, 4094, 4095, 4096, 4097, 8186, 8187, 8188, 12279, 12280, 12500]


def gen_every():
    for total in (4095, 4097, 8187, 8191, 12500):
        for lo in range(0, total + 1, 100):
            yield total, lo


def run_every(case):
    total, lo = case
    data = frame.pattern(total)
    raw = frame.frame(12, [("w", data)])
    r = reader(raw)
    for kind in ("bytesio", "short-mixed"):
        r = reader(raw, kind)
        for off in range(lo, min(lo + 100, total + 1)):
            for n in (1, 2, 5, 4091, 4092, 4093, 5000):
                core.step()
                same(r.seek(off), off, "seek")
                compare(r.read(n), data[off:off + n], "reading %d at %d of %d (%s)" % (n, off, total, kind))
                same(r.tell(), min(off + n, total), "tell")
    return case


def offsets(total):
    return sorted({o for o in (-5, -1, 0, 1, 4093, 4094, 4095, 4096, 4099, 8186, 8187, 8188, total - 1, total, total + 3) if o <= total + 3})


def gen_seqs():
    t = core.thorough()
    sizes = (0, 1, 4, 4092, 4095, -1) if not t else (0, 1, 3, 4, 5, 4091, 4092, 4095, 4096, -1, None)
    for total in TOTALS:
        ops = [("seek", o) for o in offsets(total)] + [("read", n) for n in sizes]
        for h in itertools.product(ops, repeat=3):
            yield total, "bytesio", h
    for kind in ("short1", "short3", "short-mixed", "unbuffered"):
        for total in (4097, 8188):
            ops = [("seek", o) for o in (0, 4094, 4095, 8186, total)] + [("read", n) for n in (1, 4, 4095, -1)]
            for h in itertools.product(ops, repeat=4 if t else 3):
                yield total, kind, h


def run_seqs(case):
    total, kind, h = case
    data = frame.pattern(total)
    r = reader(frame.frame(12, [("w", data)]), kind)
    ensure(r.readable() and r.seekable() and not r.writable(), "wrong capabilities")
    pos = 0
    out = []
    for op in h + (("read", 7), ("read", -1)):
        core.step()
        if op[0] == "seek" and op[1] < 0:
            refused(lambda: r.seek(op[1]), "seek to %d" % op[1])
        elif op[0] == "seek":
            same(r.seek(op[1]), op[1], "seek")
            pos = op[1]
        else:
            n = op[1]
            want = data[pos:] if n is None or n < 0 else data[pos:pos + n]
            got = r.read() if n == -1 and total % 2 else r.read(n)
            ensure(isinstance(got, bytes), "read gives %r", type(got))
            compare(got, want, "read(%s) at %d of %d in %s (%s)" % (n, pos, total, h, kind))
            pos += len(want)
            out.append(len(got))
        same(r.tell(), pos, "tell after %s in %s" % (op, h))
    r.close()
    return (total, kind, tuple(out))


def gen_sizes():
    for b in range(0, 256):
        yield b


def run_sizes(b):
    """Every boundary byte: 12 to 30 work (checked with streams spanning several segments up to 2^20), others are refused."""
    from docria.collection import _BoundaryWriter, _BoundaryReader
    if not 12 <= b <= 30:
        refused(lambda: _BoundaryWriter(io.BytesIO(), boundary=b), "boundary size %d" % b)
        refused(lambda: _BoundaryReader(io.BytesIO(bytes([b]) + b"abc")), "boundary size %d" % b)
        return None
    B = 1 << b
    if b <= (22 if core.thorough() else 19):
        data = frame.pattern(3 * B)
        ops = [("w", data[:B // 2]), ("s",), ("w", data[B // 2:])]
        raw = write(b, ops)
        compare(raw, frame.frame(b, ops), "boundary size %d" % b)
        r = reader(raw)
        compare(r.read(), data, "reading with boundary size %d" % b)
        for off in (B - 2, B - 1, B, 2 * B - 6, 2 * B - 5, 2 * B - 4):
            r.seek(off)
            compare(r.read(10), data[off:off + 10], "reading at %d with boundary size %d" % (off, b))
    else:
        ops = [("w", b"abc"), ("s",), ("w", b"defg")]
        compare(write(b, ops), frame.frame(b, ops), "boundary size %d" % b)
        r = reader(frame.frame(b, ops))
        compare(r.read(100), b"abcdefg", "reading with boundary size %d" % b)
    return b


class Sink(io.RawIOBase):
    """Takes gigabytes: remembers only the bytes of the markers."""

    def __init__(self, B):
        super().__init__()
        self.B, self.pos, self.marks = B, 0, {}

    def writable(self):
        return True

    def write(self, b):
        n = len(b)
        for p in range(max(1, self.pos // self.B) * self.B, self.pos + n, self.B):
            for k in range(p, p + 4):
                if self.pos <= k < self.pos + n:
                    self.marks.setdefault(p, []).append(b[k - self.pos])
        self.pos += n
        return n


class Sparse(io.RawIOBase):
    """A stream of gigabytes that is zero except around the segment boundaries."""

    def __init__(self, boundary, data_at):
        super().__init__()
        self.b, self.at, self.pos = boundary, data_at, 0

    def read(self, n=-1):
        out = bytes(self.at(self.pos + k) for k in range(n))
        self.pos += n
        return out

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        self.pos = pos
        return pos


def gen_huge():
    yield "far", 30
    yield "far-split", 30
    for b in range(12, 31):
        yield "sparse", b


def run_huge(case):
    """Distances beyond the reach of a 32 bit marker are capped; offsets beyond 2^32 are mapped exactly."""
    from docria.collection import _BoundaryWriter, _BoundaryReader
    kind, b = case
    B = 1 << b
    if kind == "sparse":
        def at(p):  # raw byte at p: data byte is its data offset modulo 251, marker bytes are 255
            if p == 0:
                return b
            if p % B < 4 and p >= B:
                return 255
            return (p - 1 - 4 * (p // B)) % 251
        r = _BoundaryReader(Sparse(b, at))
        for seg in (1, 2, 3, 5, 8):
            first = B - 1 + (seg - 1) * (B - 4)  # data offset of the first byte of segment `seg`
            for off in range(first - 6, first + 7):
                for n in (1, 5, 13):
                    r.seek(off)
                    compare(r.read(n), bytes((off + k) % 251 for k in range(n)), "reading %d at %d, boundary size %d" % (n, off, b))
        return case
    big = memoryview(mmap.mmap(-1, B))
    sink = Sink(B)
    w = _BoundaryWriter(sink, boundary=b)
    markers = []
    split = 1
    for k in range(4):
        w.write(big)
        if kind == "far-split" and k == 1:
            split = sink.pos
            w.split()
    marks = {p: bytes(m) for p, m in sink.marks.items()}
    total = 1 + 4 * B
    p = B
    while p < total:
        if p >= B * 4:
            break
        sp = split if kind == "far-split" and p >= split else 1
        want = struct.pack(">i", max(sp - p, -0x80000000))
        same(marks.get(p), want, "marker at %d" % p)
        p += B
    same(sink.pos, 1 + 4 * B + 4 * 4, "length of the stream")
    big.release()
    return case


# -- collections

def gen_coll():
    t = core.thorough()
    near = list(range(4000, 4097, 1)) if t else list(range(4016, 4084))
    for pad in near + list(range(0, 40)) + list(range(1990, 2060, 1 if t else 3)) + [8100, 8150, 8180, 8190, 12200, 20000]:
        for layout in ((1, 1, 1), (2, 1), (1,)):
            for c in ("none",) if pad > 40 else ("none", "zip"):
                yield pad, layout, c
    for n in (50, 200):
        for per in (1, 3, 128):
            yield n, per, "count"


def run_coll(case):
    from docria.collection import MsgpackDocumentWriter, MsgpackDocumentReader, _BoundaryWriter
    if case[2] == "count":
        n, per, _ = case
        layout, pad, c = None, 20, "none"
    else:
        pad, layout, c = case
    out = coll.Keep()
    w = MsgpackDocumentWriter(_BoundaryWriter(out, boundary=12), num_docs_per_block=per if layout is None else 128, codec=coll.codec(c))
    starts = []
    plain = coll.Keep()
    w2 = MsgpackDocumentWriter(plain, num_docs_per_block=per if layout is None else 128, codec=coll.codec(c))
    i = 0
    if layout is None:
        for i in range(n):
            w.write(coll.make(i, pad))
            w2.write(coll.make(i, pad))
        total = n
    else:
        for k in layout:
            starts.append(out.tell())
            for _ in range(k):
                w.write(coll.make(i, pad))
                w2.write(coll.make(i, pad))
                i += 1
            w.flush()
            w2.flush()
        total = i
    w.close()
    w2.close()
    raw = out.getvalue()
    compare(frame.unframe(raw), plain.getvalue(), "content of the framed collection, %s" % (case,))
    if starts:
        p = 4096
        while p < len(raw):
            d = struct.unpack(">i", raw[p:p + 4])[0]
            latest = max(s for s in starts if s <= p)
            same(p + d, latest, "start of block given by the marker at %d, %s" % (p, case))
            p += 4096
    want = [coll.data(k, pad) for k in range(total)]
    for kind in ("bytesio", "short-mixed"):
        r = MsgpackDocumentReader(reader(raw, kind))
        got = list(r)
        same(len(got), total, "documents read through the framing (%s)" % kind)
        for k, d in enumerate(got):
            core.step()
            coll.check_doc(d, want[k], "document %d through the framing" % k)
        plainrefs = [d.ref for d in MsgpackDocumentReader(io.BytesIO(plain.getvalue()))]
        same([d.ref for d in got], plainrefs, "positions in the framed collection")
        for k in list(range(total))[::-1] + list(range(total))[::3]:
            coll.check_doc(r.get(got[k].ref), want[k], "document %d by reference through the framing" % k)
        r = MsgpackDocumentReader(reader(raw, kind))
        k = 0
        for bl in r.blocks():
            for d in bl:
                coll.check_doc(d, want[k], "document %d by blocks through the framing" % k)
                k += 1
        same(k, total, "documents by blocks through the framing")
        nxt = MsgpackDocumentReader(reader(raw, kind))
        coll.check_doc(nxt.get(got[total // 2].ref), want[total // 2], "retrieval from a fresh reader through the framing")
        rest = list(nxt)
        same(len(rest), total - total // 2 - 1, "documents after a retrieval through the framing")
        for d, w_ in zip(rest, want[total // 2 + 1:]):
            coll.check_doc(d, w_, "reading on after a retrieval through the framing")
    return core.h64(raw)


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "writes", gen_writes, run_writes, bound="all sequences of up to 3 writes of 21 sizes around the boundary, splits anywhere")
    core.enumerate_cases(rep, "one-cut", gen_cut, run_cut, bound="two writes, cut at every byte of 6 lengths")
    core.enumerate_cases(rep, "small-writes", gen_bytewise, run_bytewise, bound="small writes across 3 boundaries")
    core.enumerate_cases(rep, "every-offset", gen_every, run_every, bound="every offset of 5 streams x 7 read sizes x 2 storages")
    core.enumerate_cases(rep, "reads", gen_seqs, run_seqs, bound="all sequences of %d seeks and reads around the boundaries of 12 streams" % 3)
    core.enumerate_cases(rep, "boundary-sizes", gen_sizes, run_sizes, bound="all 256 values")
    core.enumerate_cases(rep, "far", gen_huge, run_huge, bound="distances to 4 GiB, offsets to 8 GiB", workers=2)
    core.enumerate_cases(rep, "collections", gen_coll, run_coll, bound="documents of every size around the boundary")
