"""C32: Java and Python write the same document files, and Java reads them back by any mix of calls."""
import hashlib
import itertools
import zlib
from mc import coll, core, frame, java
from mc.core import Violation, ensure, same, short
from mc.java import S

LEVEL = "model_checking"
RULE = "every sequence of writing calls up to a depth (documents around segment edges, flushes, close) for every writer, codec and block size: the file after " \
       "every flush compared with a reference file and read back by Java and Python; every sequence of reading calls up to a depth on files of every block " \
       "layout written by Python: the outcome of each call compared with a model of blocks; every truncation of such files"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS

CODECS = {"NONE": "none", "DEFLATE": "zip", "DEFLATE_SQUARED": "zipsq"}
UNPACK = {"none": lambda x: x, "zip": zlib.decompress, "zipsq": lambda x: zlib.decompress(zlib.decompress(x)), "reverse": lambda x: x[::-1]}
PACK = {"none": lambda x: x, "zip": zlib.compress, "zipsq": lambda x: zlib.compress(zlib.compress(x)), "reverse": lambda x: x[::-1]}


def packed(v):
    import msgpack
    return msgpack.packb(v, use_bin_type=True)


def header(codec, per, advanced=False):
    return b"Dmf1" + packed(codec) + packed(per) + packed(advanced)


def parse(file):
    """Header and raw blocks of a file, by the format alone."""
    import msgpack
    same(file[:4], b"Dmf1", "magic")
    u = msgpack.Unpacker(raw=False)
    u.feed(file[4:])
    head = [u.unpack(), u.unpack(), u.unpack()]
    return head, list(u)


# ---------------------------------------------------------------------------------------------------------------- writing

def write_ops(depth):
    ops = [("raw", 0), ("raw", 3000), ("doc", 0), ("doc", 9000), ("flush",)]
    for n in range(depth + 1):
        for seq in itertools.product(ops, repeat=n):
            yield seq


def write_gen():
    depth = 6 if core.thorough() else 5
    for boundary, per, codec in [(0, 2, "NONE"), (12, 2, "NONE"), (12, 3, "DEFLATE_SQUARED"), (12, 1, "DEFLATE"), (0, 1, "DEFLATE_SQUARED"), (0, 3, "DEFLATE")]:
        for seq in write_ops(depth):
            yield boundary, per, codec, seq
    for boundary in (0, -1, 12, 13):
        for per in (0, 1, 4):
            for codec in (None, "NONE", "DEFLATE", "DEFLATE_SQUARED"):
                for seq in write_ops(2):
                    yield boundary, per, codec, seq
    # block ends around the edge of a segment
    lo, hi = (3940, 4110)
    for pad in range(lo, hi):
        for rest in ([], [("raw", 0)], [("flush",), ("raw", 0)], [("raw", 4050), ("raw", 0)]):
            for per in (1, 2):
                yield 12, per, "NONE", tuple([("raw", pad)] + rest)


def write_run(case):
    boundary, per, codec, seq = case
    core.step(len(seq))
    ops, docs_, k = [], [], 0
    blocks, current = [], []
    stages = []     # (blocks finished, everything flushed)
    n = per or 128

    def close_block():
        if current:
            blocks.append(list(current))
            current.clear()
    for op in seq + (("close",),):
        if op[0] in ("raw", "doc"):
            data = coll.data(k, op[1])
            ops.append([op[0], data])
            docs_.append((op[0], k, op[1], data))
            current.append(k)
            k += 1
            if len(current) == n:
                close_block()
            stages.append((len(blocks), False))
        else:
            ops.append([op[0]])
            close_block()
            stages.append((len(blocks), True))
    s = S()
    s.raw("writeHistory", boundary, per, codec, ops)
    res = java.good_all(s.run())[0]
    name = CODECS[codec or "DEFLATE"]
    final = res[-1][0]
    ensure(res[-1][1], "close() did not close the stream below")
    b = 18 if boundary < 0 else boundary
    plain = frame.unframe(final) if b else final
    if b:
        same(final[0], b, "boundary of the file")
    head, raw = parse(plain)
    same(head, [name, n, False], "header of the file")
    same(len(raw), len(blocks), "number of blocks")
    for got, want in zip(raw, blocks):
        body = UNPACK[name](got)
        import msgpack
        u = msgpack.Unpacker(raw=False)
        u.feed(body)
        members = list(u)
        same(len(members), len(want), "number of documents in a block")
        for m, i in zip(members, want):
            how, _, size, data = docs_[i]
            if how == "raw":
                same(m, data, "document %d in the file" % i)
            else:
                from docria.codec import MsgpackCodec
                from mc.checks.c31 import compare
                compare(MsgpackCodec.decode(m), coll.spec(i, size), "document %d in the file" % i)
        if name == "none":
            same(body, b"".join(packed(m) for m in members), "block of documents")
    # the whole file, markers included, and what is there after every call
    steps = [("w", header(name, n)), ("s",)]
    upto = []

    def cut(count):
        ops_ = list(steps)
        for r in raw[:count]:
            ops_ += [("w", packed(r)), ("s",)]
        return frame.frame(b, ops_) if b else b"".join(x[1] for x in ops_ if x[0] == "w")
    same(final, cut(len(raw)), "the file")
    for (count, flushed), (got, closed) in zip(stages, res):
        if flushed:
            same(got, cut(count), "the file after a flush with %d blocks" % count)
        else:
            ensure(final.startswith(got), "the file after a write is not the start of the whole file")
    # read by Python
    from docria.collection import MsgpackDocumentReader, _BoundaryReader
    import io
    src = io.BytesIO(final)
    got = [bytes(d.binary()) for d in MsgpackDocumentReader(_BoundaryReader(src) if b else src)]
    same(got, [m for r in raw for m in iterate(UNPACK[name](r))], "documents read by Python")
    # read by Java
    s = S()
    s.raw("readHistory", final, 0, bool(b), 0, None, [["nextRaw"]] * (len(got) + 2), False)
    out = java.good_all(s.run())[0]
    ensure(out[0][0] == "v", "Java cannot open the file: %s", out[0])
    same([o[1] for o in out[1:]], got + [None, None], "documents read by Java")
    return core.h64(case)


def iterate(body):
    import msgpack
    u = msgpack.Unpacker(raw=False)
    u.feed(body)
    return list(u)


# ---------------------------------------------------------------------------------------------------------------- reading

class Model:
    def __init__(self, blocks, ends):
        self.blocks, self.ends = blocks, ends
        self.at = 0
        self.pending = []

    def block(self):
        while self.at < len(self.blocks):
            self.at += 1
            if self.blocks[self.at - 1]:
                return list(self.blocks[self.at - 1])
        return None

    def one(self):
        if not self.pending:
            self.pending = self.block() or []
            if not self.pending:
                return None
        return self.pending.pop(0)

    def do(self, op):
        kind = op[0]
        if kind in ("next", "nextRaw"):
            return self.one()
        if kind == "skip":
            return self.one() is not None
        if kind == "skipn":
            n = 0
            while n < op[1] and self.one() is not None:
                n += 1
            return n
        if kind == "nextBlock":
            return self.block()
        if kind == "skipBlock":
            if self.at < len(self.blocks):
                self.at += 1
                return True
            return False
        if kind == "count":
            n = 0
            while self.one() is not None:
                n += 1
            return n
        raise ValueError(op)

    def position(self):
        return self.ends[self.at]


OPS = [("next",), ("nextBlock",), ("skip",), ("skipn", 0), ("skipn", 2), ("skipn", 3), ("skipBlock",), ("count",)]
_FILES = {}


def file(layout, codec, framed, size=0):
    """A file written by Python with the given numbers of documents per block (0 made by hand), and where its blocks end."""
    key = (layout, codec, framed, size)
    if key not in _FILES:
        if 0 in layout or codec == "reverse":
            raw, i = header(codec, 4), 0
            blocks = []
            for n in layout:
                body = b"".join(packed(coll.data(i + k, size)) for k in range(n))
                blocks.append(list(range(i, i + n)))
                i += n
                raw += packed(PACK[codec](body))
        else:
            raw, blocks = coll.write_file(layout, codec, size=size)
        head, parts = parse(raw)
        ends = [len(header(head[0], head[1]))]
        for p in parts:
            ends.append(ends[-1] + len(packed(p)))
        if framed:
            raw = frame.frame(12, [("w", raw)])
        _FILES[key] = raw, blocks, ends
    return _FILES[key]


def legal(seq, layout):
    """skipBlock is told only between blocks."""
    if ("skipBlock",) not in seq:
        return True
    if 0 in layout:
        return False
    m = Model([list(range(n)) for n in layout], [0] * (len(layout) + 1))
    for op in seq:
        if op[0] == "skipBlock" and m.pending:
            return False
        m.do(op)
    return True


def read_gen():
    t = core.thorough()
    depth = 6 if t else 5
    layouts = [(), (1,), (3,), (1, 2), (2, 1, 1), (1, 3, 2), (2, 0, 1), (0, 0), (1, 0)]
    for layout in layouts:
        for n in range(1, depth + 1):
            for seq in itertools.product(OPS, repeat=n):
                if legal(seq, layout):
                    for kind in (0, 1):
                        yield layout, "zip" if n == 2 else "none", False, 0, 0, None, seq, False, kind
                        if ("nextBlock",) in seq:
                            yield layout, "none", False, 0, 0, None, seq, True, kind
    for layout in ((2, 1, 1), (1, 3, 2), (3, 4)):
        for codec, fn in (("none", None), ("zip", None), ("zipsq", None), ("reverse", "reverse"), ("zip", "zip"), ("none", "none"), ("lzma", None), ("reverse", None)):
            for framed in (False, True):
                for size in (0, 900, 4500):
                    for chunk in (0, 1, 1000):
                        for kind in (0, 1):
                            for seq in itertools.product([("next",), ("nextBlock",), ("skipn", 2)], repeat=3):
                                yield layout, codec, framed, size, chunk, fn, seq, False, kind


def shown(kind, op, docs_, size):
    """What the bridge shows of documents."""
    one = lambda i: coll.data(i, size) if kind == 1 or op == "nextRaw" else {k: str(v) for k, v in coll.spec(i, size)[0].items()}
    if isinstance(docs_, list):
        return [one(i) for i in docs_]
    return None if docs_ is None else one(docs_)


def read_run(case):
    layout, codec, framed, size, chunk, fn, seq, late, kind = case
    core.step(len(seq))
    raw, blocks, ends = file(layout, codec, framed, size)
    s = S()
    s.raw("readHistory", raw, kind, framed, chunk, fn, [["nextRaw" if op == ("next",) and kind == 0 and k % 2 else op[0]] + list(op[1:]) for k, op in enumerate(seq)], late)
    out = java.good_all(s.run())[0]
    if codec not in ("none", "zip", "zipsq") and fn is None:
        ensure(out[0][0] == "e", "a file compressed with %s, which Java does not know, was opened", codec)
        return core.h64(case)
    ensure(out[0][0] == "v", "the file cannot be opened: %s", out[0])
    if kind == 1:
        same(out[0][1], ends[0], "position after opening")
    m = Model(blocks, ends)
    for k, (op, got) in enumerate(zip(seq, out[1:])):
        want = m.do(op)
        if op[0] in ("next", "nextBlock"):
            want = shown(kind, "nextRaw" if kind == 0 and k % 2 and op[0] == "next" else op[0], want, size)
        what = "%s (call %d of %s)" % (op[0], k + 1, short(seq))
        ensure(got[0] == "v", "%s failed: %s", what, got[1])
        same(got[1], want, what)
        if kind == 1:
            same(got[2], m.position(), "position after " + what)
    return core.h64(case)


# ---------------------------------------------------------------------------------------------------------------- damaged and odd files

def cut_gen():
    for layout in ((2, 1), (1, 1, 2)):
        for codec in ("none", "zip", "zipsq"):
            for framed in (False, True):
                for size in (0, 3000):
                    raw, _, ends = file(layout, codec, framed, size)
                    if size == 0 or codec == "none" and framed:
                        for cut in range(len(raw)):
                            if size == 0 or cut < 40 or cut % 97 == 0 or abs(cut % 4096 - 4) < 12 or min(abs(cut - e) for e in ends) < 12:
                                for kind in (0, 1):
                                    yield layout, codec, framed, size, cut, kind


def cut_run(case):
    layout, codec, framed, size, cut, kind = case
    raw, blocks, ends = file(layout, codec, framed, size)
    logical = len(frame.unframe(raw[:cut])) if framed and cut else cut
    total = sum(layout)
    s = S()
    s.raw("readHistory", raw[:cut], kind, framed, 0, None, [["next"]] * (total + 1), False)
    out = java.good_all(s.run())[0]
    if logical < ends[0]:
        ensure(out[0][0] == "e", "a file that ends in its header was opened")
        return core.h64(case)
    # a file cut inside a marker is refused as soon as the marker is reached, which may be long before its documents are asked for
    in_marker = framed and cut >= 4096 and cut % 4096 in (1, 2, 3)
    if out[0][0] == "e" and in_marker:
        return core.h64(case)
    if out[0][0] == "e":
        raise Violation("a file with a whole header cannot be opened: %s" % out[0][1])
    whole = [i for b, e in zip(blocks, ends[1:]) if e <= logical for i in b]
    got = []
    for o in out[1:]:
        if o[0] == "e" or o[1] is None:
            break
        got.append(o[1])
    want = shown(kind, "next", whole, size)
    same(got, want[:len(got)] if in_marker else want, "documents of a file cut to %d of %d bytes" % (cut, len(raw)))
    return core.h64(case)


def odd_gen():
    for k in range(4):
        for b in (0, 0x20, 0xff):
            yield ("magic", k, b)
    yield ("advanced",)
    for name in ("bzip2", "lzma", "ZIP", "", "zip ", "Zip", "none\x00"):
        yield ("codec", name)
    for per in (0, -1, -128):
        yield ("per", per)


def odd_run(case):
    good = file((1,), "none", False)[0]
    if case[0] == "per":
        res = java.script([[None, "raw", "writeHistory", 0, case[1], "NONE", []]])
        if case[1]:
            ensure(isinstance(res[0], java.JavaError), "a writer with %d documents per block was made", case[1])
        return core.h64(case)
    if case[0] == "magic":
        raw = bytearray(good)
        if raw[case[1]] == case[2]:
            return core.h64(case)
        raw[case[1]] = case[2]
    elif case[0] == "advanced":
        raw = header("none", 4, True) + good[len(header("none", 128)):]
    else:
        raw = header(case[1], 4) + good[len(header("none", 128)):]
    for kind in (0, 1):
        out = java.good_all(java.script([[None, "raw", "readHistory", bytes(raw), kind, False, 0, None, [["next"]], False]]))[0]
        ensure(out[0][0] == "e", "a file with an unknown header was opened: %s", short(bytes(raw)))
    return core.h64(case)


BUFFER_OPS = [("one",), ("part", 0, 0), ("part", 1, 1), ("part", 0, 2), ("part", 2, 3), ("part", 0, 5), ("all", 4), ("close",), ("ask",)]


def buffer_gen():
    t = core.thorough()
    for size in (1, 2, 3, 4):
        for n in range(6 if t else 5):
            for ops in itertools.product(range(len(BUFFER_OPS)), repeat=n):
                if not ops or ops[-1] != len(BUFFER_OPS) - 1:
                    yield (size, [BUFFER_OPS[k] for k in ops])
    for size in (None, 1024, 1500):
        edge = size or 1024
        for first in (0, 1, edge - 1, edge, edge + 1, 2 * edge):
            for second in (0, 1, edge - 1, edge, edge + 1, 3 * edge - first, 3 * edge + 1):
                yield (size, [("part", 0, first), ("one",), ("all", second), ("ask",), ("one",)])


def buffer_run(case):
    size, ops = case
    s = S()
    s.new("buf", "ByteOutputBuffer", *([] if size is None else [size]))
    want, tell, checks = b"", 0, []
    for op in ops:
        data = bytes((tell + k) % 251 for k in range(op[-1] if op[0] in ("part", "all") else 1))
        if op[0] == "one":
            s.call("buf", "write", data[0] - 256 if tell % 2 else data[0])
            want += data
        elif op[0] == "all":
            s.call("buf", "write", data)
            want += data
        elif op[0] == "part":
            s.call("buf", "write", b"\xee" * op[1] + data + b"\xdd", op[1], len(data))
            want += data
        elif op[0] == "close":
            s.call("buf", "flush")
            s.call("buf", "close")
        else:
            checks.append((s.call("buf", "toByteArray"), want))
        tell += len(data)
    checks += [(s.call("buf", "toByteArray"), want), (s.call("buf", "toByteArray"), want), (s.call("buf", "length"), len(want))]
    core.step(len(s.ops))
    res = java.good_all(s.run())
    for at, expect in checks:
        ensure(res[at] == expect, "a buffer of size %s holds %s after %s, written were %s", size, short(res[at], 300), ops, short(expect, 300))
    return core.h64(case)


def deflate_gen():
    edges = (0, 1, 2, 15, 255, 256, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4096, 5000, 16384, 40000)
    for n in edges:
        for kind in ("zero", "count", "noise"):
            yield (n, kind)
    if core.thorough():
        for n in range(900, 3200, 7):
            yield (n, "noise")


def deflate_run(case):
    n, kind = case
    data = b"\0" * n if kind == "zero" else bytes(k % 251 for k in range(n)) if kind == "count" else \
        b"".join(hashlib.sha256(b"%d" % k).digest() for k in range(n // 32 + 1))[:n]
    out = java.good_all(java.script([[None, "static", "DeflateCodec", "compress", data], [None, "static", "DeflateCodec", "decompress", zlib.compress(data)],
                                     [None, "static", "DeflateCodec", "decompress", zlib.compress(data, 0)]]))
    same(zlib.decompress(out[0]) == data, True, "Python decompresses what Java compressed from %d bytes (%s)" % case)
    same(out[1] == data, True, "Java decompresses what Python compressed from %d bytes (%s)" % case)
    same(out[2] == data, True, "Java decompresses what Python stored from %d bytes (%s)" % case)
    back = java.good_all(java.script([[None, "static", "DeflateCodec", "decompress", out[0]]]))
    same(back[0] == data, True, "Java decompresses what Java compressed from %d bytes (%s)" % case)
    return core.h64(case)


def main(rep):
    if not java.available(rep) or not java.compile_java(rep):
        return
    core.enumerate_cases(rep, "writing", write_gen, write_run, bound="all sequences of up to %d writing calls, all block ends around a segment edge" % (6 if core.thorough() else 5))
    core.enumerate_cases(rep, "reading", read_gen, read_run, bound="all sequences of up to %d reading calls on files of 9 block layouts" % (6 if core.thorough() else 5))
    core.enumerate_cases(rep, "truncated files", cut_gen, cut_run, bound="every truncation of small files, those around edges of large ones")
    core.enumerate_cases(rep, "odd headers", odd_gen, odd_run, bound="every magic byte, unknown codecs, advanced mode, bad block sizes")
    core.enumerate_cases(rep, "output buffer", buffer_gen, buffer_run, bound="all sequences of up to %d calls on buffers of up to 4 bytes, all edges of large ones" % (5 if core.thorough() else 4))
    core.enumerate_cases(rep, "compression", deflate_gen, deflate_run, bound="lengths around the edges of the buffers, compressible and not")
