"""Collections: documents as data, writing them in every way, storages under control of the check."""
import io
import os
from . import core, docs
from .core import ensure, same, Violation


def spec(i, size=0):
    """Small documents, pairwise different, of different kinds."""
    kind = i % 4
    props = {"id": i, "key": "k%d" % (i % 3)}
    if size:
        props["pad"] = "x" * size
    if kind == 0:
        return (props, (), ())
    if kind == 1:
        return (props, (("main", "text %d \U0001F600" % i),), ())
    if kind == 2:
        return (props, (("main", "ab%dcd" % i),), (("l", (("s", ("span", "main")), ("r", ("ref", "l"))),
                                                   ({"s": ("span", "main", 1, 3)}, {"r": ("ref", "l", 0)})),))
    return (props, (), (("l", (("v", ("i32", 5)),), tuple({"v": i + k} for k in range(3))),))


def make(i, size=0):
    return docs.build(spec(i, size))


def encoded(i, size=0):
    from docria.codec import MsgpackDocument
    return MsgpackDocument(make(i, size))


_BYTES = {}


def data(i, size=0):
    """The encoding of document i; what is read back has to be exactly this."""
    if (i, size) not in _BYTES:
        from docria.codec import MsgpackCodec
        _BYTES[(i, size)] = MsgpackCodec.encode(make(i, size))
    return _BYTES[(i, size)]


def codec(name):
    from docria.collection import get_codec
    return get_codec(name)


def codecs():
    from docria.collection import get_codec
    return [n for n in ("none", "zip", "bzip2", "zipsq", "lzma", "lz4", "zstd", "zstd:high", "zstd:ultra") if get_codec(n, True) is not None]


class Keep(io.BytesIO):
    """Keeps its contents after the writer closed it, and remembers that it was closed."""
    done = False

    def close(self):
        self.done = True


class ShortReads(io.RawIOBase):
    """Readable, seekable storage that returns fewer bytes than asked for, by a fixed pattern."""

    def __init__(self, raw, pattern):
        super().__init__()
        self.raw, self.pattern, self.pos, self.k = raw, pattern, 0, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.raw) - self.pos
        else:
            n = max(1 if n else 0, min(n, self.pattern[self.k % len(self.pattern)]))
            self.k += 1
        out = self.raw[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else (self.pos + pos if whence == 1 else len(self.raw) + pos)
        return self.pos

    def tell(self):
        return self.pos


SHORT = {"short1": (1,), "short3": (3,), "short-mixed": (1, 7, 2, 100, 4), "short-large": (1000, 1)}


def storage(kind, raw, path=None):
    if kind == "bytesio":
        return io.BytesIO(raw)
    if kind in SHORT:
        return ShortReads(raw, SHORT[kind])
    if kind in ("file", "unbuffered", "path"):
        with open(path, "wb") as f:
            f.write(raw)
        if kind == "path":
            return path
        return open(path, "rb", buffering=0 if kind == "unbuffered" else -1)
    raise AssertionError(kind)


def scratch_file(name):
    return os.path.join(core.SCRATCH, "%s-%d" % (name, os.getpid()))


def write_file(layout, codec_name="none", per_block=128, size=0):
    """Bytes of a collection whose blocks hold the given numbers of documents; also the model of its blocks."""
    from docria.collection import MsgpackDocumentWriter
    out = Keep()
    w = MsgpackDocumentWriter(out, num_docs_per_block=per_block, codec=codec(codec_name))
    i, blocks = 0, []
    for n in layout:
        blocks.append(list(range(i, i + n)))
        for _ in range(n):
            w.write(make(i, size))
            i += 1
        w.flush()
    w.close()
    return out.getvalue(), blocks


def check_doc(doc, want, what, spec_=None):
    """A document read from a collection against the bytes that were written."""
    from docria.codec import MsgpackDocument
    ensure(isinstance(doc, MsgpackDocument), "%s: got %r", what, doc)
    got = doc.binary()
    if bytes(got) != want:
        raise Violation("%s: got document %s, expected %s" % (what, core.short(bytes(got)), core.short(want)))
    if spec_ is not None:
        docs.compare(doc.document(), spec_, what)
        same(doc.properties(), dict(spec_[0]), what + ": properties")
