"""C38: collection files name the compression they need, through every history of registered codecs."""
import io
import os
import zlib
from mc import core, coll
from mc.core import ensure, same, refused, Violation

LEVEL = "model_checking"
RULE = "breadth-first search over sequences of registering, replacing and removing codecs, writing and reading files; readers and writers kept open across changes; " \
       "all headers with one part changed; reference: a dictionary of names"
DEADLINE = {"quick": 300, "thorough": 820}

NAMES = ["a", "b", "zip"]
BUILTIN = {}


def transform(tag):
    """A codec that only reads what it wrote."""
    mark = b"<%d>" % tag

    def compress(data):
        return mark + bytes(255 - c for c in data)

    def decompress(data):
        if not data.startswith(mark):
            raise ValueError("not written by codec %d" % tag)
        return bytes(255 - c for c in data[len(mark):])
    return compress, decompress


TAGS = {k: transform(k) for k in (1, 2)}


def reset():
    """The registry as it is on import: it belongs to the process."""
    from docria.collection import get_codec, register_codec, unregister_codec
    if not BUILTIN:
        for n in coll.codecs():
            c = get_codec(n)
            BUILTIN[n] = (c.compress, c.decompress, c.name)
    for n in NAMES + ["c"]:
        if get_codec(n, True) is not None:
            unregister_codec(n)
    for n, (comp, dec, name) in BUILTIN.items():
        if get_codec(n, True) is None:
            register_codec(n, comp, dec, name)


class State:
    def __init__(self, cfg):
        reset()
        self.model = {"zip": ("zip", 0), "none": ("none", "none")}  # name -> (name in files, tag); 0: the real zip
        self.files = []      # (bytes, name in file, tag, documents)
        self.open = None     # (reader, documents left)
        self.writer = None   # (writer, storage, name in file, tag, documents)

    def ops(self):
        for n in NAMES:
            for tag in (1, 2):
                for alias in (None, "a", "b"):
                    if alias != n:
                        yield ("register", n, tag, alias)
            yield ("unregister", n)
            if len(self.files) < 2:
                yield ("write", n)
            if self.writer is None:
                yield ("open writer", n)
        if self.writer is not None:
            yield ("to writer",)
            yield ("close writer",)
        for k in range(len(self.files)):
            if self.open is None:
                yield ("open reader", k)
        if self.open is not None:
            yield ("read on",)

    def apply(self, op):
        from docria.collection import register_codec, unregister_codec, get_codec, MsgpackDocumentWriter
        if op[0] == "register":
            _, n, tag, alias = op
            args = (n,) + TAGS[tag] + ((alias,) if alias is not None else ())
            if n in self.model:
                refused(lambda: register_codec(*args), "registering a codec name again")
            else:
                register_codec(*args)
                self.model[n] = (alias or n, tag)
        elif op[0] == "unregister":
            if op[1] in self.model:
                unregister_codec(op[1])
                del self.model[op[1]]
            else:
                refused(lambda: unregister_codec(op[1]), "removing a codec that is not registered")
        elif op[0] in ("write", "open writer"):
            n = op[1]
            if n not in self.model:
                refused(lambda: get_codec(n), "asking for a codec that is not registered")
                return
            out = coll.Keep()
            w = MsgpackDocumentWriter(out, num_docs_per_block=2, codec=get_codec(n))
            name, tag = self.model[n]
            if op[0] == "write":
                for i in range(3):
                    w.write(coll.make(i))
                w.close()
                self.files.append((out.getvalue(), name, tag, [0, 1, 2]))
            else:
                self.writer = (w, out, name, tag, [])
        elif op[0] == "to writer":
            w, _, _, _, done = self.writer
            w.write(coll.make(len(done) % 4))
            done.append(len(done) % 4)
        elif op[0] == "close writer":
            w, out, name, tag, done = self.writer
            w.close()
            self.files.append((out.getvalue(), name, tag, list(done)))
            self.writer = None
        elif op[0] == "open reader":
            raw, name, tag, done = self.files[op[1]]
            r = self.reading(raw, name, tag, "opening a reader")
            if r is not None:
                self.open = (r, list(done))
        elif op[0] == "read on":
            r, left = self.open
            d = next(r, None)
            if left:
                ensure(d is not None, "an open reader ended early")
                same(d.binary(), coll.data(left.pop(0)), "document of an open reader")
            else:
                same(d, None, "an open reader at its end")

    def reading(self, raw, name, tag, what):
        """A reader, if the model says that the codec of the file is the registered one."""
        from docria.collection import MsgpackDocumentReader
        have = self.model.get(name)
        if have is None:
            refused(lambda: MsgpackDocumentReader(io.BytesIO(raw)), what + " of a file whose codec is not registered")
            return None
        if have[1] != tag:
            return None
        return MsgpackDocumentReader(io.BytesIO(raw))

    def key(self):
        return sorted(self.model.items()), self.files, self.open and self.open[1], self.writer and self.writer[2:]

    def observe(self):
        from docria.collection import get_codec, MsgpackDocumentReader
        for n in NAMES + ["none", "c"]:
            c = get_codec(n, no_except=True)
            if n in self.model:
                ensure(c is not None and c is get_codec(n), "codec %s is registered but not found", n)
                name, tag = self.model[n]
                same(c.name, name, "name of codec %s in files" % n)
                if tag in TAGS:
                    same(c.compress(b"\0a"), TAGS[tag][0](b"\0a"), "compression of codec %s" % n)
                    same(c.decompress(TAGS[tag][0](b"\0a")), b"\0a", "decompression of codec %s" % n)
            else:
                same(c, None, "codec %s, which is not registered" % n)
                refused(lambda: get_codec(n), "asking for codec %s, which is not registered" % n)
        for raw, name, tag, done in self.files:
            same(header_name(raw), name, "codec named by a file")
            r = self.reading(raw, name, tag, "reading")
            if r is not None:
                same([d.binary() for d in r], [coll.data(i) for i in done], "documents of a file")
            elif name in self.model:
                def wrong():
                    return [d.binary() for d in MsgpackDocumentReader(io.BytesIO(raw))]
                try:
                    got = wrong()
                except Exception:
                    got = []
                same(got, [], "documents of a file read with another codec")


def header_name(raw):
    import msgpack
    u = msgpack.Unpacker(raw=False)
    u.feed(raw[4:40])
    return u.unpack()


def gen_headers():
    for n in coll.codecs():
        for count in (0, 1, 3):
            yield n, count


def run_headers(case):
    """Every way to open a file whose header has one part changed."""
    import msgpack
    from docria.collection import MsgpackDocumentReader, MsgpackDocumentIO, DocumentIO, MsgpackDocumentWriter
    reset()
    name, count = case
    out = coll.Keep()
    w = MsgpackDocumentWriter(out, num_docs_per_block=2, codec=coll.codec(name))
    for i in range(count):
        w.write(coll.make(i))
    w.close()
    raw = out.getvalue()
    want = [coll.data(i) for i in range(count)]
    path = coll.scratch_file("c38")

    def readers(data):
        yield "MsgpackDocumentReader", lambda: MsgpackDocumentReader(io.BytesIO(data))
        yield "MsgpackDocumentIO.readfile", lambda: MsgpackDocumentIO.readfile(io.BytesIO(data))
        yield "DocumentIO.readfile", lambda: DocumentIO.readfile(io.BytesIO(data))
        with open(path, "wb") as f:
            f.write(data)
        yield "MsgpackDocumentReader of a path", lambda: MsgpackDocumentReader(path)
        yield "MsgpackDocumentIO.read", lambda: MsgpackDocumentIO.read(path)
        yield "DocumentIO.read", lambda: DocumentIO.read(path)

    def accepted(data, what):
        for how, r in readers(data):
            core.step()
            with r() as rd:
                got = [d.binary() if hasattr(d, "binary") else encode(d) for d in rd]
            same(got, want, "%s: documents by %s" % (what, how))

    def rejected(data, what):
        for how, r in readers(data):
            core.step()
            refused(r, "%s (%s)" % (what, how))

    try:
        u = msgpack.Unpacker(raw=False)
        u.feed(raw[4:])
        u.unpack()
        one = u.tell()
        u.unpack()
        two = u.tell()
        same(u.unpack(), False, "third part of the header")
        body = raw[4 + u.tell():]
        head = raw[4:4 + one]
        accepted(raw, "an unchanged file")
        for pos in range(4):
            for c in range(256):
                if c != raw[pos] and (c < 128 or c % 16 == 0):
                    rejected(raw[:pos] + bytes([c]) + raw[pos + 1:], "magic %r" % (raw[:pos] + bytes([c]) + raw[pos + 1:4]))
        for n in range(4 + u.tell()):
            rejected(raw[:n], "a file of %d bytes" % n)
        for other in ("", "a", "ZIP", "zip ", "none\0", "no", 5, None, True, b"zip", [name], {name: 1}):
            rejected(raw[:4] + msgpack.packb(other, use_bin_type=True) + raw[4 + one:], "the codec %r" % (other,))
        rejected(raw[:4] + head + msgpack.packb(2) + b"\xc3" + body, "an advanced file")
        for blocksize in (0, 1, 2, 128, 70000, 1 << 31):   # a hint, the file says where its blocks are
            accepted(raw[:4] + head + msgpack.packb(blocksize) + b"\xc2" + body, "block size %d in the header" % blocksize)
        accepted(raw[:4] + (b"\xd9" + bytes([len(name)]) + name.encode()) + raw[4 + one:], "a codec name with a long length")
    finally:
        if os.path.exists(path):
            os.unlink(path)
    return core.h64(case)


def encode(d):
    from docria.codec import MsgpackCodec
    return MsgpackCodec.encode(d)


def main(rep):
    depth = 7 if core.thorough() else 5
    core.search(rep, "registry", State, [0], depth, bound="all sequences of up to %d operations on 3 names and 2 codecs" % depth)
    core.enumerate_cases(rep, "headers", gen_headers, run_headers, bound="every codec, every change of one part of the header, 6 ways to open")
