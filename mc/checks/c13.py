"""C13: tar collections return every document in order."""
import io
import itertools
import os
import tarfile
from mc import core, docs, coll
from mc.core import same, ensure

LEVEL = "model_checking"
RULE = "all write sequences up to a length over plain, edited, encoded, partly read, file-backed and empty documents x compression mode x " \
       "root directory x reading mode; archives with every mix of members that are not documents; " \
       "states: distinct outcomes, transitions: write and read operations"
DEADLINE = {"quick": 300, "thorough": 820}

WMODES = ["w|gz", "w|", "w|bz2", "w|xz", "w:", "w:gz", "w:bz2", "w:xz", "w"]
RMODE = {"w|gz": ["r|gz", "r|*", "r:*"], "w|": ["r|", "r|*", "r"], "w|bz2": ["r|bz2", "r:bz2"], "w|xz": ["r|xz", "r:*"], "w:": ["r|", "r:"],
         "w:gz": ["r|gz", "r:gz"], "w:bz2": ["r|bz2", "r:*"], "w:xz": ["r|xz", "r|*"], "w": ["r", "r|"]}


class TarWriter:
    def __init__(self, path, **kw):
        from docria.collection import TarMsgpackWriter
        from docria.codec import MsgpackDocument, MsgpackCodec
        self.MD, self.M = MsgpackDocument, MsgpackCodec
        self.w = TarMsgpackWriter(path, **kw)
        self.want = []
        self.shared = coll.make(2)
        self.enc = coll.encoded(3)
        self.lazy = coll.encoded(6)
        self.i = 0
        self.path = path

    def put(self, doc, want):
        core.step()
        self.w.write(doc)
        self.want.append(want)

    def do(self, s):
        self.i += 1
        i = self.i
        if s == "p":
            self.put(coll.make(i), coll.data(i))
        elif s == "P":
            self.shared.props["n"] = i
            self.shared["l"].add()
            self.put(self.shared, self.M.encode(self.shared))
            self.shared.props["n"] = -1
        elif s == "e":
            self.put(coll.encoded(i), coll.data(i))
        elif s == "E":
            self.put(self.enc, coll.data(3))
        elif s == "z":
            self.lazy.properties("id")
            if i % 2:
                self.lazy.document()
            self.put(self.lazy, coll.data(6))
        elif s == "0":
            from docria.model import Document
            self.put(Document(), self.M.encode(Document()))
        elif s == "L":  # larger than a tar record and than the read buffer
            self.put(coll.make(i, 20000 + i), coll.data(i, 20000 + i))
        elif s == "F":
            p = coll.scratch_file("tardoc%d" % i)
            with open(p, "wb") as f:
                f.write(coll.data(i))
            with open(p, "rb") as f:
                d = self.MD(f)
                if i % 2:
                    d.properties()
                self.put(d, coll.data(i))
            os.unlink(p)
        else:
            raise AssertionError(s)


def check(path, want, what, mode, how="next"):
    from docria.collection import TarMsgpackReader
    if how == "with":
        with TarMsgpackReader(path, mode=mode) as r:
            got = [d for d in r]
    else:
        r = TarMsgpackReader(path, mode=mode) if mode != "r|gz" else TarMsgpackReader(path)
        got = []
        while True:
            d = next(r, None)
            core.step()
            if d is None:
                break
            got.append(d)
            if how == "decode":   # decoded at once, while the archive is being read
                d.document()
        try:  # tarfile refuses to go on in stream mode
            ensure(next(r, None) is None, "%s: reading on at the end gives a document", what)
        except tarfile.TarError:
            pass
        r.close()
    same(len(got), len(want), "%s: number of documents (%s)" % (what, mode))
    for k, (d, w) in enumerate(zip(got, want)):
        coll.check_doc(d, w, "%s: document %d (%s)" % (what, k, mode))


def names_of(path, n, rootdir, what):
    with tarfile.open(path) as t:
        files = [m.name for m in t if m.isfile()]
        same(len(files), n, what + ": number of members")
        ensure(len(set(files)) == n, "%s: member names repeat: %s", what, files)
        if rootdir is not None:
            for f in files:
                ensure(f.startswith(rootdir.rstrip("/") + "/"), "%s: member %s is outside the root directory", what, f)


def gen_writes():
    t = core.thorough()
    for n in range(0, 6 if t else 5):
        for h in itertools.product("pPe0E", repeat=n):
            for root in (None, "docs"):
                yield "".join(h), root, WMODES[(len(h) + sum(map(ord, h))) % 9], None
    for n in range(0, 5 if t else 4):
        for h in itertools.product("pPeEz0LF", repeat=n):
            for root in (None, "docs", "a/b"):
                for m in WMODES:
                    yield "".join(h), root, m, None
    for n in (9, 10, 11, 100, 101) + ((1001,) if t else ()):
        for fmt in (None, "%d", "doc%02d.msgpack", "x/%03d"):
            for root in (None, "r"):
                yield "pe0" * (n // 3) + "p" * (n % 3), root, "w|gz", fmt


def run_writes(case):
    h, root, mode, fmt = case
    path = coll.scratch_file("tar")
    kw = {} if fmt is None else {"docformat": fmt}
    if mode != "w|gz":
        kw["mode"] = mode
    if root is not None:
        kw["rootdir"] = root
    w = TarWriter(path, **kw)
    for s in h:
        w.do(s)
    if len(h) % 2:
        w.w.close()
    else:
        w.w.__exit__(None, None, None)
    what = "%s, root %s, %s" % (h[:20] or "nothing", root, mode)
    for k, r in enumerate(RMODE[mode]):
        check(path, w.want, what, r, ("next", "with", "decode")[k % 3])
    names_of(path, len(h), root, what)
    os.unlink(path)
    return case


MEMBERS = ["doc", "dir", "symlink", "hardlink", "fifo", "chr"]


def gen_members():
    n = 4 if core.thorough() else 3
    for m in range(0, n + 1):
        for h in itertools.product(range(len(MEMBERS)), repeat=m):
            for mode in ("w", "w:gz"):
                yield tuple(MEMBERS[i] for i in h), mode


def run_members(case):
    h, mode = case
    path = coll.scratch_file("tarm")
    want = []
    with tarfile.open(path, mode) as t:
        for k, m in enumerate(h):
            ti = tarfile.TarInfo("m%d" % k)
            if m == "doc":
                ti.size = len(coll.data(k))
                t.addfile(ti, io.BytesIO(coll.data(k)))
                want.append(coll.data(k))
                continue
            ti.type = {"dir": tarfile.DIRTYPE, "symlink": tarfile.SYMTYPE, "hardlink": tarfile.LNKTYPE, "fifo": tarfile.FIFOTYPE,
                       "chr": tarfile.CHRTYPE}[m]
            ti.linkname = "m0" if m in ("symlink", "hardlink") else ""
            t.addfile(ti)
    check(path, want, str(h), "r|" if mode == "w" else "r|gz", "next")
    check(path, want, str(h), "r:*", "decode")
    os.unlink(path)
    return case


def gen_all():
    specs = list(docs.all_specs(core.thorough()))
    for i in range(0, len(specs), 40):
        yield i, specs[i:i + 40]


def run_all(case):
    """Every document of the round-trip universe, forty to an archive, plain and encoded in turns."""
    from docria.codec import MsgpackCodec, MsgpackDocument
    from docria.collection import TarMsgpackWriter
    i, specs = case
    path = coll.scratch_file("tara")
    want = []
    with TarMsgpackWriter(path, rootdir="r" if i % 80 else None) as w:
        for k, s in enumerate(specs):
            core.step()
            d = docs.build(s)
            want.append(MsgpackCodec.encode(docs.build(s)))
            w.write(MsgpackDocument(d) if k % 2 else d)
    check(path, want, "documents from %d on" % i, "r|gz", "decode")
    os.unlink(path)
    return i


def main(rep):
    core.enumerate_cases(rep, "writes", gen_writes, run_writes, bound="all write sequences up to %d x 9 modes x root directories, up to %d with every document kind"
                         % ((5, 4) if core.thorough() else (4, 3)))
    core.enumerate_cases(rep, "members", gen_members, run_members, bound="all archives of up to %d members of 6 kinds" % (4 if core.thorough() else 3))
    core.enumerate_cases(rep, "documents", gen_all, run_all, bound="every document of the round-trip universe")
