"""C03: MessagePack, pickle and copy round trips over every document of a bounded space."""
import copy
import io
import pickle
from mc import core, docs

LEVEL = "exploration"
RULE = "every document spec of the bounded spaces in mc/docs.py is built, encoded and decoded by every path; the " \
       "expectation is computed from the spec alone; non-trivial: the document is not empty"
DEADLINE = {"quick": 240, "thorough": 800}


def gen():
    return docs.all_specs(core.thorough())


def run(spec):
    from docria.codec import MsgpackCodec, MsgpackDocument
    doc = docs.build(spec)
    docs.compare(doc, spec, "the document as built", drop_empty=False)
    data = MsgpackCodec.encode(doc)
    core.ensure(isinstance(data, bytes), "encoding gives %r", type(data))
    for what, fn in (("decode(bytes)", lambda: MsgpackCodec.decode(data)),
                     ("decode(stream)", lambda: MsgpackCodec.decode(io.BytesIO(data))),
                     ("lazy document", lambda: MsgpackDocument(data).document()),
                     ("lazy document of a document", lambda: MsgpackDocument(doc).document()),
                     ("pickle", lambda: pickle.loads(pickle.dumps(doc))),
                     ("copy", lambda: copy.copy(doc)),
                     ("deepcopy", lambda: copy.deepcopy(doc))):
        back = fn()
        core.ensure(back is not doc, "%s returns the same object", what)
        docs.compare(back, spec, what)
    for proto in (0, 2, pickle.HIGHEST_PROTOCOL) if len(data) < 4096 else ():
        docs.compare(pickle.loads(pickle.dumps(doc, proto)), spec, "pickle protocol %d" % proto)
    return core.h64(data)


def second_generation():
    for s in docs.mixed():
        yield s
    for s in docs.references():
        yield s


def run_second(spec):
    """Decoded documents are as good as built ones: edit and round trip again."""
    from docria.codec import MsgpackCodec
    doc = docs.build(spec)
    for step in range(3):
        doc = MsgpackCodec.decode(MsgpackCodec.encode(doc))
        docs.compare(doc, spec, "generation %d" % (step + 2))
        for layer in doc.layers.values():   # an edit that is taken back leaves a gap
            n = layer.add()
            layer.remove(n)
    docs.compare(pickle.loads(pickle.dumps(doc)), spec, "pickle of a decoded, edited document")
    return core.h64(spec)


def gen_large():
    """Layers around 2^16 nodes, the largest small array of MessagePack, and as many ends of spans."""
    for n in (65534, 65535, 65536, 65537):
        yield n, "i"
        yield n, "span"
    yield 65536, "ref"
    yield 140001, "span"


def run_large(case):
    from docria.codec import MsgpackCodec
    from docria.model import Document, DataTypes as T
    n, kind = case
    doc = Document()
    text = doc.add_text("main", "0123456789" * (n // 10 + 1))
    layer = doc.add_layer("l", f={"i": T.int32(None), "span": text.spantype, "ref": T.noderef("l")}[kind], k=T.int32(None))
    nodes = [layer.add(k=-i) for i in range(n)]
    for i in range(n) if kind == "i" else range(0, n, 2) if kind == "ref" else range(n - 3):
        nodes[i]["f"] = {"i": lambda: i * 3, "span": lambda: text[i:i + 1 + i % 3], "ref": lambda: nodes[n - 1 - i]}[kind]()
    back = MsgpackCodec.decode(MsgpackCodec.encode(doc))
    got = list(back["l"])
    core.same(len(got), n, "nodes")
    index = {id(x): i for i, x in enumerate(got)}
    for i, x in enumerate(got):
        core.same(x.get("k"), -i, "k of node %d" % i)
        v = x.get("f")
        if kind == "i":
            core.same(v, i * 3, "f of node %d" % i)
        elif kind == "ref":
            core.same(None if v is None else index[id(v)], n - 1 - i if i % 2 == 0 else None, "reference of node %d" % i)
        else:
            core.same(None if v is None else (v.start, v.stop), (i, i + 1 + i % 3) if i < n - 3 else None, "span of node %d" % i)
    return case


def main(rep):
    core.enumerate_cases(rep, "large", gen_large, run_large, bound="layers of 65534 to 140001 nodes, of numbers, spans and references")
    core.enumerate_cases(rep, "specs", gen, run, bound="bounded document spaces of mc/docs.py")
    core.enumerate_cases(rep, "generations", second_generation, run_second, bound="3 generations with edits")
