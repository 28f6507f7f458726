"""C04: JSON round trips over every document of a bounded space that JSON can carry; the rest is refused."""
import json
from mc import core, docs

LEVEL = "exploration"
RULE = "every document spec of the bounded spaces in mc/docs.py: without raw bytes it has to survive the round trip, " \
       "with raw bytes or embedded documents it has to be refused; the expectation is computed from the spec alone"
DEADLINE = {"quick": 240, "thorough": 800}
ASSUMPTIONS = ["property values are strings, numbers, booleans, none, lists and string-keyed maps"]


def gen():
    return docs.all_specs(core.thorough())


def run(spec):
    from docria.codec import JsonCodec
    doc = docs.build(spec)
    if docs.has_bytes(spec):
        core.refused(lambda: JsonCodec.encode(doc), "JSON encoding of raw bytes")
        return ("refused", core.h64(spec))
    text = JsonCodec.encode(doc)
    core.ensure(isinstance(text, str), "encoding gives %r", type(text))
    json.loads(text)
    back = JsonCodec.decode(text)
    docs.compare(back, spec, "decoded JSON")
    docs.compare(doc, spec, "the document after encoding", drop_empty=False)
    core.same(JsonCodec.encode(back), text, "encoding the decoded document")
    obj = JsonCodec.encode_object(doc)
    docs.compare(JsonCodec.decode_object(json.loads(json.dumps(obj))), spec, "decoded JSON object")
    return core.h64(text)


def unset_bytes():
    """Binary and extension fields without any value can be carried."""
    for t in (("bin",), ("ext", "blob"), ("ext", "doc")):
        for n in range(4):
            yield ({"k": "v"}, (("main", "ab"),), (("l", (("y", t), ("s", ("span", "main"))),
                                                    tuple({"s": ("span", "main", 0, i % 3)} for i in range(n))),))


def gen_cross():
    for s in docs.mixed():
        if not docs.has_bytes(s):
            yield s
    for g in (docs.references, docs.nodespans, docs.texts):
        for s in g():
            yield s


def run_cross(spec):
    """A document that went through JSON goes through MessagePack unharmed and the other way round."""
    from docria.codec import JsonCodec, MsgpackCodec
    doc = docs.build(spec)
    a = MsgpackCodec.decode(MsgpackCodec.encode(JsonCodec.decode(JsonCodec.encode(doc))))
    docs.compare(a, spec, "JSON then MessagePack")
    b = JsonCodec.decode(JsonCodec.encode(MsgpackCodec.decode(MsgpackCodec.encode(doc))))
    docs.compare(b, spec, "MessagePack then JSON")
    for layer in b.layers.values():
        layer.remove(layer.add())
    docs.compare(JsonCodec.decode(JsonCodec.encode(b)), spec, "edited and encoded again")
    return core.h64(spec)


def gen_large():
    for n in (300, 1025, 65537, 140001):
        for kind in ("i", "span", "ref", "refs", "nspan"):
            yield n, kind


def run_large(case):
    """Large layers, texts and lists of references."""
    from docria.codec import JsonCodec
    from docria.model import Document, DataTypes as T, NodeSpan
    n, kind = case
    doc = Document()
    text = doc.add_text("main", "0123456789" * (n // 10 + 1))
    layer = doc.add_layer("l", f={"i": T.int32(None), "span": text.spantype, "ref": T.noderef("l"), "refs": T.noderef_many("l"), "nspan": T.nodespan("l")}[kind], k=T.int32(None))
    nodes = [layer.add(k=-i) for i in range(n)]
    make = {"i": lambda i: i * 3, "span": lambda i: text[i:i + 1 + i % 3], "ref": lambda i: nodes[n - 1 - i], "refs": lambda i: nodes[i::n // 290], "nspan": lambda i: NodeSpan(nodes[i], nodes[-1])}[kind]
    some = range(0, n - 3) if kind in ("i", "span") else range(0, n, 2) if kind == "ref" else (0, 1, 255, n - 2)
    want = [None] * n
    for i in some:
        nodes[i]["f"] = make(i)
        want[i] = {"i": i * 3, "span": (i, i + 1 + i % 3), "ref": n - 1 - i, "refs": tuple(range(i, n, n // 290)), "nspan": (i, n - 1)}[kind]
    back = JsonCodec.decode(JsonCodec.encode(doc))
    core.ensure(back.text["main"].text == text.text, "the text of %d characters is another one", len(text.text))
    got = list(back["l"])
    core.same(len(got), n, "nodes")
    index = {id(x): i for i, x in enumerate(got)}
    show = {"i": lambda v: v, "span": lambda v: (v.start, v.stop), "ref": lambda v: index[id(v)], "refs": lambda v: tuple(index[id(x)] for x in v),
            "nspan": lambda v: (index[id(v.left)], index[id(v.right)])}[kind]
    core.step(n)
    for i, x in enumerate(got):
        core.same(x.get("k"), -i, "k of node %d" % i)
        v = x.get("f")
        core.same(None if v is None else show(v), want[i], "%s of node %d" % (kind, i))
    return case


def main(rep):
    core.enumerate_cases(rep, "specs", gen, run, bound="bounded document spaces of mc/docs.py")
    core.enumerate_cases(rep, "unset", unset_bytes, run, bound="binary and extension fields without value")
    core.enumerate_cases(rep, "across-codecs", gen_cross, run_cross, bound="subset of the document spaces")
    core.enumerate_cases(rep, "large", gen_large, run_large, bound="layers of 300 to 140001 nodes, of numbers, spans, references, lists of references and node spans")
