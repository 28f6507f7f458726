"""C12: partial access to an encoded document agrees with full decoding."""
import io
import itertools
import os
import pickle
from mc import core, docs, coll
from mc.core import same, ensure

LEVEL = "model_checking"
RULE = "all sequences of accessor calls (properties, schema, texts, whole and partial decoding, raw bytes, pickling) up to a length on " \
       "documents of every kind from every source; expectations come from the description the document was built from; " \
       "states: distinct (document, source, history) outcomes, transitions: accessor calls"
DEADLINE = {"quick": 300, "thorough": 820}


def project(spec, layers):
    """The document with only some layers: references into the others are unset."""
    props, texts, ls = spec
    out = []
    for name, fields, values in ls:
        if name not in layers:
            continue
        rows = []
        for d in values:
            rows.append({f: v for f, v in d.items()
                         if not (isinstance(v, tuple) and v[0] in ("ref", "refs", "nspan") and v[1] not in layers)})
        out.append((name, fields, tuple(rows)))
    return (props, texts, tuple(out))


def unordered(o):
    return (o[0], tuple(sorted(o[1])), tuple(sorted(o[2])))


SPECS = [
    ({}, (), ()),
    ({"a": 1, "b": "é", "c": [1, {"x": None}], "": 0}, (), ()),
    ({"b": 1}, (("main", "a\U0001F600bc"), ("t2", ""), ("t3", "xyz")), ()),
    ({"a": 7, "b": b"\x00"}, (("main", "a\U0001F600bc"),),
     (("m", (("t", ("span", "main")), ("r", ("ref", "k")), ("a", ("refs", "m"))),
       ({"t": ("span", "main", 1, 2), "r": ("ref", "k", 1), "a": ("refs", "m", (1, 0))}, {"t": ("span", "main", 0, 4)})),
      ("k", (("v", ("i32", 3)), ("n", ("nspan", "m"))), ({"v": 1, "n": ("nspan", "m", 0, 1)}, {})),
      ("e", (("x", ("ext", "blob")), ("s", ("str", None))), ({"x": ("ext", "blob", b"12"), "s": "q"}, {})))),
    ({"a": "x" * 300}, (("main", "abcdef"),),
     (("k", (("p", ("ref", "k")),), ()), ("m", (("r", ("ref", "k")), ("y", ("bin",))), ({"y": b"z" * 300},)),
      ("e", (("s", ("span", "main")),), tuple({"s": ("span", "main", i % 3, 4)} for i in range(40))))),
]

FULL = [("props",), ("props", "a"), ("props", "b", "nope"), ("schema",), ("texts",), ("texts", "main"), ("texts", "t3", "main", "nope"),
        ("doc",), ("binary",), ("pickle",)]
PARTIAL = [("doc", "m"), ("doc", "k", "m"), ("doc", "e"), ("doc", "e", "k")]


def ops_of(spec):
    names = {l[0] for l in spec[2]}
    return FULL + [o for o in PARTIAL if set(o[1:]) <= names]


SOURCES = ["bytes", "document", "bytesio", "file", "unbuffered"]


class Access:
    def __init__(self, spec, source):
        from docria.codec import MsgpackDocument, MsgpackCodec
        self.spec, self.source = spec, source
        doc = docs.build(spec)
        self.raw = MsgpackCodec.encode(doc)
        self.ref = (12, 34)
        self.f = None
        if source == "document":
            self.d = MsgpackDocument(doc, self.ref)
        elif source == "bytes":
            self.d = MsgpackDocument(self.raw, ref=self.ref)
        elif source == "bytesio":
            self.d = MsgpackDocument(io.BytesIO(self.raw), self.ref)
        else:
            path = coll.scratch_file("c12")
            with open(path, "wb") as f:
                f.write(self.raw)
            self.f = open(path, "rb", buffering=0 if source == "unbuffered" else -1)
            self.d = MsgpackDocument(self.f, self.ref)

    def close(self):
        if self.f is not None:
            self.f.close()

    def do(self, op):
        core.step()
        d, (props, texts, layers) = self.d, self.spec
        k = op[0]
        what = "%s of a document from %s" % (" ".join(op), self.source)
        if k == "props":
            got = d.properties(*op[1:])
            want = {a: b for a, b in props.items() if len(op) == 1 or a in op[1:]}
            same(docs.canon(got), docs.canon(want), what)
            got["a"] = got["extra"] = "changed by the reader"
        elif k == "schema":
            types, schema = d.schema()
            same(list(types), [l[0] for l in layers], what)
            for name, fields, _ in layers:
                same([(f, t.typename) for f, t in schema[name]],
                     [(f, docs.make_type(t).typename) for f, t in fields], what + ", layer " + name)
                same([t.options for f, t in schema[name]], [docs.make_type(t).options for f, t in fields], what + ", layer " + name)
        elif k == "texts":
            got = d.texts(*op[1:])
            same({a: "".join(b) for a, b in got.items()}, {a: b for a, b in texts if len(op) == 1 or a in op[1:]}, what)
            got.clear()
        elif k == "doc":
            doc = d.document(*op[1:])
            want = self.spec if len(op) == 1 else project(self.spec, op[1:])
            got, exp = docs.observed(doc, True), docs.expected(want, True)
            if len(op) > 1:
                got, exp = unordered(got), unordered(exp)
            same(got, exp, what)
            # what the reader does to the decoded document stays there
            doc.props["a"] = doc.props["extra"] = "changed by the reader"
            for layer in list(doc.layers.values()):
                nodes = list(layer)
                if nodes:
                    layer.remove(nodes[:1])
                layer.schema.fields.clear()
            doc.texts.clear()
        elif k == "binary":
            b = d.binary()
            same(bytes(b), self.raw, what)
        elif k == "pickle":
            self.d = pickle.loads(pickle.dumps(d))
        same(self.d.ref, self.ref, "position after " + what)


def gen_histories():
    n = 4 if core.thorough() else 3
    for s in range(len(SPECS)):
        for source in SOURCES:
            for m in range(1, n + 1):
                if m == n and n == 4 and source not in ("bytes", "file"):
                    continue
                for h in itertools.product(ops_of(SPECS[s]), repeat=m):
                    yield s, source, h


def run_history(case):
    s, source, h = case
    a = Access(SPECS[s], source)
    try:
        for op in h:
            a.do(op)
    finally:
        a.close()
    return case


ORDERS = [("props", "schema", "texts", "doc", "binary"), ("doc", "texts", "props", "schema"), ("texts", "pickle", "doc", "props"),
          ("pickle", "schema", "doc", "doc"), ("binary", "doc", "schema", "texts")]


def gen_inputs():
    for spec in docs.all_specs(core.thorough()):
        yield spec


def run_input(spec):
    for k, order in enumerate(ORDERS):
        a = Access(spec, SOURCES[k % 3])
        try:
            for op in order:
                a.do((op,))
            if k == 0:
                for p in list(spec[0])[:20]:
                    a.do(("props", p))
                for t, _ in spec[1][:20]:
                    a.do(("texts", t))
        finally:
            a.close()
    return core.h64(a.raw)


def gen_selections():
    """All selections of layers and texts of every document with several layers."""
    for gen in (lambda: docs.references(2), docs.nodespans, docs.names):
        for spec in gen():
            names = [l[0] for l in spec[2]]
            for r in range(1, len(names) + 1):
                for sel in itertools.permutations(names, r):
                    yield spec, sel


def run_selection(case):
    spec, sel = case
    a = Access(spec, "bytes")
    a.do(("doc",) + sel)
    a.do(("doc",))
    return None if len(sel) == len(spec[2]) else (core.h64(a.raw), sel)


def chain(n):
    """Layers l0 .. ln-1, each referring to all others; every selection."""
    layers = []
    for i in range(n):
        fields = tuple(("r%d" % j, ("ref", "l%d" % j)) for j in range(n)) + (("m", ("refs", "l%d" % ((i + 1) % n))),
                                                                          ("s", ("nspan", "l%d" % ((i + 2) % n))), ("v", ("i32", None)))
        rows = tuple(dict([("r%d" % j, ("ref", "l%d" % j, (k + j) % 2)) for j in range(n)] +
                          [("m", ("refs", "l%d" % ((i + 1) % n), (1, k))), ("s", ("nspan", "l%d" % ((i + 2) % n), 0, k)), ("v", 10 * i + k)])
                     for k in range(2))
        layers.append(("l%d" % i, fields, rows))
    return ({"p": 1}, (("main", "abc"),), tuple(layers))


def gen_chain():
    for n in (1, 2, 3, 4, 5 if core.thorough() else 4):
        names = ["l%d" % i for i in range(n)]
        for r in range(1, n + 1):
            for sel in itertools.permutations(names, r):
                for again in ((), sel[:1], sel[::-1]):
                    yield n, sel, again


def run_chain(case):
    n, sel, again = case
    a = Access(chain(n), "file")
    try:
        a.do(("doc",) + sel)
        a.do(("doc",) + again)
        a.do(("doc",) + sel)
    finally:
        a.close()
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "histories", gen_histories, run_history,
                         bound="all sequences of up to %s of 14 accessor calls on 5 documents from 5 sources" % ("4" if t else "3"))
    core.enumerate_cases(rep, "documents", gen_inputs, run_input, bound="5 accessor orders on every document of the round-trip universe")
    core.enumerate_cases(rep, "selections", gen_selections, run_selection, bound="all selections of layers of every two-layer document")
    core.enumerate_cases(rep, "many-layers", gen_chain, run_chain, bound="all ordered selections of up to %d layers that refer to each other" % (5 if t else 4))
