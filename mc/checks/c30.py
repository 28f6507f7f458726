"""C30: the parts of a Java document, its schema and its fields stay consistent through every sequence of edits."""
from mc import core, docs, java
from mc.core import ensure, same, short
from mc.java import S, ref, refs
from mc.checks.c31 import check_dump, compare, expected

LEVEL = "model_checking"
RULE = "breadth-first search over all sequences of adding and removing texts, layers and fields, with and without cascade, on Java documents (real classes, " \
       "one script per history), alone and two from one schema; oracle: a plain dictionary of texts, layers and fields; documents whose fields all refer to " \
       "what exists must encode to exactly that, all others must be refused by the validation and by the encoder"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS

K = {"k": ("i32", None)}
LAYERS = {
    "t": dict(K),
    "l": dict(K, s=("span", "main"), r=("ref", "t")),
    "q": dict(K, a=("refs", "t"), n=("nspan", "l"), b=("ref", "l"), o=("span", "other"), p=("span", "other"), m=("ref", "q")),
}
EXTRA = [("l", "x", ("nspan", "t")), ("t", "x", ("span", "main")), ("t", "y", ("refs", "q")), ("q", "x", ("i64", None)), ("q", "k", ("i32", None))]
TEXTS = {"main": "ab\U0001F600", "other": "xy"}


class Model:
    def __init__(self):
        self.texts = set()
        self.layers = {}    # name -> {field: type}
        self.rows = {}      # name -> [ {field: value} ]

    def referring(self, kinds, name):
        return [(l, f) for l, fs in self.layers.items() for f, t in fs.items() if t[0] in kinds and t[1] == name]

    def dangling(self):
        return any(t[0] == "span" and t[1] not in self.texts or t[0] in ("ref", "refs", "nspan") and t[1] not in self.layers
                   for fs in self.layers.values() for t in fs.values())

    def drop(self, layer, field):
        del self.layers[layer][field]
        for row in self.rows[layer]:
            row.pop(field, None)

    def spec(self):
        return ({}, tuple((t, TEXTS[t]) for t in sorted(self.texts)),
                tuple((l, tuple(sorted(self.layers[l].items())), tuple(dict(r) for r in self.rows[l])) for l in sorted(self.layers)))


class State:
    """cfg: number of documents made from one schema, 0 for one that starts empty."""

    def __init__(self, cfg):
        self.s = s = S()
        self.expect = []
        self.made = 0
        if cfg == 0:
            s.new("doc0", "Document")
            self.docs = [Model()]
        else:
            s.new("schema", "Schema")
            for name in ("l", "t"):
                self.definition(name)
                s.call("schema", "add", ref("sc"))
            self.docs = []
            for d in range(cfg):
                s.new("doc%d" % d, "Document", ref("schema"))
                m = Model()
                for name in ("l", "t"):
                    m.layers[name] = dict(LAYERS[name])
                    m.rows[name] = []
                    s.call("doc%d" % d, "layer", name, to="doc%d%s" % (d, name))
                self.docs.append(m)
        self.cfg = cfg

    def definition(self, name):
        s = self.s
        s.static("Layer", "builder" if self.made % 2 else "create", name, to="lb")
        for f, t in sorted(LAYERS[name].items()):
            s.help("type_", docs.NAME[t[0]], t[1], to="ty")
            s.call("lb", "addField", f, ref("ty"))
        s.call("lb", "build", to="sc")
        self.made += 1

    def ops(self):
        for d, m in enumerate(self.docs):
            for t in TEXTS:
                yield (d, "text", t)
            for t in sorted(m.texts):
                yield (d, "untext", t, False)
                yield (d, "untext", t, True)
            for l in LAYERS:
                if l not in m.layers:
                    yield (d, "schema", l)
                yield (d, "layer", l)
            for l in sorted(m.layers):
                yield (d, "unlayer", l, False)
                yield (d, "unlayer", l, True)
                if len(m.rows[l]) < 2:
                    yield (d, "node", l)
            for l, f, t in EXTRA:
                if l in m.layers:
                    yield (d, "field", l, f, t)
            for l in sorted(m.layers):
                for f in sorted(m.layers[l]):
                    if f in "srox":
                        yield (d, "unfield", l, f)
        yield (0, "nothing")

    def want(self, at, ok, what):
        def check(res):
            if ok:
                java.good(res[at], what)
            else:
                ensure(isinstance(res[at], java.JavaError), "%s was accepted instead of refused", what)
        self.expect.append(check)

    def apply(self, op):
        core.step()
        s, d, kind = self.s, op[0], op[1]
        m, doc = self.docs[d], "doc%d" % op[0]
        if kind == "text":
            s.new("tx", "Text", op[2], TEXTS[op[2]])
            self.want(s.call(doc, "add", ref("tx")), op[2] not in m.texts, "adding the text " + op[2])
            if op[2] not in m.texts:
                m.texts.add(op[2])
        elif kind == "untext":
            s.call(doc, "text", op[2], to="tx")
            fields = m.referring(("span",), op[2])
            ok = op[3] or not fields
            if op[3]:
                at = s.call(doc, "remove", ref("tx"), True)
            else:
                at = s.call(doc, "remove", ref("tx"))
            self.want(at, ok, "removing the text %s%s" % (op[2], " with its fields" if op[3] else ""))
            if ok:
                for l, f in fields:
                    m.drop(l, f)
                m.texts.remove(op[2])
        elif kind in ("schema", "layer"):
            self.definition(op[2])
            name = doc + op[2]
            ok = op[2] not in m.layers
            if kind == "schema":
                s.call(doc, "add", ref("sc"), to=name)
            else:
                s.new("newlayer", "Layer", ref(doc), ref("sc"))
                self.want(s.call(doc, "add", ref("newlayer")), ok, "adding the layer " + op[2])
                s.call(doc, "layer", op[2], to=name)
            if ok:
                m.layers[op[2]] = dict(LAYERS[op[2]])
                m.rows[op[2]] = []
        elif kind == "unlayer":
            fields = [x for x in m.referring(("ref", "refs", "nspan"), op[2]) if x[0] != op[2]]
            ok = op[3] or not fields
            name = doc + op[2]
            if op[3]:
                at = s.call(doc, "remove", ref(name), True)
            else:
                at = s.call(doc, "remove", ref(name))
            self.want(at, ok, "removing the layer %s%s" % (op[2], " with the fields that refer to it" if op[3] else ""))
            if ok:
                for l, f in fields:
                    m.drop(l, f)
                del m.layers[op[2]], m.rows[op[2]]
        elif kind == "field":
            s.help("type_", docs.NAME[op[4][0]], op[4][1], to="ty")
            ok = op[3] not in m.layers[op[2]]
            self.want(s.call(doc + op[2], "addField", op[3], ref("ty")), ok, "adding the field %s to %s" % (op[3], op[2]))
            if ok:
                m.layers[op[2]][op[3]] = op[4]
        elif kind == "unfield":
            self.want(s.call(doc + op[2], "removeField", op[3]), True, "removing a field")
            m.drop(op[2], op[3])
        elif kind == "node":
            self.node(d, m, op[2])
        elif kind == "nothing":
            self.s.ops.append([None, "help", "removeNothing", ref(doc)])
            self.want(len(self.s.ops) - 1, True, "removing nothing")
        else:
            raise ValueError(op)

    def node(self, d, m, layer):
        """A node with every field set that has something to refer to; k by the builder, the rest put."""
        s, name, row = self.s, "n%d" % self.made, {"k": self.made}
        old = len(m.rows[layer])
        if old:
            s.call("doc%d%s" % (d, layer), "create", to="b")
        else:
            s.static("Node", "builder", ref("doc%d%s" % (d, layer)), to="b")
        if "k" in m.layers[layer]:
            s.call("b", "put", "k", self.made)
        if old:
            s.call("b", "insert", to=name)
        else:
            s.call("b", "build", to=name)
            s.call("doc%d%s" % (d, layer), "add", ref(name))
        self.made += 1
        m.rows[layer].append(row)
        for f, t in sorted(m.layers[layer].items()):
            if t[0] == "span" and t[1] in m.texts:
                s.call("doc%d" % d, "text", t[1], to="tx")
                s.call("tx", "span", old, 2, to="sp")
                s.call(name, "put", f, ref("sp"))
                row[f] = ("span", t[1], old, 2)
            elif t[0] in ("ref", "refs", "nspan") and m.rows.get(t[1]):
                last = len(m.rows[t[1]]) - 1
                s.call("doc%d%s" % (d, t[1]), "get", last, to="target")
                if t[0] == "ref":
                    s.call(name, "put", f, ref("target"))
                    row[f] = ("ref", t[1], last)
                elif t[0] == "refs":
                    s.call(name, "put", f, {"nodes": [ref("target")]})
                    row[f] = ("refs", t[1], (last,))
                else:
                    s.call("doc%d%s" % (d, t[1]), "get", 0, to="start")
                    s.new("ns", "NodeSpan", ref("start"), ref("target"))
                    s.call(name, "put", f, ref("ns"))
                    row[f] = ("nspan", t[1], 0, last)
            elif t[0] == "i64":
                s.call(name, "put", f, {"l": 1 << 40})
                row[f] = 1 << 40

    def script(self, tail):
        res = java.script(self.s.ops + tail.ops)
        for check in self.expect:
            check(res)
        checked = len(self.s.ops)
        return res[checked:]

    def key(self):
        s = S()
        s.help("digest", refs(["doc%d" % d for d in range(len(self.docs))] + (["schema"] if self.cfg else [])))
        return (repr([m.spec() for m in self.docs]), core.h64(java.good(self.script(s)[0])))

    def observe(self):
        from docria.codec import MsgpackCodec
        s = S()
        for d in range(len(self.docs)):
            s.help("dump", ref("doc%d" % d))
            s.help("structure", ref("doc%d" % d))
            s.call("doc%d" % d, "validateSchema")
            s.static("MsgpackCodec", "encode", ref("doc%d" % d))
            s.help("structure", ref("doc%d" % d))
        if self.cfg:
            s.help("schemaOf", ref("schema"))
        res = self.script(s)
        for d, m in enumerate(self.docs):
            dump, structure, valid, data, after = res[5 * d:5 * d + 5]
            spec = m.spec()
            exp = expected(spec)
            check_dump(java.good(dump), exp, "the Java document")
            fields = {l: {f: docs.NAME[t[0]] for f, t in fs.items()} for l, fs in m.layers.items()}
            want = {"texts": sorted(m.texts), "layers": sorted(m.layers), "schema": fields, "fields": fields, "has": True, "stream": len(m.layers),
                    "textstream": len(m.texts), "hasnot": False, "main": TEXTS["main"] if "main" in m.texts else None}
            same(java.good(structure), want, "texts, layers, schema and fields")
            same(java.good(after), want, "texts, layers, schema and fields after encoding")
            if m.dangling():
                ensure(isinstance(valid, java.JavaError), "the validation overlooked a field that refers to what does not exist: %s", short(spec))
                ensure(isinstance(data, java.JavaError), "a document with a field that refers to what does not exist was encoded: %s", short(spec))
            else:
                java.good(valid, "validating a document whose fields all refer to what exists")
                compare(MsgpackCodec.decode(java.good(data, "encoding")), spec, "encoded by Java, decoded by Python")
        if self.cfg:
            fields = {l: {f: docs.NAME[t[0]] for f, t in LAYERS[l].items()} for l in ("l", "t")}
            same(java.good(res[-1]), fields, "the schema the documents were made from")


def main(rep):
    if not java.available(rep) or not java.compile_java(rep):
        return
    t = core.thorough()
    core.search(rep, "one document", State, [0], 6 if t else 5, bound="all sequences of up to %d edits of an empty document" % (6 if t else 5))
    core.search(rep, "from a schema", State, [1], 5 if t else 4, bound="all sequences of up to %d edits of a document made from a schema" % (5 if t else 4))
    core.search(rep, "from one schema", State, [2], 4 if t else 3, bound="all sequences of up to %d edits of two documents made from one schema" % (4 if t else 3))
