"""C22: schema edits keep schema, data and serialisation in step."""
import copy
from mc import core
from mc.core import same, identical, ensure, refused, digest

LEVEL = "model_checking"
RULE = "all sequences of schema operations and node additions up to the depth, merged when model and real object graph coincide; after " \
       "each step schema, node contents and both codecs' round trips (or refusals) are compared with the model"
DEADLINE = {"quick": 330, "thorough": 820}

# model of a type: (kind, default or target)
TYPES = {"i": ("int", 7), "s": ("str", "q"), "z": ("int", 0), "n": ("int", None), "b": ("bool", False), "f": ("float", 0.5),
         "t": ("span", "main"), "u": ("span", "alt")}
for _x in "ABC":
    TYPES["r" + _x] = ("ref", _x)
    TYPES["m" + _x] = ("many", _x)
    TYPES["p" + _x] = ("nspan", _x)

LAYERS = {"A-plain": ("A", (("v", "i"), ("w", "n"))), "A-toB": ("A", (("v", "i"), ("to", "rB"))), "A-bare": ("A", ()),
          "A-self": ("A", (("v", "s"), ("me", "rA"), ("us", "mA"), ("sp", "pA"))),
          "B-toA": ("B", (("r", "rA"), ("m", "mA"), ("p", "pA"), ("k", "z"))), "B-plain": ("B", (("k", "s"),)),
          "B-toC": ("B", (("m", "mC"), ("k", "f"))),
          "C-both": ("C", (("a", "rA"), ("b", "rB"), ("t", "t"))), "C-span": ("C", (("pb", "pB"), ("x", "b")))}


class Schema:
    def __init__(self, cfg):
        from docria.model import Document, DataTypes as T, NodeSpan, Node
        from docria.codec import MsgpackCodec, JsonCodec
        self.T, self.NodeSpan, self.M, self.J = T, NodeSpan, MsgpackCodec, JsonCodec
        self.doc = Document(id=1)
        self.doc.maintext = "abcdef"
        self.doc.add_text("alt", "xyz")
        self.model = {}    # layer -> [fields: {name: type key}, nodes: [dict of plain values / labels], generation]
        self.real = {}     # layer -> list of real nodes
        self.gen = 0
        self.mode = cfg[0]
        for op in cfg[1:]:
            self.apply(op)

    def type(self, t):
        T = self.T
        kind, x = TYPES[t]
        return {"int": T.int32, "str": T.string, "bool": T.bool, "float": T.float64, "span": T.textspan, "ref": T.noderef, "many": T.noderef_many,
                "nspan": T.nodespan}[kind](x)

    def default(self, t):
        kind, x = TYPES[t]
        return x if kind in ("int", "str", "bool", "float") else None

    # -- operations
    def ops(self):
        out = []
        for name, (layer, fields) in LAYERS.items():
            if layer not in self.model and (self.mode != "small" or name in ("A-plain", "B-toA", "C-both", "A-toB")):
                out.append(("layer", name))
        for layer, (fields, nodes, gen) in self.model.items():
            out += [("drop", layer, False), ("drop", layer, True), ("node", layer, "empty")]
            if any(self.targets(t) for t in fields.values()):
                out.append(("node", layer, "full"))
            for t in ("i", "rA", "pB") if self.mode == "small" else ("i", "n", "u", "rA", "mB", "pC"):
                if "f" not in fields and not any("f" in n for n in nodes):
                    out.append(("field", layer, "f", t, True))
                if "f" not in fields:
                    out.append(("field", layer, "f", t, False))
            for f in fields:
                out += [("unfield", layer, f, False), ("unfield", layer, f, True)]
            gone = [f for n in nodes for f in n if f not in fields and f != "f"]
            if gone:
                # a bool in an int field is not decided by the property
                out.append(("field", layer, gone[0], "s" if any(isinstance(n.get(gone[0]), bool) for n in nodes) else "i", False))
        out += [("encode",), ("absent",)]
        if self.mode != "small":
            out += [("replace", "msgpack"), ("replace", "json")]
        return out

    def targets(self, t):
        kind, x = TYPES[t]
        return kind in ("ref", "many", "nspan") and x in self.model and bool(self.model[x][1]) or kind == "span"

    def value(self, t, last):
        """(model value, real value) of a reference field of type t; None leaves it unset."""
        kind, x = TYPES[t]
        if kind == "span":
            text = self.doc.texts[x]
            return ("span", x, 1, 3), text[1:3]
        if kind not in ("ref", "many", "nspan") or not self.targets(t):
            return None
        real = self.real[x]
        lab = [(x, self.model[x][2], i) for i in range(len(real))]
        if kind == "ref":
            k = -1 if last else 0
            return ("ref",) + lab[k], real[k]
        if kind == "many":
            return ("many",) + tuple(lab[::-1]), real[::-1]
        return ("nspan", lab[0], lab[-1]), self.NodeSpan(real[0], real[-1])

    def apply(self, op):
        name = op[0]
        doc = self.doc
        if name == "layer":
            layer, fields = LAYERS[op[1]]
            got = doc.add_layer(layer, **{f: self.type(t) for f, t in fields})
            ensure(got is doc[layer], "add_layer returned another layer")
            self.gen += 1
            self.model[layer] = [dict(fields), [], self.gen]
            self.real[layer] = []
        elif name == "drop":
            layer, cascade = op[1], op[2]
            refs = [(l, f) for l, (fields, _, _) in self.model.items() if l != layer for f, t in fields.items()
                    if TYPES[t][0] in ("ref", "many", "nspan") and TYPES[t][1] == layer]
            if refs and not cascade:
                refused(lambda: doc.remove_layer(layer), "removing layer %s, which fields %s refer to," % (layer, refs))
                refused(lambda: doc.__delitem__(layer), "deleting layer %s, which fields %s refer to," % (layer, refs))
            else:
                ensure(doc.remove_layer(layer, fieldcascade=cascade) is True, "removing existing layer %s did not report True", layer)
                for l, f in refs:
                    del self.model[l][0][f]
                    for n in self.model[l][1]:
                        n.pop(f, None)
                del self.model[layer], self.real[layer]
        elif name == "absent":
            for x in "ABC":
                if x not in self.model:
                    for c in (False, True):
                        ensure(doc.remove_layer(x, fieldcascade=c) is False, "removing missing layer %s did not report False", x)
            for layer in self.model:
                ensure(doc[layer].remove_field("nothing") is False, "removing a missing field did not report False")
                for f in self.model[layer][0]:
                    refused(lambda: doc[layer].add_field(f, self.T.int32(3)), "adding field %s twice" % f)
        elif name == "node":
            layer, how = op[1], op[2]
            fields, nodes, _ = self.model[layer]
            m, kw = {f: self.default(t) for f, t in fields.items() if self.default(t) is not None}, {}
            if how == "full":
                for f, t in fields.items():
                    v = self.value(t, len(nodes) % 2)
                    if v is not None:
                        m[f], kw[f] = v
            self.real[layer].append(doc[layer].add(**kw))
            nodes.append(m)
        elif name == "field":
            _, layer, f, t, init = op
            fields, nodes, _ = self.model[layer]
            doc[layer].add_field(f, self.type(t), init_with_default=init)
            fields[f] = t
            if init and self.default(t) is not None:
                for n in nodes:
                    n[f] = self.default(t)
        elif name == "unfield":
            _, layer, f, leave = op
            fields, nodes, _ = self.model[layer]
            ensure(doc[layer].remove_field(f, leave_data=leave) is True, "removing existing field %s did not report True", f)
            del fields[f]
            if not leave:
                for n in nodes:
                    n.pop(f, None)
        elif name == "encode":
            if self.encodable():
                self.M.encode(doc)
        elif name == "replace":
            if self.encodable():
                c = self.M if op[1] == "msgpack" else self.J
                self.doc = c.decode(c.encode(doc))
                self.real = {l: list(self.doc[l]) for l in self.model}

    # -- what has to hold
    def live(self, lab):
        layer, gen, i = lab
        return layer in self.model and self.model[layer][2] == gen

    def fits(self, t, v):
        kind, x = TYPES[t]
        if kind == "int":
            return isinstance(v, int) and not isinstance(v, bool)
        if kind == "bool":
            return isinstance(v, bool)
        if kind == "str":
            return isinstance(v, str)
        if kind == "float":
            return isinstance(v, float)
        if not isinstance(v, tuple):
            return False
        if kind == "span":
            return v[0] == "span" and v[1] == x
        if kind == "ref":
            return v[0] == "ref" and v[1] == x and self.live(v[1:])
        if kind == "many":
            return v[0] == "many" and all(l[0] == x and self.live(l) for l in v[1:])
        return v[0] == "nspan" and v[1][0] == x and self.live(v[1]) and self.live(v[2])

    def encodable(self):
        for layer, (fields, nodes, _) in self.model.items():
            for t in fields.values():
                if TYPES[t][0] in ("ref", "many", "nspan") and TYPES[t][1] not in self.model:
                    return False
            for n in nodes:
                for f, v in n.items():
                    if f not in fields or not self.fits(fields[f], v):
                        return False
        return True

    def see(self, v, doc, real):
        """Real field value -> model value."""
        def lab(n):
            for l, nodes in real.items():
                for i, m in enumerate(nodes):
                    if m is n:
                        return l, self.model[l][2], i
            return "?", 0, 0
        name = type(v).__name__
        if name == "Node":
            return ("ref",) + lab(v)
        if name == "NodeSpan":
            return "nspan", lab(v.left), lab(v.right)
        if name == "TextSpan":
            return "span", v.text.name, v.start, v.stop
        if isinstance(v, (list, tuple)):
            return ("many",) + tuple(lab(x) for x in v)
        return v

    def compare(self, doc, real, what):
        same(sorted(doc.layers), sorted(self.model), what + ": layers")
        same([x in doc for x in "ABC"], [x in self.model for x in "ABC"], what + ": membership of layers")
        for layer, (fields, nodes, gen) in self.model.items():
            L = doc[layer]
            types = L.schema.fields
            same(list(types), list(fields), "%s: fields of %s" % (what, layer))
            same(list(L.fieldtypes), list(fields), "%s: field types of %s" % (what, layer))
            for f, t in fields.items():
                want = self.type(t)
                ensure(types[f] == want and types[f].typename == want.typename and types[f].options == want.options,
                       "%s: type of %s.%s is %r, expected %r", what, layer, f, types[f], want)
                same(repr(types[f].default()), repr(want.default()), "%s: default of %s.%s" % (what, layer, f))
            identical(L, real[layer], what + ": nodes of " + layer)
            same(len(L), len(nodes), what + ": length of " + layer)
            for i, n in enumerate(nodes):
                got = {}
                for f, v in real[layer][i].items():
                    want = n.get(f)
                    stale = isinstance(want, tuple) and any(isinstance(l, tuple) and not self.live(l) or False
                                                            for l in ([want[1:]] if want[0] == "ref" else want[1:]))
                    got[f] = want if stale else self.see(v, doc, real)
                same({k: (type(v), v) for k, v in got.items()}, {k: (type(v), v) for k, v in n.items()},
                     "%s: node %d of %s" % (what, i, layer))

    def observe(self):
        doc = self.doc
        self.compare(doc, self.real, "document")
        ok = self.encodable()
        for name, codec in (("MessagePack", self.M), ("JSON", self.J)):
            if not ok:
                refused(lambda: codec.encode(doc), "%s encoding of a document with dangling declarations or data" % name)
                continue
            out = codec.decode(codec.encode(doc))
            self.compare(out, {l: list(out[l]) for l in out.layers}, name + " round trip")
            for layer, (fields, nodes, _) in self.model.items():
                n = out[layer].add()
                same(dict(n), {f: self.default(t) for f, t in fields.items() if self.default(t) is not None},
                     "node added to the decoded layer %s" % layer)
        self.compare(doc, self.real, "document after encoding")

    def key(self):
        # merged on the model and the real object graph
        return repr(self.model), digest(self.doc, self.real)


def configs(mode):
    L = lambda *names: [("layer", n) for n in names]
    N = lambda *pairs: [("node", l, h) for l, h in pairs]
    return [(mode,),
            (mode, *L("A-plain", "B-toA"), *N(("A", "empty"), ("A", "empty"), ("B", "full"))),
            (mode, *L("A-toB", "B-toA"), *N(("A", "empty"), ("B", "full"), ("A", "full"))),
            (mode, *L("B-plain", "A-self", "C-both"), *N(("B", "empty"), ("A", "empty"), ("A", "full"), ("C", "full"), ("C", "empty"))),
            (mode, *L("A-plain", "C-span", "B-toC"), *N(("A", "empty"), ("B", "empty"), ("C", "full"), ("B", "full")))]


def gen_wide():
    for n in (5, 9, 17, 33, 40):
        for k in sorted({0, 1, n // 2, n - 1}):
            for fan in (1, 2, n):
                for fill in (0, 3):
                    yield n, k, fan, fill


def run_wide(case):
    """Many layers and fields: removing one by cascade removes the fields that refer to it and nothing else."""
    from docria.model import Document, DataTypes as T, NodeSpan
    from docria.codec import MsgpackCodec, JsonCodec
    n, k, fan, fill = case
    doc = Document()
    text = doc.add_text("main", "abcdef")
    kinds = [T.noderef, T.noderef_many, T.nodespan]
    fields = {i: {} for i in range(n)}
    for i in range(n):
        fields[i]["v"] = None
        for j in range(fan):
            fields[i]["f%d" % j] = (i + j + 1) % n
        fields[i]["w"] = None
        doc.add_layer("L%d" % i, **{f: T.int32(i) if f == "v" else text.spantype if f == "w" else kinds[(i + int(f[1:])) % 3]("L%d" % to) for f, to in fields[i].items()})
    nodes = {i: [doc["L%d" % i].add(w=text[0:x]) for x in range(fill)] for i in range(n)}
    value = lambda i, f, x: [lambda t: t[x], lambda t: [t[0], t[x]], lambda t: NodeSpan(t[0], t[x])][(i + int(f[1:])) % 3](nodes[fields[i][f]])
    for i in range(n):
        for x, node in enumerate(nodes[i]):
            for f, to in fields[i].items():
                if to is not None:
                    node[f] = value(i, f, x)

    def check(what, gone):
        same(list(doc.layers), ["L%d" % i for i in range(n) if i not in gone], what + ": layers")
        for d in (doc, MsgpackCodec.decode(MsgpackCodec.encode(doc)), JsonCodec.decode(JsonCodec.encode(doc))):
            for i in range(n):
                if i not in gone:
                    want = [f for f, to in fields[i].items() if to not in gone]
                    same(list(d["L%d" % i].schema.fields), want, "%s: fields of layer %d" % (what, i))
                    same([sorted(x.keys()) for x in d["L%d" % i]], [sorted(want)] * fill, "%s: values of layer %d" % (what, i))
                    same([x["v"] for x in d["L%d" % i]], [i] * fill, what)
        for i in range(n):
            if i not in gone:
                identical(doc["L%d" % i], nodes[i], "%s: nodes of layer %d" % (what, i))
    check("built", ())
    name = "L%d" % k
    refused(lambda: doc.remove_layer(name), "removing layer %s that %d fields refer to" % (name, fan))
    check("after a refused removal", ())
    gone = []
    for i in (k, (k + 2) % n):
        same(bool(doc.remove_layer("L%d" % i, fieldcascade=True)), True, "cascade")
        gone.append(i)
        check("after removing layers %s" % gone, gone)
    same(bool(doc.remove_layer(name, fieldcascade=True)), False, "removing it again")
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "wide", gen_wide, run_wide, bound="up to 40 layers with up to 40 references each, cascades of two of them")
    core.search(rep, "all-operations", Schema, configs("full"), 4 if t else 3, bound="5 start documents, 9 layer shapes, 6 field types")
    core.search(rep, "deep", Schema, configs("small")[1:4], 4 if t else 3, bound="3 start documents, fewer shapes")
