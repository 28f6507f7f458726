"""C05: after any edit history, encoding refuses or every reference denotes what it denoted."""
import pickle
import xml.etree.ElementTree as ET
from mc import core, docs
from mc.core import Violation, ensure, same, digest

LEVEL = "model_checking"
RULE = "all histories of edits and reference assignments on a two-layer document, merged when model and real object " \
       "graph coincide; in every state all codecs either refuse (exactly when the model has a dangling reference, a " \
       "foreign one, a wrong value or an undeclared field) or decode to the model"
DEADLINE = {"quick": 240, "thorough": 800}

TEXT = "a\U0001F600bcd"


class Refs:
    """Layers a (x: ref b, m: refs b, s: nspan b, t: span main) and b (v: i32, up: ref a), a second document of the
    same shape, and a node that was never attached."""

    def __init__(self, cfg):
        from docria.model import Document, DataTypes as T, Node, NodeSpan
        from docria.codec import MsgpackCodec, JsonCodec, XmlCodec
        self.T, self.Node, self.NodeSpan = T, Node, NodeSpan
        self.M, self.J, self.X = MsgpackCodec, JsonCodec, XmlCodec
        self.cfg = cfg
        self.node = {}    # label -> real node
        self.f = {}       # label -> {field: model value}
        self.extra = set()
        self.doc = self.make(cfg, "")
        self.fdoc = self.make(cfg, "F")
        self.layers = {n: list(ls) for n, ls in self.made.items() if not n.startswith("F")}
        self.flayers = {n[1:]: list(ls) for n, ls in self.made.items() if n.startswith("F")}
        self.node["D"] = Node(v=9)
        self.f["D"] = {"v": 9}
        self.gone = []
        self.text = TEXT
        self.textobj = self.doc.texts["main"]
        self.span_text = {}
        if cfg[0] == "linked":
            for op in (("x", "a0", "b1"), ("up", "b0", "a1"), ("m", "a0", ("b2", "b0")), ("s", "a1", "b0", "b1"), ("t", "a0", 1, 3)):
                self.apply(op)
        if cfg[0] == "decoded":
            for op in (("x", "a0", "b1"), ("up", "b0", "a1"), ("m", "a0", ("b2", "b0")), ("s", "a1", "b0", "b1"), ("t", "a0", 1, 3)):
                self.apply(op)
            self.doc = MsgpackCodec.decode(MsgpackCodec.encode(self.doc))
            for n in ("a", "b"):
                for l, r in zip(self.layers[n], self.doc[n]):
                    self.node[l] = r
            self.textobj = self.doc.texts["main"]
        if cfg[0] == "json":
            for op in (("x", "a0", "b1"), ("up", "b0", "a1"), ("m", "a0", ("b2", "b0")), ("s", "a1", "b0", "b1"), ("t", "a0", 1, 3)):
                self.apply(op)
            self.doc = JsonCodec.decode(JsonCodec.encode(self.doc))
            for n in ("a", "b"):
                for l, r in zip(self.layers[n], self.doc[n]):
                    self.node[l] = r
            self.textobj = self.doc.texts["main"]

    made = None

    def make(self, cfg, prefix):
        from docria.model import Document
        T, Node = self.T, self.Node
        doc = Document()
        doc.maintext = TEXT if not prefix else "other"
        fields = {"a": dict(x=T.noderef("b"), m=T.noderef_many("b"), s=T.nodespan("b"), t=T.textspan("main")),
                  "b": dict(v=T.int32(None), up=T.noderef("a"))}
        self.made = self.made or {}
        for n in cfg[1]:
            doc.add_layer(n, **fields[n])
            labels = [prefix + n + str(i) for i in range({"a": 2, "b": 3}[n])]
            self.made[prefix + n] = labels
            for i, l in enumerate(labels):
                self.f[l] = {"v": i} if n == "b" else {}
                self.node[l] = Node(self.f[l])
            doc[n].add_many([self.node[l] for l in labels])
        return doc

    # -- operations
    def live(self, n):
        return self.layers[n]

    def ops(self):
        a, b = self.live("a"), self.live("b")
        if not a or not b:
            return [("encode",)] + ([("readd", self.gone[-1])] if self.gone else [])
        la, lb, mb = a[0], b[-1], b[0]
        out = [("x", la, lb), ("x", la, "D"), ("x", la, "Fb0"), ("x", la, a[-1]), ("up", mb, la), ("up", mb, "Fa0"),
               ("m", a[-1], (lb, mb)), ("m", a[-1], (mb, "Fb1")), ("m", a[-1], (mb, "D")), ("m", la, ()),
               ("t", a[-1], 0, 2), ("t", la, 5, 5), ("t", la, 2, 4),
               ("foreigntext", la), ("wrong", la, "x"), ("wrong", la, "t"), ("wrong", a[-1], "m"), ("wrong", mb, "v"),
               ("wrong", la, "s"), ("foreignspan", a[-1]), ("crossspan", a[-1]),
               ("extra", mb, "z"), ("extra", lb, 0), ("extra", la, ""), ("extra", la, None), ("add", "a"), ("add", "b"), ("sort", "b"), ("sort", "a"),
               ("remove", mb), ("remove", lb), ("remove", la), ("unset", la, "x"), ("unset", la, "m"), ("unset", a[-1], "s"),
               ("newlayer", "b"), ("newtext", TEXT), ("newtext", "zzz"), ("compact",), ("encode",)]
        if len(b) > 1:
            out += [("s", la, b[0], b[1]), ("s", a[-1], b[0], b[-1])]
        if self.gone:
            out += [("readd", self.gone[-1]), ("x", la, self.gone[-1])]
        return out

    def n(self, l):
        return self.node[l]

    def where(self, l):
        for n, ls in self.layers.items():
            if l in ls:
                return n, ls.index(l)
        return None

    def apply(self, op):
        k = op[0]
        if k in ("x", "up"):
            self.n(op[1])[k] = self.n(op[2])
            self.f[op[1]][k] = ("ref", op[2])
        elif k == "m":
            self.n(op[1])["m"] = [self.n(l) for l in op[2]]
            self.f[op[1]]["m"] = ("refs",) + tuple(op[2])
        elif k == "s":
            self.n(op[1])["s"] = self.NodeSpan(self.n(op[2]), self.n(op[3]))
            self.f[op[1]]["s"] = ("nspan", op[2], op[3])
        elif k == "t":
            i, j = min(op[2], len(self.text)), min(op[3], len(self.text))
            self.n(op[1])["t"] = self.doc.texts["main"][i:j]
            self.f[op[1]]["t"] = ("span", self.text, i, j)
        elif k == "foreigntext":
            self.n(op[1])["t"] = self.fdoc.texts["main"][1:2]
            self.f[op[1]]["t"] = ("span", "other", 1, 2)
        elif k == "foreignspan":
            self.n(op[1])["s"] = self.NodeSpan(self.n("Fb0"), self.n("Fb1"))
            self.f[op[1]]["s"] = ("nspan", "Fb0", "Fb1")
        elif k == "crossspan":  # a span over layer a where one over b is declared
            a = self.live("a")
            self.n(op[1])["s"] = self.NodeSpan(self.n(a[0]), self.n(a[-1]))
            self.f[op[1]]["s"] = ("nspan", a[0], a[-1])
        elif k == "wrong":
            v = {"x": 1, "t": "ab", "m": [1, 2], "v": "one", "s": [0, 1]}[op[2]]
            self.n(op[1])[op[2]] = v
            self.f[op[1]][op[2]] = ("wrong", repr(v))
        elif k == "unset":
            self.n(op[1]).pop(op[2], None)
            self.f[op[1]].pop(op[2], None)
        elif k == "extra":
            self.n(op[1])["undeclared"] = op[2]
            self.extra.add(op[1])
        elif k == "add":
            l = "%s+%d" % (op[1], len(self.node))
            self.f[l] = {"v": 5} if op[1] == "b" else {}
            self.node[l] = self.doc[op[1]].add(**self.f[l])
            self.layers[op[1]].append(l)
        elif k == "remove":
            self.doc[self.where(op[1])[0]].remove(self.n(op[1]))
            self.layers[self.where(op[1])[0]].remove(op[1])
            self.gone.append(op[1])
        elif k == "readd":
            n = "a" if op[1][0] == "a" else "b"
            self.doc[n].add_many([self.n(op[1])], full_validation=False)
            self.layers[n].append(op[1])
            self.gone.remove(op[1])
        elif k == "sort":  # reverse
            pos = {id(self.n(l)): i for i, l in enumerate(self.layers[op[1]])}
            self.doc[op[1]].sort(lambda n: -pos[id(n)])
            self.layers[op[1]].reverse()
        elif k == "compact":
            for n in ("a", "b"):
                self.doc[n].compact()
        elif k == "newlayer":  # another layer takes the name; the old nodes stay attached to the old layer
            old = self.doc["b"]
            self.doc.add_layer("b", v=self.T.int32(None), up=self.T.noderef("a"))
            labels = []
            for i in range(len(self.layers["b"])):
                l = "b!%d" % len(self.node)
                self.f[l] = {"v": 20 + i}
                self.node[l] = self.doc["b"].add(v=20 + i)
                labels.append(l)
            self.layers["b"] = labels
        elif k == "newtext":
            self.doc.add_text("main", op[1])
            self.text = op[1]
            self.textobj = self.doc.texts["main"]
        elif k == "encode":
            try:
                self.M.encode(self.doc)
            except Exception:
                pass
        else:
            raise AssertionError(op)

    # -- model of what has to be refused
    def bad_value(self, layer, field, v):
        target = {"x": "b", "m": "b", "s": "b", "up": "a"}.get(field)
        if v is None or not isinstance(v, tuple):
            return False
        if v[0] == "wrong":
            return True
        if v[0] == "span":
            return v[1] != self.text
        labels = v[1:]
        if any(l not in self.layers[target] for l in labels):
            return True
        return v[0] == "nspan" and self.layers[target].index(v[1]) > self.layers[target].index(v[2])

    def bad(self):
        return [(l, f) for n, ls in self.layers.items() for l in ls for f, v in self.f[l].items() if self.bad_value(n, f, v)]

    def spec(self):
        def val(v):
            if not isinstance(v, tuple):
                return v
            if v[0] == "ref":
                return ("ref",) + self.where(v[1])
            if v[0] == "refs":
                return ("refs", "b", tuple(self.where(l)[1] for l in v[1:]))
            if v[0] == "nspan":
                return ("nspan", "b", self.where(v[1])[1], self.where(v[2])[1])
            return ("span", "main", v[2], v[3])
        fields = {"a": (("x", ("ref", "b")), ("m", ("refs", "b")), ("s", ("nspan", "b")), ("t", ("span", "main"))),
                  "b": (("v", ("i32", None)), ("up", ("ref", "a")))}
        return ({}, (("main", self.text),),
                tuple((n, fields[n], tuple({f: val(v) for f, v in self.f[l].items()} for l in self.layers[n]))
                      for n in self.cfg[1]))

    def observe(self):
        bad = self.bad()
        extra = [l for ls in self.layers.values() for l in ls if l in self.extra]
        ways = (("msgpack", lambda: self.M.encode(self.doc), lambda d: self.M.decode(d)),
                ("json", lambda: self.J.encode(self.doc), lambda d: self.J.decode(d)),
                ("pickle", lambda: pickle.dumps(self.doc), lambda d: pickle.loads(d)),
                ("xml", lambda: self.X.encode_utf8string(self.doc), None))
        for what, enc, dec in ways:
            if bad or extra:
                core.refused(enc, "%s of a document with %s" % (what, bad or "undeclared field on %s" % extra))
            else:
                data = enc()
                if dec is not None:
                    docs.compare(dec(data), self.spec(), what)
                else:
                    self.check_xml(data)
            self.unchanged(what)
        tolerant = lambda: self.M.encode(self.doc, extra_fields_ok=True)
        if bad:
            core.refused(tolerant, "tolerating extra fields, a document with %s" % bad)
        else:
            docs.compare(self.M.decode(tolerant()), self.spec(), "msgpack tolerating extra fields")
            self.check_xml(self.X.encode_utf8string(self.doc, extra_fields_ok=True))
        self.unchanged("tolerating extra fields")

    def unchanged(self, what):
        for n, ls in self.layers.items():
            core.identical(self.doc[n], [self.n(l) for l in ls], "layer %s after %s" % (n, what))
        for l in self.f:
            want = set(self.f[l]) | ({"undeclared"} if l in self.extra else set())
            same(set(self.n(l)), want, "fields of %s after %s" % (l, what))
            for f, v in self.f[l].items():
                if isinstance(v, tuple) and v[0] == "ref":
                    ensure(self.n(l)[f] is self.n(v[1]), "reference %s.%s changed by %s", l, f, what)

    def check_xml(self, text):
        root = ET.fromstring(text)
        for layer in root.find("layers"):
            name = layer.get("name")
            rows = layer.findall("n")
            same(len(rows), len(self.layers[name]), "xml nodes of layer %s" % name)
            for l, row in zip(self.layers[name], rows):
                for f in ("x", "up"):
                    v = self.f[l].get(f)
                    same(row.get(f), None if v is None else str(self.where(v[1])[1]), "xml reference %s of %s" % (f, l))
                v = self.f[l].get("m")
                arr = [a for a in row.findall("a") if a.get("name") == "m"]
                same([e.get("v") for a in arr for e in a], [str(self.where(t)[1]) for t in (v or ("",))[1:]], "xml array of %s" % l)
                v = self.f[l].get("s")
                sp = [(d.get("from"), d.get("to")) for d in row.findall("d") if d.get("name") == "s"]
                same(sp, [] if v is None else [("b.%d" % self.where(v[1])[1], "b.%d" % self.where(v[2])[1])], "xml node span of %s" % l)

    def key(self):
        return (repr(self.layers), repr(sorted(self.f.items())), self.text, sorted(self.extra), tuple(self.gone),
                digest(self.doc, [self.node[l] for l in sorted(self.node)]))


def main(rep):
    t = core.thorough()
    core.search(rep, "from-unlinked", Refs, [("plain", "ab")], 4 if t else 3, bound="42 operations")
    core.search(rep, "from-linked", Refs, [("linked", "ab"), ("linked", "ba")], 4 if t else 3, bound="42 operations")
    core.search(rep, "from-decoded", Refs, [("decoded", "ab"), ("json", "ba")], 3 if t else 2, bound="42 operations")
