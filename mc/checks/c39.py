"""C39: a document that was read back lives on like the one it was written from."""
import copy
import io
import pickle
from mc import core, docs
from mc.core import ensure, same, digest, short

LEVEL = "model_checking"
RULE = "breadth-first search over edit histories of a document and its twin, read back from it by one of eight ways at any point of the history and from " \
       "then on edited alike; after every step both answer alike, look alike and encode to the same bytes; reference: the document that was never encoded"
DEADLINE = {"quick": 300, "thorough": 820}

WORDS = ("w", (("text", ("span", "main")), ("k", ("i32", 4)), ("s", ("str", None)), ("up", ("ref", "w"))),
         ({"text": ("span", "main", 0, 2), "k": 1}, {"text": ("span", "main", 2, 4), "k": 2, "up": ("ref", "w", 0)}, {"text": ("span", "main", 5, 5), "s": "é"}))
TREE = ("t", (("kids", ("refs", "t")), ("span", ("nspan", "w")), ("b", ("bool", True))),
        ({"kids": ("refs", "t", (1, 2)), "span": ("nspan", "w", 0, 2)}, {"span": ("nspan", "w", 1, 1), "b": False}, {"kids": ("refs", "t", (0,))}))
INNER = ({"i": 1}, (("main", "in"),), (("l", (("s", ("span", "main")),), ({"s": ("span", "main", 0, 2)},)),))
MISC = ("m", (("f", ("f64", None)), ("y", ("bin",)), ("alt", ("span", "alt")), ("doc", ("ext", "doc")), ("d", ("ext", "x"))),
        ({"f": 0.1, "y": b"\xff", "alt": ("span", "alt", 1, 2), "d": ("ext", "x", b"\x00\xff")}, {}, {"doc": ("doc", INNER)}))
TEXTS = (("main", "a\U0001F600 bcd"), ("alt", "xyz"))
STARTS = {"words": ({"p": 1}, TEXTS, (WORDS,)), "tree": ({}, TEXTS, (WORDS, TREE)), "misc": ({"q": [1, {"z": None}]}, TEXTS, (MISC,)),
          "bare": ({}, (("main", ""),), (("w", (("k", ("i32", None)),), ()),))}
JSONABLE = ("words", "tree", "bare")


def ways():
    from docria.codec import MsgpackCodec as M, JsonCodec as J, MsgpackDocument
    return {"bytes": lambda d: M.decode(M.encode(d)), "stream": lambda d: M.decode(io.BytesIO(M.encode(d))), "lazy": lambda d: MsgpackDocument(M.encode(d)).document(),
            "json": lambda d: J.decode(J.encode(d)), "json-object": lambda d: J.decode_object(J.encode_object(d)), "pickle": lambda d: pickle.loads(pickle.dumps(d)), "copy": copy.copy, "deepcopy": copy.deepcopy,
            "section": lambda d: M.decode(pickle.loads(pickle.dumps(MsgpackDocument(M.encode(d)))).binary())}


def sources():
    """Objects from which documents can be taken again and again; None for the ways that have only one."""
    from docria.codec import MsgpackCodec as M, JsonCodec as J, MsgpackDocument

    def from_bytes(d):
        data = M.encode(d)
        return lambda: M.decode(data)

    def lazy(d):
        src = MsgpackDocument(M.encode(d))
        return src.document

    def lazy_asked(d):
        src = MsgpackDocument(M.encode(d))
        src.properties(), src.schema(), src.texts()
        return src.document

    def held(d):
        src = MsgpackDocument(io.BytesIO(M.encode(d)))
        return src.document

    def json_object(d):
        obj = J.encode_object(d)
        return lambda: J.decode_object(obj)

    def pickled(d):
        data = pickle.dumps(d)
        return lambda: pickle.loads(data)

    return {"bytes": from_bytes, "lazy": lazy, "lazy-asked": lazy_asked, "lazy-stream": held, "json-object": json_object, "pickle": pickled,
            "copy": lambda d: lambda: copy.copy(d), "deepcopy": lambda d: lambda: copy.deepcopy(d)}


class Siblings:
    """Documents taken from one source; edits of one of them show in none of the others, nor in those taken later."""

    def __init__(self, cfg):
        start, how, way = cfg
        self.original = docs.build(STARTS[start], how)
        self.take = sources()[way](self.original)
        self.docs = [self.take(), self.take()]
        self.expected = [docs.observed(self.docs[0], True)]
        self.outcome = None

    def edits(self, d):
        out = [("prop",), ("text",), ("inner",), ("layer",)]
        for name, l in d.layers.items():
            out += [(e, name) for e in ("add", "field", "drop", "clear", "values")]
            if len(l):
                out.append(("remove", name))
            out += [("unfield", name, f) for f in list(l.schema.fields)[:2]]
        return out

    def ops(self):
        return [("edit", i, e) for i, d in enumerate(self.docs) for e in self.edits(d)] + [("take",)] * (len(self.docs) < 3)

    def edit(self, d, e):
        from docria.model import DataTypes as T, ExtData
        if e[0] == "prop":
            d.props["only%d" % len(d.props)] = "here"
        elif e[0] == "inner":
            for v in d.props.values():
                if isinstance(v, list):
                    v.append("here")
        elif e[0] == "text":
            d.add_text("only%d" % len(d.texts), "here")
        elif e[0] == "layer":
            d.add_layer("only%d" % len(d.layers), a=T.int32(5), t=T.textspan("main"))
        else:
            l = d.layers[e[1]]
            if e[0] == "add":
                l.add()
            elif e[0] == "field":
                l.add_field("only%d" % len(l.schema.fields), T.int32(7))
            elif e[0] == "drop":
                d.remove_layer(e[1], fieldcascade=True)
            elif e[0] == "clear":
                l.retain([])
            elif e[0] == "remove":
                l.remove(l.first())
            elif e[0] == "unfield":
                l.remove_field(e[2])
            elif e[0] == "values":
                for n in l:
                    for f, v in list(n.items()):
                        if isinstance(v, list):
                            v.clear()
                        elif isinstance(v, int):
                            n[f] = v + 1
                        elif isinstance(v, ExtData) and v.type == "doc":
                            v.decode().props["only"] = "here"

    def apply(self, op):
        if op[0] == "take":
            d = self.take()
            same(docs.observed(d, True), self.expected[0], "a document taken from the source after edits of the earlier ones")
            self.docs.append(d)
            return
        before = [docs.observed(d, True) for d in self.docs]
        try:
            self.edit(self.docs[op[1]], op[2])
            self.outcome = "done"
        except core.Violation:
            raise
        except Exception as e:
            self.outcome = type(e).__name__
        for i, d in enumerate(self.docs):
            if i != op[1]:
                same(docs.observed(d, True), before[i], "document %d after %s of document %d, both taken from one source" % (i, op[2], op[1]))

    def observe(self):
        same(docs.observed(self.take(), True), self.expected[0], "a document taken from the source after edits of the earlier ones")

    def key(self):
        return repr(self.outcome), digest(*self.docs)


class Twins:
    """docs[0] is the original, docs[1] its twin."""

    def __init__(self, cfg):
        self.start, self.how, self.mode, way = cfg
        self.docs = [docs.build(STARTS[self.start], self.how)]
        self.ways = ways()
        self.outcome = None
        if way:
            self.apply(("fork", way))

    def ops(self):
        d = self.docs[0]
        out = []
        few = self.mode == "few"
        if len(self.docs) == 1:
            out += [("fork", w) for w in self.ways if not few or w in ("bytes", "json", "pickle")]
        elif not few:
            out += [("again", w) for w in ("bytes", "json")]
        if len(self.docs) > 1:
            out += [("alone", 0), ("alone", 1)]
        out = [o for o in out if not str(o[1]).startswith("json") or self.start in JSONABLE]
        for name, layer in d.layers.items():
            n = len(layer)
            out += [("add", name, "empty"), ("add", name, "full"), ("compact", name)]
            if n:
                out += [("remove", name, i) for i in sorted({0, n - 1} | (set() if few else {n // 2}))]
                out += [("set", name, i) for i in sorted({0, n - 1})] + [("sort", name)]
                if not few:
                    out += [("retain", name), ("unset", name, 0), ("many", name)]
            if not few:
                for f in list(layer.schema.fields)[:2]:
                    out += [("unfield", name, f, False), ("unfield", name, f, True)]
                out += [("drop", name, False), ("drop", name, True)]
            if "new" not in layer.schema.fields:
                out += [("field", name, k) for k in (("i", "span") if few else ("i", "span", "refs", "nspan"))]
        if not few:
            if "x" not in d.layers:
                out.append(("layer", "x"))
            if "more" not in d.texts:
                out.append(("text", "more"))
            out += [("prop", "p", [1, "two"]), ("encode", "msgpack"), ("encode", "json")]
        return out

    def alone(self, k):
        """Edit one of the two; the other must not notice."""
        other = self.docs[1 - k]
        before, one = docs.observed(other), self.docs[k]
        for name, l in one.layers.items():
            for n in list(l):
                n["left behind"] = 1
                for f, v in n.items():
                    if isinstance(v, list):
                        v.clear()
            l.add_field("other", self.docs[k].texts["main"].spantype)
            l.add()
            if len(l) > 1:
                l.remove(l.first())
        one.props["only"] = "here"
        for v in one.props.values():
            if isinstance(v, list):
                v.append("here")
        one.add_text("only", "here")
        one.add_layer("only")
        same(docs.observed(other), before, "the %s, after edits of %s" % (("document read back", "the original") if k == 0 else ("original", "the document read back")))
        self.docs[:] = [other]

    def apply(self, op):
        if op[0] == "alone":
            self.alone(op[1])
            self.outcome = ("alone",)
            return
        if op[0] in ("fork", "again"):
            from docria.codec import MsgpackCodec, DataError
            from docria.model import DataValidationError, SchemaValidationError
            src = self.docs[-1]
            try:
                MsgpackCodec.encode(src)
            except Exception:
                # refused: nothing to read back, decided by C05 and C22
                self.outcome = ("refused",)
                return
            back = self.ways[op[1]](src)
            ensure(back is not src, "%s gives the same document back", op[1])
            self.docs[1:] = [back]
            self.outcome = ("read back",)
            return
        got = []
        for d in self.docs:
            try:
                got.append(("done", self.do(d, op)))
            except core.Violation:
                raise
            except Exception as e:
                got.append(("refused", type(e).__name__))
        if len(got) > 1:
            same(got[1], got[0], "%s on the document read back, against the original" % (op,))
        self.outcome = got[0]

    def value(self, d, t, i):
        """A value for a field of type t, made from the document d alone; None: there is none."""
        from docria.model import DataTypeEnum as E, NodeSpan, ExtData
        o = t.options
        target = d.layers.get(o.get("layer"))
        if t.typename == E.SPAN:
            text = d.texts.get(o["context"])
            return None if text is None else text[min(1 + i, len(text.text)):min(3 + i, len(text.text))]
        if t.typename in (E.NODEREF, E.NODEREF_MANY, E.NODEREF_SPAN):
            nodes = list(target) if target is not None else []
            if not nodes:
                return None
            return {E.NODEREF: lambda: nodes[i % len(nodes)], E.NODEREF_MANY: lambda: nodes[::-1],
                    E.NODEREF_SPAN: lambda: NodeSpan(nodes[0], nodes[i % len(nodes)])}[t.typename]()
        return {E.I32: 10 + i, E.I64: 1 << 40, E.F64: 2.5, E.BOOL: i % 2 == 0, E.STRING: "new%d" % i, E.BINARY: b"\x01\xfe", E.EXT: None}.get(t.typename)

    def do(self, d, op):
        from docria.model import Node, DataTypes as T
        from docria.codec import MsgpackCodec, JsonCodec
        name = op[0]
        if name == "text":
            d.add_text(op[1], "one more")
        elif name == "prop":
            d.props[op[1]] = list(op[2])
        elif name == "layer":
            d.add_layer(op[1], a=T.int32(5), w=T.noderef("w"), t=T.textspan("main")) if "w" in d.layers else d.add_layer(op[1], a=T.int32(5), t=T.textspan("main"))
        elif name == "encode":
            return core.h64(MsgpackCodec.encode(d) if op[1] == "msgpack" else JsonCodec.encode(d).encode())
        elif name == "drop":
            return d.remove_layer(op[1], fieldcascade=op[2])
        else:
            l = d.layers[op[1]]
            nodes = list(l)
            if name in ("add", "many"):
                kw = {}
                if op[-1] != "empty":
                    for f, t in l.schema.fields.items():
                        v = self.value(d, t, len(l))
                        if v is not None:
                            kw[f] = v
                if name == "add":
                    n = l.add(**kw)
                    return sorted(n.keys()), n is list(l)[-1]
                l.add_many([Node(**kw), Node()])
            elif name == "compact":
                l.compact()
            elif name == "remove":
                l.remove(nodes[op[2]])
                return nodes[op[2]].collection is None
            elif name == "retain":
                l.retain(nodes[::2])
            elif name == "sort":
                order = {id(n): i for i, n in enumerate(nodes)}
                l.sort(lambda n: -order[id(n)])
            elif name == "set":
                n = nodes[op[2]]
                for f, t in l.schema.fields.items():
                    v = self.value(d, t, op[2] + 1)
                    if v is not None:
                        n[f] = v
            elif name == "unset":
                for f in list(nodes[op[2]].keys()):
                    del nodes[op[2]][f]
            elif name == "unfield":
                return l.remove_field(op[2], leave_data=op[3])
            elif name == "field":
                t = {"i": lambda: T.int32(3), "span": lambda: T.textspan("main"), "refs": lambda: T.noderef_many("w"), "nspan": lambda: T.nodespan("w")}[op[2]]()
                l.add_field("new", t)
        return None

    def ask(self, d):
        """Answers of the rest of the library."""
        from docria.model import DataTypeEnum as E, NodeSpan
        out = []
        for name, l in d.layers.items():
            order = {id(n): i for i, n in enumerate(l)}
            first, last = l.first(), l.last()
            out.append((name, len(l), order.get(id(first)), order.get(id(last)), [(order.get(id(n.left)), order.get(id(n.right))) for n in l]))
            for f, t in l.schema.fields.items():
                out.append((f, [order[id(n)] for n in l[l[f].is_none()]], sum(1 for n in l if f in n)))
                if t.typename == E.NODEREF_SPAN:
                    for n in l:
                        v = n.get(f)
                        if isinstance(v, NodeSpan) and v.left.collection is not None and v.left.collection is v.right.collection:
                            try:
                                inner = {id(x): i for i, x in enumerate(v.left.collection)}
                                out.append(([inner.get(id(x)) for x in v], len(v), v.text()))
                            except Exception as e:
                                out.append(type(e).__name__)
                if t.typename == E.SPAN:
                    for n in l:
                        v = n.get(f)
                        if v is not None:
                            out.append((str(v), len(v), v.start, v.stop, str(v.trim())))
        return out

    def observe(self):
        from docria.codec import MsgpackCodec
        if len(self.docs) == 1:
            return
        a, b = [docs.observed(d, True) for d in self.docs]
        for part, x, y in zip(("properties", "texts", "layers"), a, b):
            if x != y:
                raise core.Violation("%s of the document read back are %s, of the original %s" % (part, short(y, 900), short(x, 900)))
        a, b = [self.ask(d) for d in self.docs]
        same(b, a, "answers of the document read back, against the original")
        a, b = [self.encoded(d) for d in self.docs]
        if isinstance(a, bytes) and isinstance(b, bytes):
            ensure(a == b or docs.observed(MsgpackCodec.decode(a), True) == docs.observed(MsgpackCodec.decode(b), True),
                   "the document read back encodes to another document than the original: %s, %s", short(b, 500), short(a, 500))
        else:
            same(b, a, "encoding the document read back, against the original")

    def encoded(self, d):
        from docria.codec import MsgpackCodec
        try:
            return MsgpackCodec.encode(d)
        except Exception as e:
            return type(e).__name__

    def key(self):
        return repr(self.outcome), digest(*self.docs)


def main(rep):
    t = core.thorough()
    full = [(s, h, "all", w) for s in STARTS for h in (("bulk", "holes") if s in ("words", "tree") else ("bulk",)) for w in ways() if not w.startswith("json") or s in JSONABLE]
    core.search(rep, "read-back", Twins, full, 3 if t else 2, bound="%d start documents and ways back, then every operation" % len(full))
    pairs = [(s, h, w) for s in STARTS for h in (("bulk", "holes") if t else ("bulk",)) for w in sources() if not w.startswith("json") or s in JSONABLE]
    core.search(rep, "siblings", Siblings, pairs, 3 if t else 2, bound="%d start documents and sources, two documents each, then every edit of one of them or a third one taken" % len(pairs))
    late = [(s, h, "all", None) for s in STARTS for h in (("bulk", "holes") if s in ("words", "tree") else ("bulk",))]
    core.search(rep, "any-time", Twins, late, 3 if t else 2, bound="%d start documents, every operation, read back at any time" % len(late))
    few = [(s, h, "few", w) for s in (("words", "tree") if t else ("words",)) for h in ("bulk", "holes") for w in (("bytes", "json", "pickle") if t else ("bytes", "json"))]
    core.search(rep, "deep", Twins, few, 4 if t else 3, bound="%d start documents and ways back, fewer operations" % len(few))
