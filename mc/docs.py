"""Documents as plain data: build the real document from it, and say what has to be observable.

A spec is (props, texts, layers): texts = ((name, string), ...), layers = ((name, fields, nodes), ...),
fields = ((field, type), ...), nodes = ({field: value}, ...).  Types: ("i32", default) ("i64", default)
("f64", default) ("bool", default) ("str", default) ("bin",) ("span", text) ("ref", layer) ("refs", layer)
("nspan", layer) ("ext", type).  Values of reference types: ("ref", layer, k) ("refs", layer, (k, ...))
("nspan", layer, i, j) ("span", text, i, j) ("ext", type, bytes) ("doc", spec).
The expected observation is computed from the spec alone, never from docria.
"""
import itertools
from .core import Violation, ensure, same, short

OPT = {"span": "context", "ref": "layer", "refs": "layer", "nspan": "layer", "ext": "type"}
NAME = {"i32": "i32", "i64": "i64", "f64": "f64", "bool": "i1", "str": "str", "bin": "bin", "span": "span",
        "ref": "noderef", "refs": "noderef_array", "nspan": "nodespan", "ext": "ext"}


def make_type(t):
    from docria.model import DataTypes as T
    k = t[0]
    if k == "bin":
        return T.binary
    return {"i32": T.int32, "i64": T.int64, "f64": T.float64, "bool": T.bool, "str": T.string, "span": T.textspan,
            "ref": T.noderef, "refs": T.noderef_many, "nspan": T.nodespan, "ext": T.ext}[k](t[1])


def build(spec, how="bulk"):
    """how: "bulk", "holes" (every node is surrounded by removed ones), "sorted" (added in reverse, then sorted)."""
    from docria.model import Document, Node
    props, texts, layers = spec
    doc = Document()
    doc.props.update(props)
    for name, text in texts:
        doc.add_text(name, text)
    nodes = {}
    for name, fields, values in layers:
        layer = doc.add_layer(name, **{f: make_type(t) for f, t in fields})
        nodes[name] = [Node() for _ in values]
        if how == "holes":
            extra = [Node() for _ in range(len(values) // 4 + 1)]
            mixed = list(nodes[name])
            for i, x in enumerate(extra):
                mixed.insert(i * 5, x)
            layer.add_many(mixed, default_fill=False)
            layer.remove(extra)
        elif how == "sorted":
            layer.add_many(nodes[name][::-1], default_fill=False)
            order = {id(n): i for i, n in enumerate(nodes[name])}
            layer.sort(lambda n: order[id(n)])
        else:
            layer.add_many(nodes[name], default_fill=False)
    for name, fields, values in layers:
        for node, d in zip(nodes[name], values):
            for f, v in d.items():
                node[f] = real_value(doc, nodes, v)
    return doc


def real_value(doc, nodes, v):
    if not isinstance(v, tuple):
        return v
    k = v[0]
    if k == "ref":
        return nodes[v[1]][v[2]]
    if k == "refs":
        return [nodes[v[1]][i] for i in v[2]]
    if k == "nspan":
        from docria.model import NodeSpan
        return NodeSpan(nodes[v[1]][v[2]], nodes[v[1]][v[3]])
    if k == "span":
        return doc.texts[v[1]][v[2]:v[3]]
    if k == "ext":
        from docria.model import ExtData
        return ExtData(v[1], v[2])
    if k == "doc":
        from docria.codec import MsgpackDocumentExt
        return MsgpackDocumentExt(build(v[1]))
    raise AssertionError(v)


def canon(v):
    """Plain values with their type told apart (1, 1.0 and True are different)."""
    if isinstance(v, dict):
        return ("map", tuple((canon(a), canon(b)) for a, b in v.items()))
    if isinstance(v, (list, tuple)):
        return ("list", tuple(canon(x) for x in v))
    if v is None or isinstance(v, (bool, int, float, str, bytes)):
        return (type(v).__name__, repr(v) if isinstance(v, float) else v)
    raise Violation("unexpected value %s of type %s" % (short(v), type(v).__name__))


def expected(spec, drop_empty=False):
    props, texts, layers = spec
    strings = dict(texts)
    out_layers = []
    for name, fields, values in layers:
        schema = tuple((f, NAME[t[0]], expected_options(t)) for f, t in fields)
        rows = []
        for d in values:
            row = {}
            for f, v in d.items():
                if drop_empty and isinstance(v, tuple) and v[0] == "refs" and not v[2]:
                    continue
                row[f] = expected_value(strings, v)
            rows.append(tuple(sorted(row.items())))
        out_layers.append((name, schema, tuple(rows)))
    return (canon(dict(props)), tuple(texts), tuple(out_layers))


def expected_options(t):
    if t[0] == "bin":
        return ()
    if t[0] in OPT:
        return ((OPT[t[0]], canon(t[1])),)
    return () if t[1] is None else (("default", canon(t[1])),)


def expected_value(strings, v):
    if not isinstance(v, tuple):
        return canon(v)
    if v[0] == "span":
        return ("span", v[1], v[2], v[3], strings[v[1]][v[2]:v[3]])
    if v[0] == "doc":
        return ("doc", expected(v[1], True))
    return v


def observed(doc, drop_empty=False, embedded=True):
    """The same description, read from a real document through its public interface."""
    from docria.model import Document, DataType2String
    ensure(isinstance(doc, Document), "not a document: %r", doc)
    rank = {}
    for lname, layer in doc.layers.items():
        same(layer.name, lname, "layer name")
        for i, n in enumerate(layer):
            ensure(n.collection is layer, "node %d of layer %r is not attached to it", i, lname)
            rank[id(n)] = (lname, i)
        same(len(layer), sum(1 for _ in layer), "length of layer %r" % lname)
    layers = []
    for lname, layer in doc.layers.items():
        schema = tuple((f, DataType2String[t.typename], tuple(sorted((k, canon(v)) for k, v in t.options.items())))
                       for f, t in layer.schema.fields.items())
        types = {f: DataType2String[t.typename] for f, t in layer.schema.fields.items()}
        rows = []
        for n in layer:
            row = {}
            for f, v in n.items():
                c = observed_value(doc, rank, v)
                if drop_empty and c[0] == "refs" and not c[2]:
                    continue
                if c[0] == "refs" and c[1] is None:
                    c = ("refs", dict((a, b) for a, b in layer.schema.fields[f].options.items()).get("layer"), c[2])
                row[f] = c
            rows.append(tuple(sorted(row.items())))
        layers.append((lname, schema, tuple(rows)))
    texts = []
    for tname, t in doc.texts.items():
        same(t.name, tname, "text name")
        texts.append((tname, t.text))
        same(str(t), t.text, "str(text)")
    return (canon(doc.props), tuple(texts), tuple(layers))


def observed_value(doc, rank, v):
    from docria.model import Node, NodeSpan, TextSpan, ExtData, Document
    if isinstance(v, Node):
        return ("ref",) + rank.get(id(v), ("outside this document", -1))
    if isinstance(v, NodeSpan):
        l, r = rank.get(id(v.left)), rank.get(id(v.right))
        if l is None or r is None or l[0] != r[0]:
            return ("nspan", "outside this document", l, r)
        return ("nspan", l[0], l[1], r[1])
    if isinstance(v, TextSpan):
        if doc.texts.get(v.text.name) is not v.text:
            return ("span", "of another text", v.start, v.stop, str(v))
        return ("span", v.text.name, v.start, v.stop, str(v))
    if isinstance(v, ExtData):
        data = v.data
        if isinstance(data, Document):
            return ("doc", observed(data, True))
        if v.type == "doc":
            from docria.codec import MsgpackCodec
            return ("doc", observed(MsgpackCodec.decode(data), True))
        return ("ext", v.type, bytes(data))
    if isinstance(v, Document):
        return ("doc", observed(v, True))
    if isinstance(v, list):
        got = [rank.get(id(n), ("outside this document", -1)) if isinstance(n, Node) else ("not a node", repr(n)) for n in v]
        names = {g[0] for g in got}
        if len(names) > 1:
            return ("refs", tuple(sorted(map(str, names))), tuple(got))
        return ("refs", names.pop() if names else None, tuple(g[1] for g in got))
    return canon(v)


def snapshot(doc, objs=()):
    """Everything observable of a document and of other nodes and collections, objects by identity included."""
    layers = []
    for name, l in doc.layers.items():
        layers.append((name, id(l), len(l), tuple(id(n) for n in l), l.first() and id(l.first()), l.last() and id(l.last()),
                       tuple((f, id(t), repr(t)) for f, t in l.schema.fields.items()),
                       tuple(tuple((f, id(v), repr(seen_value(v))) for f, v in n.items()) for n in l)))
    return (canon(doc.props), id(doc.props), tuple((k, id(t), t.text) for k, t in doc.texts.items()), tuple(layers), tuple(map(seen_object, objs)))


def seen_object(o):
    from docria.model import Node, Text
    if isinstance(o, Node):
        return id(o.collection), tuple((f, id(v), repr(seen_value(v))) for f, v in o.items())
    if isinstance(o, Text):
        return o.name, o.text
    return tuple(repr(seen_value(x)) for x in o)


def seen_value(v):
    from docria.model import Node, NodeSpan, TextSpan, ExtData
    if isinstance(v, Node):
        return ("node", id(v))
    if isinstance(v, NodeSpan):
        return ("nspan", id(v.left), id(v.right), tuple(map(id, v)))
    if isinstance(v, TextSpan):
        return ("span", id(v.text), v.start, v.stop)
    if isinstance(v, ExtData):
        return ("ext", v.type, id(v.data))
    if isinstance(v, list):
        return ("list", tuple(map(id, v)))
    return canon(v)


def compare(doc, spec, what, drop_empty=True):
    got, exp = observed(doc, drop_empty), expected(spec, drop_empty)
    if got != exp:
        for part, g, e in zip(("properties", "texts", "layers"), got, exp):
            if g != e:
                raise Violation("%s: %s differ: got %s, expected %s" % (what, part, short(g, 900), short(e, 900)))


# ---------------------------------------------------------------------------------------------------------------
# Spaces of documents

LEN = [0, 1, 2, 15, 16, 31, 32, 33, 127, 128, 255, 256, 257]
BIGLEN = [65535, 65536]
INTS32 = [0, 1, -1, 127, 128, -32, -33, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536,
          2147483647, -2147483648]
INTS64 = INTS32 + [2147483648, -2147483649, 4294967295, 4294967296, 9223372036854775807, -9223372036854775808]
FLOATS = [0.0, -0.0, 1.0, 1.5, -2.25, 0.1, 1e308, -1e308, 5e-324, 3.4e38, 1e16, 123456789.0, float("inf"), float("-inf"), float("nan")]
STRINGS = ["", "a", "ab", " ", "\n", "\t\r\n", "\x00", "\x1f", "\x7f", "é", "\u00a0", "\u2028", "\ufeff", "\ufffd", "\uffff",
           "\U00010000", "\U0001F600", "\U0010FFFF", "e\u0301", "<b>&amp;'\"</b>", "]]>", "%s%d{}", "\\u0041", "DM_1",
           "null", "true", "1", "İı", "\ud7ff\ue000"]
BYTES = [b"", b"\x00", b"abc", b"\xff\xfe", bytes(range(256)), b"DM_1", b"\xc3\x28"]


def one_field(tspec, value_rows, texts=(("main", "a\U0001F600bc"),), extra_layers=()):
    return ({}, texts, (("l", (("f", tspec),), tuple(value_rows)),) + tuple(extra_layers))


def scalar_values(big=False):
    lens = LEN + (BIGLEN if big else [])
    for d in (None, 0, 5, -5):
        for v in INTS32:
            yield ("i32", d), v
    for d in (None, 0, 1 << 40):
        for v in INTS64:
            yield ("i64", d), v
    for d in (None, 0.0, 1.5, 0.1):
        for v in FLOATS:
            yield ("f64", d), v
    for d in (None, False, True):
        for v in (False, True):
            yield ("bool", d), v
    for d in (None, "", "é"):
        for v in STRINGS + ["x" * n for n in lens] + ["é" * n for n in lens]:
            yield ("str", d), v
    for v in BYTES + [b"\x81" * n for n in lens]:
        yield ("bin",), v
    for v in BYTES + [b"z" * n for n in lens]:
        yield ("ext", "blob"), ("ext", "blob", v)


def scalars(big=False):
    for t, v in scalar_values(big):
        yield one_field(t, [{"f": v}])
        yield one_field(t, [{}, {"f": v}, {}])
        yield one_field(t, [{"f": v}, {}])
        yield one_field(t, [{"f": v}, {"f": v}])


def properties(big=False):
    lens = LEN + (BIGLEN if big else [])
    values = [None, True, False] + INTS64 + [18446744073709551615] + FLOATS + STRINGS + \
             [[], [1], [[], [None]], {}, {"a": {"b": [1, "x"]}}, [True, 1, 1.0]]
    for v in values:
        yield ({"k": v}, (), ())
        yield ({"a": 1, "k": v, "é": "z"}, (("main", "x"),), ())
    for k in STRINGS:
        yield ({k: 1}, (), ())
    for n in lens:
        yield ({"k": "x" * n}, (), ())
        yield ({"k": "é" * n}, (), ())
        yield ({"k": list(range(n))}, (), ())
        if n < 300:
            yield ({"k%d" % i: i for i in range(n)}, (), ())
            yield ({"k": {"n%d" % i: i for i in range(n)}}, (), ())


def byte_properties():
    for v in BYTES + [b"q" * n for n in LEN]:
        yield ({"k": v}, (), ())
        yield ({"k": [v, {"x": v}], "z": "é"}, (), ())


def names():
    for s in STRINGS:
        f = s or "f"
        yield ({}, ((s, "abc"),),
               ((s, ((f, ("str", None)), (f + "2", ("span", s)), (f + "3", ("ref", s)), (f + "4", ("ext", s or "e"))),
                 ({f: "v", f + "2": ("span", s, 1, 2), f + "3": ("ref", s, 0), f + "4": ("ext", s or "e", b"1")}, {})),))


def texts():
    strings = ["", "a", "ab", "a\U0001F600b", "\n \t", "é\u0301x", "abcd"]
    for s in strings:
        yield ({}, (("main", s),), ())
        for s2 in strings:
            yield ({}, (("main", s), ("b", s2)), ())
    # every pair of spans over a text of four code points, with and without a second text using the same offsets
    text = "a\U0001F600\né"
    spans = [(i, j) for i in range(5) for j in range(i, 5)]
    for a in spans:
        for b in spans + [None]:
            rows = [{"f": ("span", "main") + a}] + ([{"f": ("span", "main") + b}] if b else [{}])
            yield ({}, (("main", text),), (("l", (("f", ("span", "main")),), tuple(rows)),))
            if b:
                yield ({}, (("main", text), ("alt", "wxyz")),
                       (("l", (("f", ("span", "main")), ("g", ("span", "alt"))),
                         ({"f": ("span", "main") + a, "g": ("span", "alt") + b}, {"g": ("span", "alt") + a}, {})),))
    for a in spans:  # two fields and two layers over one text
        for b in spans:
            yield ({}, (("main", text),), (("l", (("f", ("span", "main")), ("g", ("span", "main"))),
                                            ({"f": ("span", "main") + a, "g": ("span", "main") + b},)),
                                           ("k", (("f", ("span", "main")),), ({"f": ("span", "main") + b}, {}))))


def references(n=2):
    """Every assignment of references within and between two layers, declared in either order."""
    opts = [None] + list(range(n))
    for order in (0, 1):
        for cross in itertools.product(opts, repeat=n):
            for own in itertools.product(opts, repeat=n):
                for arr in [None, ()] + [c for r in (1, 2) for c in itertools.product(range(n), repeat=r)]:
                    a = ("a", (("x", ("ref", "b")), ("own", ("ref", "a")), ("m", ("refs", "b"))),
                         tuple(dict(([("x", ("ref", "b", cross[i]))] if cross[i] is not None else []) +
                                    ([("own", ("ref", "a", own[i]))] if own[i] is not None else []) +
                                    ([("m", ("refs", "b", arr))] if arr is not None and i == 0 else []))
                               for i in range(n)))
                    b = ("b", (("v", ("i32", None)),), tuple({"v": 10 + i} for i in range(n)))
                    yield ({}, (), (a, b) if order == 0 else (b, a))


def arrays():
    for n in range(4):
        for r in range(4):
            for c in itertools.product(range(n), repeat=r):
                yield ({}, (), (("a", (("m", ("refs", "a")),), tuple({"m": ("refs", "a", c)} if i == 0 else {} for i in range(n))),)) \
                    if n else ({}, (), (("a", (("m", ("refs", "a")),), ()),))
    for n in (15, 16, 17, 300):
        yield ({}, (), (("a", (("m", ("refs", "a")),), tuple({"m": ("refs", "a", tuple(range(n - 1, -1, -1)))} if i % 100 < 3 else {} for i in range(n))),))


def nodespans(n=4):
    for i in range(n):
        for j in range(i, n):
            for k in range(n):
                for order in (0, 1):
                    a = ("a", (("s", ("nspan", "b")),), ({"s": ("nspan", "b", i, j)}, {}, {"s": ("nspan", "b", k, n - 1)}))
                    b = ("b", (("v", ("i32", None)), ("s", ("nspan", "b"))),
                         tuple({"v": x, "s": ("nspan", "b", min(i, x), x)} if x >= i else {"v": x} for x in range(n)))
                    yield ({}, (), (a, b) if order == 0 else (b, a))


def sizes(big=False):
    for n in LEN + ([1000, 65535, 65536] if big else [1000]):
        yield ({}, (("main", "ab" * 40),),
               (("l", (("v", ("i32", None)), ("s", ("span", "main")), ("p", ("ref", "l"))),
                 tuple(dict([("v", i)] + ([("s", ("span", "main", i % 60, i % 60 + i % 7))] if i % 3 else []) +
                            ([("p", ("ref", "l", i - 1))] if i else [])) for i in range(n))),))
    for n in LEN[:9]:
        yield ({}, (), tuple(("layer%d" % i, (("p", ("ref", "layer%d" % ((i + 1) % n))),),
                              tuple({"p": ("ref", "layer%d" % ((i + 1) % n), 0)} for _ in range(1 + i % 2))) for i in range(n)))
        yield ({}, (), (("l", tuple(("f%d" % i, ("i32", None)) for i in range(n)),
                         ({"f%d" % i: i for i in range(n)}, {"f%d" % i: -i for i in range(0, n, 2)}, {})),))
        yield ({}, tuple(("t%d" % i, "x" * i) for i in range(n)), ())
    for n in LEN:
        yield ({}, (("main", "0123456789" * 26),),
               (("l", (("s", ("span", "main")),), tuple({"s": ("span", "main", i, i + 1)} for i in range(n))),))
    for n in LEN + BIGLEN:
        yield ({}, (("main", "x" * n + "\U0001F600"),), (("l", (("s", ("span", "main")),), ({"s": ("span", "main", n, n + 1)},)),))


def embedded():
    inner = ({"i": 1}, (("main", "in"),), (("l", (("s", ("span", "main")),), ({"s": ("span", "main", 0, 2)},)),))
    for rows in ([{"d": ("doc", inner)}], [{}, {"d": ("doc", inner)}], [{"d": ("doc", inner)}] * 2):
        yield ({}, (("main", "out"),), (("l", (("d", ("ext", "doc")), ("s", ("span", "main"))), tuple(rows)),))
    outer = ({}, (), (("x", (("d", ("ext", "doc")),), ({"d": ("doc", inner)},)),))
    yield ({}, (), (("l", (("d", ("ext", "doc")),), ({"d": ("doc", outer)},)),))


def mixed():
    """All subsets of fields set on two nodes of a layer that has every type."""
    fields = (("i", ("i32", None)), ("j", ("i64", 3)), ("f", ("f64", None)), ("b", ("bool", None)), ("s", ("str", "d")),
              ("y", ("bin",)), ("t", ("span", "main")), ("r", ("ref", "m")), ("a", ("refs", "m")), ("n", ("nspan", "m")))
    vals = {"i": -7, "j": 1 << 40, "f": 2.5, "b": True, "s": "é", "y": b"\x00\xff", "t": ("span", "main", 1, 3),
            "r": ("ref", "m", 1), "a": ("refs", "m", (1, 0, 1)), "n": ("nspan", "m", 0, 1)}
    for mask in range(1 << len(fields)):
        d = {f: vals[f] for k, (f, _) in enumerate(fields) if mask >> k & 1}
        yield ({"p": mask}, (("main", "a\U0001F600bc"),), (("m", fields, (d, {})),))
        yield ({}, (("main", "a\U0001F600bc"),), (("m", fields, ({f: vals[f] for f in vals if f not in d}, d)),))


LADDER = list(range(0, 36)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]

PRECISE = [0.1, 1 / 3, 2.0 ** 53 + 1, 1e-300, 123456789.123456789, -0.0, float("inf"), float("nan"), 5e-324]


def scaled_values(kind, n):
    """A value for each of n nodes, none equal to its neighbours, of one type."""
    if kind == "i32":
        return ("i32", None), [INTS32[i % len(INTS32)] for i in range(n)]
    if kind == "i64":
        return ("i64", 5), [INTS64[-1 - i % len(INTS64)] for i in range(n)]
    if kind == "f64":
        return ("f64", None), [PRECISE[i % len(PRECISE)] if i % 2 else i / 7 for i in range(n)]
    if kind == "bool":
        return ("bool", True), [(i * i // 2) % 2 == 0 for i in range(n)]
    if kind == "str":
        return ("str", "d"), [STRINGS[i % len(STRINGS)] + ("" if i % 3 else str(i)) for i in range(n)]
    if kind == "bin":
        return ("bin",), [bytes([i % 256]) * (i % 5) for i in range(n)]
    if kind == "ext":
        return ("ext", "blob"), [("ext", "blob", bytes([i % 256]) * (i % 5)) for i in range(n)]
    if kind == "span":
        return ("span", "main"), [("span", "main", i % 60, i % 60 + i % 5) for i in range(n)]
    if kind == "ref":
        return ("ref", "l"), [("ref", "l", (i * 7 + 3) % n) for i in range(n)]
    if kind == "refs":
        return ("refs", "l"), [("refs", "l", tuple((i * 3 + k) % n for k in range(i % 4))) for i in range(n)]
    return ("nspan", "l"), [("nspan", "l", min(i, (i * 5) % n), max(i, (i * 5) % n)) for i in range(n)]


def scaled():
    """Every type at every layer size of a ladder, set on all nodes, on some, on the first or last only, all alike."""
    for kind in ("i32", "i64", "f64", "bool", "str", "bin", "ext", "span", "ref", "refs", "nspan"):
        for n in LADDER:
            t, vals = scaled_values(kind, n)
            patterns = {"all": lambda i: True, "odd": lambda i: i % 2, "third": lambda i: i % 3 != 1, "first": lambda i: i == 0,
                        "last": lambda i: i == n - 1, "butfirst": lambda i: i > 0, "butlast": lambda i: i < n - 1,
                        "half": lambda i: i < n // 2, "none": lambda i: False}
            for name, keep in patterns.items():
                yield ({}, (("main", "0123456789\U0001F600" * 7),),
                       (("l", (("f", t), ("g", ("i32", None))),
                         tuple(dict([("f", vals[i])] * bool(keep(i)) + [("g", i)] * (i % 4 != 2)) for i in range(n))),))
            if n:
                yield ({}, (("main", "0123456789\U0001F600" * 7),), (("l", (("f", t),), tuple({"f": vals[n // 2]} for i in range(n))),))


def all_specs(big=False):
    yield ({}, (), ())
    for gen in (lambda: scalars(big), lambda: properties(big), byte_properties, names, texts, references, arrays, nodespans, scaled,
                lambda: sizes(big), embedded, mixed):
        for s in gen():
            yield s


def has_bytes(spec):
    def in_value(v):
        if isinstance(v, bytes):
            return True
        if isinstance(v, dict):
            return any(in_value(x) for x in v.values())
        if isinstance(v, (list,)):
            return any(in_value(x) for x in v)
        return isinstance(v, tuple) and v[0] in ("ext", "doc")
    return in_value(spec[0]) or any(in_value(v) for _, _, rows in spec[2] for d in rows for v in d.values())
