"""C07: fields accept exactly the values of their declared type, on every path, before and after decoding."""
import itertools
import pickle
from mc import core
from mc.core import same, ensure, refused

LEVEL = "exploration"
RULE = "every field type (declared in every way) x every value of a pool of boundary and wrong-kind values x every path that " \
       "takes values (add, add_many in all forms, validation, encoding in all formats) x original and decoded documents; " \
       "non-trivial: every case, each decides acceptance against the declared type"
DEADLINE = {"quick": 240, "thorough": 800}

I32, I64 = 1 << 31, 1 << 63


class World:
    """A document with a text, a second text, layers a and b with nodes, and the layer under test `t`."""

    def __init__(self, how="fresh", fields=None):
        from docria.model import Document, DataTypes as T, Node, NodeSpan
        from docria.codec import MsgpackCodec, JsonCodec
        self.T, self.Node, self.NodeSpan, self.M, self.J = T, Node, NodeSpan, MsgpackCodec, JsonCodec
        doc = Document()
        doc.maintext = "abcd"
        doc.add_text("alt", "abcd")
        a = doc.add_layer("a", v=T.int32(None))
        for i in range(3):
            a.add(v=i)
        b = doc.add_layer("b", v=T.int32(None))
        for i in range(3):
            b.add(v=i)
        fields = fields or {}
        if how == "add_field":
            doc.add_layer("t")
            for f, t in fields.items():
                doc["t"].add_field(f, t)
        else:
            doc.add_layer("t", **fields)
        if how == "msgpack":
            doc = MsgpackCodec.decode(MsgpackCodec.encode(doc))
        elif how == "json":
            doc = JsonCodec.decode(JsonCodec.encode(doc))
        elif how == "pickle":
            doc = pickle.loads(pickle.dumps(doc))
        elif how == "lazy":
            from docria.codec import MsgpackDocument
            doc = MsgpackDocument(doc).document()
        self.doc, self.a, self.b, self.t = doc, doc["a"], doc["b"], doc["t"]
        self.gone = self.a.add(v=9)
        self.a.remove(self.gone)
        self.main, self.alt = doc.texts["main"], doc.texts["alt"]


class Ext:
    pass


def pool(w):
    """name -> (value, set of type kinds that admit it); kinds not decided by the property are left out."""
    from docria.model import ExtData, NodeList
    a, b = list(w.a), list(w.b)
    span = w.NodeSpan(a[0], a[2])
    ints = {"i32", "i64"}
    out = {"none": (None, {"?ext"}), "object": (object(), set()), "dict": ({}, set()),
           "0": (0, ints), "1": (1, ints), "-1": (-1, ints),
           "i32max": (I32 - 1, ints), "i32max+1": (I32, {"i64"}), "i32min": (-I32, ints), "i32min-1": (-I32 - 1, {"i64"}),
           "2^32": (1 << 32, {"i64"}), "i64max": (I64 - 1, {"i64"}), "i64max+1": (I64, set()), "i64min": (-I64, {"i64"}),
           "i64min-1": (-I64 - 1, set()), "2^100": (1 << 100, set()),
           "0.0": (0.0, {"f64"}), "-0.0": (-0.0, {"f64"}), "1.5": (1.5, {"f64"}), "inf": (float("inf"), {"f64"}),
           "-inf": (float("-inf"), {"f64"}), "1e308": (1e308, {"f64"}), "5e-324": (5e-324, {"f64"}),
           "complex": (1j, set()),
           "''": ("", {"str"}), "'a'": ("a", {"str"}), "'0'": ("0", {"str"}), "'True'": ("True", {"str"}), "emoji": ("\U0001F600", {"str"}),
           "b''": (b"", {"bin", "ext"}), "b'a'": (b"a", {"bin", "ext"}), "bytearray": (bytearray(b"a"), None),
           "text": (w.main, set()), "str-list": (["a"], set()), "int-list": ([0], set()),
           "span": (w.main[1:3], {"span"}), "span-empty": (w.main[2:2], {"span"}), "span-end": (w.main[4:4], {"span"}),
           "span-all": (w.main[0:4], {"span"}), "span-alt": (w.alt[1:3], set()), "span-string": ("bc", {"str"}),
           "node": (a[1], {"ref"}), "node-first": (a[0], {"ref"}), "node-last": (a[2], {"ref"}), "node-b": (b[1], set()),
           "node-gone": (w.gone, set()), "node-never": (w.Node(v=1), set()), "node-class": (w.Node, set()),
           "nodes": ([a[2], a[0], a[2]], {"refs"}), "nodes-one": ([a[1]], {"refs"}), "nodes-none": ([], {"refs"}),
           "nodelist": (NodeList([a[0], a[1]]), {"refs"}), "nodelist-empty": (NodeList([]), {"refs"}),
           "query": (w.a[w.a["v"] > 0], {"refs"}), "nodes-mixed": ([a[0], b[0]], set()), "nodes-mixed-last": ([b[0], a[0]], set()),
           "nodes-gone": ([a[0], w.gone], set()), "nodes-gone-first": ([w.gone, a[0]], set()), "nodes-none-inside": ([a[0], None], set()),
           "nodes-int-inside": ([a[0], 1], set()), "nodes-b": ([b[0]], set()), "nodes-never": ([w.Node()], set()),
           "nspan": (span, {"nspan", "refs"}), "nspan-one": (w.NodeSpan(a[1], a[1]), {"nspan", "refs"}),
           "nspan-b": (w.NodeSpan(b[0], b[1]), set()),
           "ext": (ExtData("blob", b"xy"), {"ext"}), "ext-other": (ExtData("other", b"xy"), {"-ext"}),
           "ext-doc": (ExtData("doc", b"xy"), {"-ext"}),
           "True": (True, {"bool", "?i32", "?i64"}), "False": (False, {"bool", "?i32", "?i64"}),
           "layer": (w.a, {"refs"}), "slice": (w.a[0:2], {"refs"}), "layer-b": (w.b, set())}
    # a span whose ends were reordered after it was made
    spoiled = w.NodeSpan(b[0], b[2])
    out["nspan-b-gone"] = (spoiled, set())
    del out["bytearray"]
    return out


KINDS = ["i32", "i64", "f64", "bool", "str", "bin", "span", "ref", "refs", "nspan", "ext"]


def declare(kind, way, layer=None, text=None):
    from docria.model import DataTypes as T
    ways = {"i32": [lambda: T.int32, lambda: T.int32(), lambda: T.int32(None), lambda: T.int32(5), lambda: T.int32(-I32)],
            "i64": [lambda: T.int64, lambda: T.int64(), lambda: T.int64(None), lambda: T.int64(1 << 40), lambda: T.int64(I64 - 1)],
            "f64": [lambda: T.float64, lambda: T.float64(), lambda: T.float64(None), lambda: T.float64(2.5), lambda: T.float64(-1.0)],
            "bool": [lambda: T.bool, lambda: T.bool(), lambda: T.bool(None), lambda: T.bool(True), lambda: T.boolean(True)],
            "str": [lambda: T.string, lambda: T.string(), lambda: T.string(None), lambda: T.string("dflt"), lambda: T.string(" ")],
            "bin": [lambda: T.binary],
            "span": [lambda: T.textspan, lambda: T.span("main"), lambda: T.textspan("main")],
            "ref": [lambda: T.noderef("a")], "refs": [lambda: T.noderef_many("a")], "nspan": [lambda: T.nodespan("a")],
            "ext": [lambda: T.ext("blob")]}[kind]
    return ways[way]() if way is not None else len(ways)


DEFAULTS = {"i32": [0, 0, None, 5, -I32], "i64": [0, 0, None, 1 << 40, I64 - 1], "f64": [0.0, 0.0, None, 2.5, -1.0],
            "bool": [False, False, None, True, True], "str": ["", "", None, "dflt", " "]}


def default_of(kind, way):
    return DEFAULTS[kind][way] if kind in DEFAULTS else None


HOWS = ["fresh", "add_field", "msgpack", "json", "pickle", "lazy"]


def gen():
    names = list(pool(World()))
    for kind in KINDS:
        for way in range(declare(kind, None)):
            for how in HOWS:
                for name in names:
                    yield kind, way, how, name


def decided(kind, admits):
    """True: has to be accepted, False: has to be refused, None: left open."""
    if admits is None or "?" + kind in admits:
        return None
    return kind in admits


def run(case):
    kind, way, how, name = case
    make = lambda: World(how, {"f": declare(kind, way), "g": declare("i32", 2)})
    w = make()
    value, admits = pool(w)[name]
    ok = decided(kind, admits)
    if ok is None:
        return None
    what = "%s in a field of type %s (%s)" % (name, kind, how)
    ext = kind == "ext"  # what an extension field holds is decided when encoding
    N = w.Node

    def accepted(fn, path):
        try:
            return fn()
        except Exception as e:
            raise core.Violation("%s: %s refused: %s: %s" % (path, what, type(e).__name__, e))

    # adding
    for path in ("add", "many", "many-iter", "many-nofill", "many-second"):
        w = make()
        value = pool(w)[name][0]
        n = len(w.t)
        if path == "add":
            fn = lambda: w.t.add(f=value, g=1)
        elif path == "many":
            fn = lambda: w.t.add_many([N(f=value, g=1)])
        elif path == "many-iter":
            fn = lambda: w.t.add_many(iter([N(f=value, g=1)]))
        elif path == "many-nofill":
            fn = lambda: w.t.add_many([N(f=value, g=1)], default_fill=False)
        else:
            fn = lambda: w.t.add_many([N(g=2), N(f=value), N(g=3)])
        if ok or ext:
            node = accepted(fn, path)
            node = list(w.t)[1] if path == "many-second" else w.t.last()
            ensure(node["f"] is value, "%s: %s is stored as %r", path, what, node["f"])
            ensure(node.is_valid() and node.is_valid(noexcept=False), "%s: %s is reported as not valid", path, what)
        else:
            refused(fn, "%s: %s" % (path, what))
    # encoding, whatever way the value got there
    for path in ("set", "update", "add-node", "many-unvalidated", "fld"):
        w = make()
        value = pool(w)[name][0]
        if path == "set":
            node = w.t.add(g=1)
            node["f"] = value
        elif path == "update":
            w.t.add(g=0)
            node = w.t.add(g=1)
            node.update(f=value)
        elif path == "add-node":
            node = N(f=value)
            w.t.add(node)
        elif path == "fld":
            node = w.t.add(g=1)
            node.fld.f = value
        else:
            node = N(f=value)
            w.t.add_many([node], full_validation=False)
        if not ext:
            same(bool(node.is_valid()), ok, "%s: is_valid with %s" % (path, what))
        encoders = [("msgpack", lambda: w.M.encode(w.doc)), ("pickle", lambda: pickle.dumps(w.doc))]
        if kind not in ("bin", "ext"):
            encoders.append(("json", lambda: w.J.encode(w.doc)))
        for enc, fn in encoders:
            if ok:
                accepted(fn, "%s, %s encoding" % (path, enc))
            else:
                refused(fn, "%s, %s encoding: %s" % (path, enc, what))
    return case


# -- pairs of fields: one bad value is enough, wherever it stands

GOOD = {"i32": "1", "i64": "2^32", "f64": "1.5", "bool": "True", "str": "'a'", "bin": "b'a'", "span": "span", "ref": "node", "refs": "nodes",
        "nspan": "nspan"}
BAD = {"i32": "i32max+1", "i64": "i64max+1", "f64": "1", "bool": "0", "str": "0", "bin": "'a'", "span": "span-alt", "ref": "node-gone",
       "refs": "nodes-mixed", "nspan": "nspan-b"}


def gen_pairs():
    for how in ("fresh", "msgpack"):
        for k1, k2 in itertools.product(GOOD, repeat=2):
            for b1, b2 in itertools.product((False, True), repeat=2):
                yield how, k1, k2, b1, b2


def run_pairs(case):
    how, k1, k2, b1, b2 = case
    for path in ("add", "many", "encode"):
        w = World(how, {"f": declare(k1, 0), "g": declare(k2, 0)})
        p = pool(w)
        row = dict(f=p[(BAD if b1 else GOOD)[k1]][0], g=p[(BAD if b2 else GOOD)[k2]][0])
        if path == "add":
            fn = lambda: w.t.add(**row)
        elif path == "many":
            fn = lambda: w.t.add_many([w.Node(f=p[GOOD[k1]][0]), w.Node(row)])
        else:
            w.t.add_many([w.Node(row)], full_validation=False)
            fn = lambda: w.M.encode(w.doc)
        if b1 or b2:
            refused(fn, "%s: fields %s=%s, %s=%s" % (path, k1, BAD[k1] if b1 else "good", k2, BAD[k2] if b2 else "good"))
        else:
            fn()
            same(len(w.t), {"add": 1, "many": 2, "encode": 1}[path], "nodes after %s" % path)
    return case


# -- values that were good (or bad) when made, judged after the nodes they hold were moved

def gen_stale():
    for how in ("fresh", "msgpack"):
        for form in ("ref", "refs", "nspan"):
            for i, j in itertools.product(range(3), repeat=2):
                if form == "ref" and j or form == "nspan" and i > j:
                    continue
                for ci, cj in itertools.product(("keep", "gone", "other", "again"), repeat=2):
                    if i == j and cj != "keep":
                        continue
                    for reverse in (False, True):
                        for before in (0, 2):
                            yield how, form, i, j, ci, cj, reverse, before


def run_stale(case):
    how, form, i, j, ci, cj, reverse, before = case
    verdicts = []
    for path in ("add", "many", "many-nofill", "update", "unvalidated"):
        w = World(how, {"f": declare(form, 0), "g": declare("i32", 2)})
        for k in range(before):
            w.t.add(g=k)
        nodes = list(w.a)
        value = {"ref": lambda: nodes[i], "refs": lambda: [nodes[i], nodes[j]],
                 "nspan": lambda: w.NodeSpan(nodes[i], nodes[j])}[form]()
        order = list(nodes)
        for n, c in ((nodes[i], ci), (nodes[j], cj)):
            if c == "keep":
                continue
            w.a.remove(n)
            order.remove(n)
            if c == "other":
                w.b.add(n)
            elif c == "again":
                w.a.add(n)
                order.append(n)
        if reverse:
            pos = {id(n): k for k, n in enumerate(order)}
            w.a.sort(lambda n: -pos[id(n)])
            order.reverse()
        used = [nodes[i]] if form == "ref" else [nodes[i], nodes[j]]
        ok = all(any(u is n for n in order) for u in used)
        if ok and form == "nspan":
            rank = {id(n): k for k, n in enumerate(order)}
            ok = rank[id(nodes[i])] <= rank[id(nodes[j])]
        what = "%s of nodes %d and %d, then %s and %s%s" % (form, i, j, ci, cj, ", order reversed" if reverse else "")
        if path in ("add", "many", "many-nofill"):
            fn = {"add": lambda: w.t.add(f=value), "many": lambda: w.t.add_many([w.Node(f=value), w.Node(g=1)]),
                  "many-nofill": lambda: w.t.add_many([w.Node(f=value)], default_fill=False)}[path]
            if ok:
                fn()
            else:
                refused(fn, "%s after %d: %s" % (path, before, what))
                continue
        elif path == "update":
            w.t.add(g=1)["f"] = value
        else:
            w.t.add_many([w.Node(f=value)], full_validation=False)
        for enc in (lambda: w.M.encode(w.doc), lambda: w.J.encode(w.doc), lambda: pickle.dumps(w.doc)):
            if ok:
                enc()
            else:
                refused(enc, "%s, encoding: %s" % (path, what))
        verdicts.append(ok)
    return case


# -- position of the bad value in a batch

def gen_batches():
    for kind in GOOD:
        for n in range(1, 5):
            for pos in range(n):
                for form in ("list", "iter", "tuple", "nofill"):
                    for before in (0, 1, 3, "gap"):
                        yield kind, n, pos, form, before


def run_batches(case):
    kind, n, pos, form, before = case
    for bad in (False, True):
        w = World("fresh", {"f": declare(kind, 0)})
        p = pool(w)
        have = [w.t.add(f=p[GOOD[kind]][0]) for _ in range(3 if before == "gap" else before)]
        if before == "gap":
            w.t.remove(have.pop(1))
        nodes = [w.Node(f=p[BAD[kind] if bad and i == pos else GOOD[kind]][0]) for i in range(n)]
        arg = {"list": nodes, "iter": (x for x in nodes), "tuple": tuple(nodes), "nofill": nodes}[form]
        fn = lambda: w.t.add_many(arg, default_fill=form != "nofill")
        if bad:
            refused(fn, "batch of %d with a bad %s at %d (%s)" % (n, kind, pos, form))
        else:
            fn()
            core.identical(w.t, have + nodes, "nodes after add_many")
    return case


# -- defaults

def gen_defaults():
    for k1 in DEFAULTS:
        for way in range(5):
            for how in HOWS:
                for given in ("none", "other", "explicit", "falsy"):
                    yield k1, way, how, given


FALSY = {"i32": 0, "i64": 0, "f64": 0.0, "bool": False, "str": ""}
EXPLICIT = {"i32": 77, "i64": 77, "f64": 7.5, "bool": True, "str": "ex"}


def run_defaults(case):
    kind, way, how, given = case
    d = default_of(kind, way)
    for path in ("add", "many", "many-iter", "many-after-remove", "nofill", "unvalidated"):
        w = World(how, {"f": declare(kind, way), "h": declare("str", 3), "g": declare("i32", 2)})
        row = {"none": {}, "other": {"g": 4}, "explicit": {"f": EXPLICIT[kind]}, "falsy": {"f": FALSY[kind], "g": 0}}[given]
        want = dict(row)
        if path != "nofill":
            if d is not None:
                want.setdefault("f", d)
            want.setdefault("h", "dflt")
        if path == "add":
            nodes = [w.t.add(**row), w.t.add(**row)]
        else:
            nodes = [w.Node(row), w.Node(row)]
            if path == "many-after-remove":
                w.t.remove(w.t.add(g=8))
            w.t.add_many(iter(nodes) if path == "many-iter" else nodes, default_fill=path != "nofill", full_validation=path != "unvalidated")
        for n in nodes:
            same({k: core_canon(v) for k, v in n.items()}, {k: core_canon(v) for k, v in want.items()},
                 "fields after %s with %s given to a %s field with default %r (%s)" % (path, given, kind, d, how))
            ensure(n.is_valid(noexcept=False), "the default is not valid")
        back = w.M.decode(w.M.encode(w.doc))
        for n in back["t"]:
            same({k: core_canon(v) for k, v in n.items()}, {k: core_canon(v) for k, v in want.items()}, "fields after decoding")
        n = back["t"].add()
        same({k: core_canon(v) for k, v in n.items()}, {k: core_canon(v) for k, v in ({"h": "dflt"} if d is None else {"f": d, "h": "dflt"}).items()},
             "defaults of the decoded document")
        # values of one node are its own
        if d is not None and "f" in nodes[0]:
            nodes[0]["f"] = EXPLICIT[kind]
            same(core_canon(nodes[1].get("f")), core_canon(want.get("f")), "default of the second node after editing the first")
            same(core_canon(w.t.add()["f"]), core_canon(d), "default after editing a node")
    return case


def core_canon(v):
    return (type(v).__name__, repr(v))


# -- references inside one batch, and validity as the layer changes

def gen_internal():
    for n in range(1, 4):
        for tgt in itertools.product(range(-1, n), repeat=n):
            for form in ("ref", "refs", "nspan"):
                yield n, tgt, form


def run_internal(case):
    n, tgt, form = case
    from docria.model import DataTypes as T
    w = World()
    layer = w.doc.add_layer("s", r=T.noderef("s"), m=T.noderef_many("s"), p=T.nodespan("s"))
    nodes = [w.Node() for _ in range(n)]
    for x, t in zip(nodes, tgt):
        if t >= 0 and form == "ref":
            x["r"] = nodes[t]
        elif t >= 0 and form == "refs":
            x["m"] = [nodes[t], nodes[0]]
    if form == "nspan":
        layer.add_many(nodes)
        for i, t in enumerate(tgt):
            if t >= 0:
                nodes[i]["p"] = w.NodeSpan(nodes[min(i, t)], nodes[max(i, t)])
    else:
        layer.add_many(nodes)
    w.M.encode(w.doc)
    refd = [set() for _ in range(n)]
    for i, t in enumerate(tgt):
        if t >= 0:
            refd[i] = {"ref": {t}, "refs": {t, 0}, "nspan": {min(i, t), max(i, t)}}[form]
    for k in range(n):  # remove and add again each node
        layer.remove(nodes[k])
        for i in range(n):
            if i != k:
                same(bool(nodes[i].is_valid()), k not in refd[i], "validity of %d after removing %d" % (i, k))
        same(bool(nodes[k].is_valid()), False, "validity of a detached node")
        bad = [i for i in range(n) if i != k and k in refd[i]]
        (refused if bad else core_call)(lambda: w.M.encode(w.doc), "encoding with a reference to a removed node")
        layer.add_many([nodes[k]], full_validation=False)
        if form != "nspan":
            for i in range(n):
                ensure(nodes[i].is_valid(noexcept=False), "node %d not valid although all targets are attached", i)
            w.M.encode(w.doc)
        else:
            for x in nodes:
                x.pop("p", None)
            refd = [set() for _ in range(n)]
    return case


def core_call(fn, what):
    return fn()


def main(rep):
    core.enumerate_cases(rep, "values", gen, run, bound="11 types in all declared forms x 70 values x 10 paths x 6 kinds of document")
    core.enumerate_cases(rep, "pairs", gen_pairs, run_pairs, bound="all pairs of types, good and bad")
    core.enumerate_cases(rep, "batches", gen_batches, run_batches, bound="batches of up to 4 onto layers of 0 to 3 nodes, bad value anywhere")
    core.enumerate_cases(rep, "moved-nodes", gen_stale, run_stale, bound="values over 3 nodes whose ends are removed, moved or reordered")
    core.enumerate_cases(rep, "defaults", gen_defaults, run_defaults, bound="5 types x 5 defaults x 6 documents x 6 paths")
    core.enumerate_cases(rep, "internal-references", gen_internal, run_internal, bound="all reference patterns of up to 3 nodes")
