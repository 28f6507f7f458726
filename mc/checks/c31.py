"""C31: documents cross between the Java and the Python implementation unharmed, or are refused."""
import struct
from mc import core, docs, java
from mc.core import Violation, ensure, same, short
from mc.java import S, ref

LEVEL = "exploration"
RULE = "every document spec of the bounded spaces in mc/docs.py, encoded by Python and decoded, inspected and encoded again by Java, and built by Java " \
       "(with and without removed nodes in between), encoded and decoded by both; the expectation is computed from the spec alone"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS

INT = (-(1 << 31), 1 << 31)
LONG = (-(1 << 63), 1 << 63)


def bits(f):
    return struct.unpack(">q", struct.pack(">d", f))[0]


def utf16(s, i):
    return len(s[:i].encode("utf-16-le")) // 2


def plain(v, kind=None):
    """A value as the bridge shows it; None where Java has no such value."""
    if isinstance(v, bool):
        return ["z", v]
    if isinstance(v, int):
        if kind == "i32" or kind is None and INT[0] <= v < INT[1]:
            return ["i", v]
        return ["l", v] if LONG[0] <= v < LONG[1] else None
    if isinstance(v, float):
        return ["d", bits(v)]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, bytes):
        return ["b", v]
    return None


def expected(spec):
    """What the bridge has to show of the document, None if Java cannot hold it."""
    props, texts, layers = spec
    strings = dict(texts)
    out = {"props": {}, "texts": strings, "layers": {}}
    for k, v in props.items():
        v = plain(v)
        if v is None:
            return None
        out["props"][k] = v
    for name, fields, rows in layers:
        schema = {}
        for f, t in fields:
            if t[0] in docs.OPT:
                args = {docs.OPT[t[0]]: ["s", t[1]]}
            else:
                args = {} if len(t) == 1 or t[1] is None else {"default": plain(t[1])}
            schema[f] = [docs.NAME[t[0]], args]
        types = dict(fields)
        nodes = []
        for d in rows:
            row = {}
            for f, v in d.items():
                if not isinstance(v, tuple):
                    row[f] = plain(v, types[f][0])
                elif v[0] == "ref":
                    row[f] = ["node", [v[1], v[2]]]
                elif v[0] == "refs":
                    if v[2]:
                        row[f] = ["nodes", [[v[1], i] for i in v[2]]]
                elif v[0] == "nspan":
                    row[f] = ["nspan", [v[1], v[2]], [v[1], v[3]]]
                elif v[0] == "span":
                    s = strings[v[1]]
                    row[f] = ["span", v[1], utf16(s, v[2]), utf16(s, v[3]), s[v[2]:v[3]]]
                elif v[0] == "ext":
                    row[f] = ["x", v[1], v[2]]
                else:
                    row[f] = ["doc", v[1]]
            nodes.append(row)
        out["layers"][name] = [schema, nodes, len(rows)]
    return out


def check_dump(got, exp, what):
    """Compares, decoding embedded documents."""
    def settle(g, e):
        if isinstance(e, list) and len(e) == 2 and e[0] == "doc":
            if isinstance(g, list) and g[:1] == ["doc"]:
                from docria.codec import MsgpackCodec
                docs.compare(MsgpackCodec.decode(g[1]), e[1], what + ": the embedded document")
                return ["doc", e[1]]
            return g
        if isinstance(g, dict) and isinstance(e, dict):
            return {k: settle(v, e.get(k)) for k, v in g.items()}
        if isinstance(g, list) and isinstance(e, list) and len(g) == len(e):
            return [settle(a, b) for a, b in zip(g, e)]
        return g
    got = settle(got, exp)
    if got != exp:
        for part in ("props", "texts", "layers"):
            if got.get(part) != exp[part]:
                raise Violation("%s: %s differ: got %s, expected %s" % (what, part, short(got.get(part), 900), short(exp[part], 900)))
        raise Violation("%s: got %s" % (what, short(got, 900)))


def recipe(spec, holes):
    """Arguments of the bridge's build."""
    from docria.codec import MsgpackCodec
    props, texts, layers = spec
    strings = dict(texts)

    def at(i):
        return 2 * i + 1 if holes else i

    def value(v, kind):
        if not isinstance(v, tuple):
            if kind == "i64":
                return ["l", v]
            return plain(v, kind)
        if v[0] == "ref":
            return ["node", v[1], at(v[2])]
        if v[0] == "refs":
            return ["nodes", v[1], [at(i) for i in v[2]]]
        if v[0] == "nspan":
            return ["nspan", v[1], at(v[2]), at(v[3])]
        if v[0] == "span":
            s = strings[v[1]]
            return ["span", v[1], utf16(s, v[2]), utf16(s, v[3])]
        if v[0] == "ext":
            return ["x", v[1], v[2]]
        return ["doc", MsgpackCodec.encode(docs.build(v[1]))]

    out = []
    for name, fields, rows in layers:
        types = dict(fields)
        fs = []
        for f, t in fields:
            if t[0] in docs.OPT:
                fs.append([f, [docs.NAME[t[0]], t[1]]])
            else:
                fs.append([f, [docs.NAME[t[0]]] + ([] if len(t) == 1 or t[1] is None else [plain(t[1])])])
        nodes = []
        for d in rows:
            if holes:
                nodes.append([{}, False])
            nodes.append([{f: value(v, types[f][0]) for f, v in d.items() if not (isinstance(v, tuple) and v[0] == "refs" and not v[2])}, True])
        if holes:
            nodes.append([{}, False])
        out.append([name, fs, nodes])
    return [{k: plain(v) for k, v in props.items()}, strings, out]


def normal(spec):
    """The spec as any decoder has to give it back, in Java's order of names."""
    props, texts, layers = spec
    rows = lambda fields, rs: tuple({f: v for f, v in d.items() if not (isinstance(v, tuple) and v[0] == "refs" and not v[2])} for d in rs)
    key = lambda s: s.encode("utf-16-be")   # Java compares strings by code units
    return (props, tuple(sorted(texts, key=lambda t: key(t[0]))),
            tuple((n, tuple(sorted(fs, key=lambda f: key(f[0]))), rows(fs, rs)) for n, fs, rs in sorted(layers, key=lambda l: key(l[0]))))


def compare(doc, spec, what):
    got, exp = docs.observed(doc, True), docs.expected(normal(spec), True)
    got = (("map", tuple(sorted(got[0][1], key=repr))),) + got[1:]
    exp = (("map", tuple(sorted(exp[0][1], key=repr))),) + exp[1:]
    if got != exp:
        for part, g, e in zip(("properties", "texts", "layers"), got, exp):
            if g != e:
                raise Violation("%s: %s differ: got %s, expected %s" % (what, part, short(g, 900), short(e, 900)))


def gen():
    n = 0
    for spec in docs.all_specs(core.thorough()):
        yield spec


def run(spec):
    from docria.codec import MsgpackCodec, MsgpackDocument
    exp = expected(spec)
    data = MsgpackCodec.encode(docs.build(spec))
    s = S()
    s.static("MsgpackCodec", "decode", data, to="d")
    if exp is None:
        res = s.run()
        ensure(isinstance(res[0], java.JavaError), "Java decoded a document with a property it has no value for: %s", short(spec[0]))
        return ("refused", core.h64(spec))
    s.help("dump", ref("d"))
    s.static("MsgpackCodec", "encode", ref("d"))
    s.help("dump", ref("d"))
    s.static("MsgpackCodec", "encode", ref("d"))
    s.help("decodeConcrete", data, to="c")
    s.help("dump", ref("c"))
    s.static("MsgpackCodec", "encode", ref("c"))
    for holes, extra in ((False, []), (True, []), (True, ["concrete"])):
        name = "b%d%d" % (holes, len(extra))
        s.raw("build", *(recipe(spec, holes) + extra), to=name)
        s.static("MsgpackCodec", "encode", ref(name))
        s.help("dump", ref(name))
        s.static("MsgpackCodec", "encode", ref(name))
    res = java.good_all(s.run())
    check_dump(res[1], exp, "encoded by Python, decoded by Java")
    compare(MsgpackCodec.decode(res[2]), spec, "encoded by Python, decoded and encoded by Java, decoded by Python")
    compare(MsgpackDocument(res[2]).document(), spec, "the same, decoded in sections")
    check_dump(res[3], exp, "the Java document after encoding it")
    same(res[4], res[2], "the second Java encoding")
    check_dump(res[6], exp, "encoded by Python, decoded by Java with a node class of its own")
    same(res[7], res[2], "encoding of a document with a node class of its own")
    for k, how in ((8, ""), (12, " around removed nodes"), (16, " with a node class of its own")):
        what = "built by Java" + how
        compare(MsgpackCodec.decode(res[k + 1]), spec, what + ", decoded by Python")
        check_dump(res[k + 2], exp, what + ", after encoding")
        same(res[k + 3], res[k + 1], what + ": the second encoding")
        s = S()
        s.static("MsgpackCodec", "decode", res[k + 1], to="d")
        s.help("dump", ref("d"))
        check_dump(java.good_all(s.run())[1], exp, what + ", encoded and decoded by Java")
    return core.h64(spec)


def ext_gen():
    """Documents made by Java with properties of every kind, also the kinds only Java makes: extension data and documents."""
    inner = [({}, (), ()), ({"k": 1}, (("main", "a\U0001F600"),), (("l", (("f", ("span", "main")),), ({"f": ("span", "main", 0, 2)}, {})),))]
    kinds = [["i", 5], ["l", 1 << 40], ["d", bits(0.1)], ["z", True], ["s", "é"], ["b", b"\x00\xff"]]
    kinds += [["x", t, d] for t in ("t", "", "é", "x" * 40) for d in docs.BYTES + [b"z" * n for n in docs.LEN]]
    kinds += [["doc", k] for k in range(len(inner))]
    for a in kinds:
        yield inner, [("k", a)]
        for b in kinds[:6] + kinds[-3:]:
            yield inner, [("k", a), ("m", b)]
            yield inner, [("a", b), ("k", a), ("m", b)]


def ext_run(case):
    from docria.codec import MsgpackCodec
    inner, props = case
    made = {}
    for k, v in props:
        made[k] = ["doc", MsgpackCodec.encode(docs.build(inner[v[1]]))] if v[0] == "doc" else v
    want = {"props": {k: ["doc", inner[v[1]]] if v[0] == "doc" else v for k, v in props}, "texts": {"main": "x"}, "layers": {}}
    s = S()
    s.raw("build", made, {"main": "x"}, [], to="d")
    s.static("MsgpackCodec", "encode", ref("d"))
    s.help("dump", ref("d"))
    s.static("MsgpackCodec", "encode", ref("d"))
    res = java.good_all(s.run())
    check_dump(res[2], want, "a Java document with extension properties after encoding")
    same(res[3], res[1], "the second encoding")
    s = S()
    s.static("MsgpackCodec", "decode", res[1], to="d")
    s.help("dump", ref("d"))
    s.static("MsgpackCodec", "encode", ref("d"))
    again = java.good_all(s.run())
    check_dump(again[1], want, "a Java document with extension properties, encoded and decoded")
    same(len(again[2]), len(res[1]), "length of its encoding")
    same([t.name for t in MsgpackCodec.decode(res[1]).texts.values()], ["main"], "texts Python finds in it")
    return core.h64(case)


def odd_gen():
    """Properties that hold a part of the document itself are refused."""
    for kind in ("node", "nodes", "nspan", "span"):
        for beside in (False, True):
            yield kind, beside


def odd_run(case):
    kind, beside = case
    value = {"node": ["node", "t", 0], "nodes": ["nodes", "t", [0]], "nspan": ["nspan", "t", 0, 0], "span": ["span", "main", 0, 1]}[kind]
    s = S()
    s.raw("build", dict({"k": value}, **({"a": ["i", 1], "z": ["s", "x"]} if beside else {})), {"main": "xy"}, [["t", [], [[{}, True]]]], to="d")
    s.static("MsgpackCodec", "encode", ref("d"))
    res = s.run()
    java.good(res[0])
    ensure(isinstance(res[1], java.JavaError), "a document with a %s as a property was encoded, as %s", kind, short(res[1]))
    return core.h64(case)


TEXT = "ab\U0001F600c"     # a b high low c, in code units
RANGES = {"spans": [(0, 1), (1, 2), (2, 4), (1, 4), (5, 5), (0, 3)], "references": []}


class History:
    """A Java document under edits and encodings; cfg = "spans" or "references"."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.s = s = S()
        self.expect = []
        s.new("doc", "Document")
        s.new("text", "Text", "main", TEXT)
        s.call("doc", "add", ref("text"))
        s.new("doc2", "Document")
        s.new("text2", "Text", "main", TEXT)
        s.call("doc2", "add", ref("text2"))
        s.help("type_", "i32", None, to="i32")
        self.fields = (("s", ("span", "main")),) if cfg == "spans" else (("a", ("refs", "t")), ("n", ("nspan", "t")), ("r", ("ref", "t")))
        for d, layers in (("doc", ("t", "l")), ("doc2", ("t",))):
            for name in layers:
                s.static("Layer", "builder", name, to="lb")
                s.call("lb", "addField", "k", ref("i32"))
                if name == "l":
                    for f, t in self.fields:
                        s.help("type_", docs.NAME[t[0]], t[1], to="ty")
                        s.call("lb", "addField", f, ref("ty"))
                s.call("lb", "build", to="sc")
                s.call(d, "add", ref("sc"), to=d + name)
        self.live = {"t": [], "l": []}
        self.values = {}    # node -> {field: value}; references by node name
        self.gone = []      # removed nodes of t
        self.held = []      # spans
        self.first = []     # where their first hash codes and comparisons are
        self.made = 0
        for _ in range(3 if cfg == "references" else 0):
            self.add("t")
        for _ in range(2):
            self.add("l")
        s.static("Node", "builder", ref("doc2t"), to="fb")
        s.call("fb", "put", "k", 77)
        s.call("fb", "build", to="alien")
        s.call("doc2t", "add", ref("alien"))
        s.call("text2", "span", 0, 1, to="alienspan")

    def add(self, layer):
        name = "n%d" % self.made
        self.s.static("Node", "builder", ref("doc" + layer), to="b")
        self.s.call("b", "put", "k", self.made)
        self.s.call("b", "build", to=name)
        self.s.call("doc" + layer, "add", ref(name))
        self.values[name] = {"k": self.made}
        self.made += 1
        self.live[layer].append(name)

    def ops(self):
        t, l = self.live["t"], self.live["l"]
        yield ("encode",)
        if self.cfg == "spans":
            if len(self.held) < 3:
                for r in RANGES["spans"]:
                    yield ("hold",) + r
            for h in range(len(self.held)):
                yield ("put", h, 0)
            if self.held:
                yield ("put", len(self.held) - 1, len(l) - 1)
            yield ("unset", 0)
            yield ("null", 0)
            yield ("alienspan", 0)
        else:
            for x in range(len(t)):
                yield ("ref", 0, x)
                yield ("array", 0, (x, 0))
                yield ("span", 0, 0, x)
            if len(t) > 1:
                yield ("span", len(l) - 1, 1, len(t) - 1)
                yield ("sort",)
            for x in range(len(t)):
                yield ("remove", x)
            if self.gone:
                yield ("readd",)
            yield ("addt",)
            yield ("alien", 0)
            for f in "anr":
                yield ("unset", 0, f)
        if len(l) > 1:
            yield ("removel",)

    def apply(self, op):
        core.step()
        s, kind = self.s, op[0]
        t, l = self.live["t"], self.live["l"]
        if kind == "encode":
            self.encoding(s, self.expect)
        elif kind == "hold":
            h = "h%d" % len(self.held)
            s.call("text", "span", op[1], op[2], to=h)
            self.held.append(op[1:])
            s.call("text2", "span", op[1], op[2], to="twin" + h)
            self.first.append((s.call(h, "hashCode"), s.call(h, "equals", ref("twin" + h))))
        elif kind == "put":
            s.call(l[op[2]], "put", "s", ref("h%d" % op[1]))
            self.values[l[op[2]]]["s"] = self.held[op[1]]
        elif kind == "unset":
            f = op[2] if len(op) > 2 else "s"
            s.call(l[op[1]], "remove", f)
            self.values[l[op[1]]].pop(f, None)
        elif kind == "null":
            s.help("nothing", to="nil")
            s.call(l[op[1]], "put", "s", ref("nil"))
            self.values[l[op[1]]].pop("s", None)
        elif kind == "alienspan":
            s.call(l[op[1]], "put", "s", ref("alienspan"))
            self.values[l[op[1]]]["s"] = "alien"
        elif kind == "alien":
            s.call(l[op[1]], "put", "r", ref("alien"))
            self.values[l[op[1]]]["r"] = "alien"
        elif kind == "ref":
            s.call(l[op[1]], "put", "r", ref(t[op[2]]))
            self.values[l[op[1]]]["r"] = t[op[2]]
        elif kind == "array":
            names = [t[k] for k in op[2]]
            s.call(l[op[1]], "put", "a", {"nodes": [ref(n) for n in names]})
            self.values[l[op[1]]]["a"] = names
        elif kind == "span":
            a, b = t[op[2]], t[op[3]]
            s.new("ns", "NodeSpan", ref(a), ref(b))
            s.call(l[op[1]], "put", "n", ref("ns"))
            self.values[l[op[1]]]["n"] = (a, b)
        elif kind == "sort":
            s.call("doct", "sort", {"down": "k"})
            t.sort(key=lambda n: -self.values[n]["k"])
        elif kind == "remove":
            name = t.pop(op[1])
            s.call("doct", "remove", ref(name))
            self.gone.append(name)
        elif kind == "readd":
            name = self.gone.pop()
            s.call("doct", "add", ref(name))
            t.append(name)
        elif kind == "addt":
            self.add("t")
        elif kind == "removel":
            name = l.pop(0)
            s.call("docl", "remove", ref(name))
        else:
            raise ValueError(op)

    def wanted(self):
        """The spec encoding has to carry, or None if the document refers to something it does not have."""
        t, l = self.live["t"], self.live["l"]
        rows = []
        for n in l:
            row = {"k": self.values[n]["k"]}
            for f, v in self.values[n].items():
                if f == "s":
                    if v == "alien" or 3 in v:
                        return None
                    point = lambda i: i - 1 if i > 2 else i
                    row[f] = ("span", "main", point(v[0]), point(v[1]))
                elif f == "r":
                    if v not in t:
                        return None
                    row[f] = ("ref", "t", t.index(v))
                elif f == "a":
                    if any(x not in t for x in v):
                        return None
                    row[f] = ("refs", "t", tuple(t.index(x) for x in v))
                elif f == "n":
                    if v[0] not in t or v[1] not in t or t.index(v[0]) > t.index(v[1]):
                        return None
                    row[f] = ("nspan", "t", t.index(v[0]), t.index(v[1]))
            rows.append(row)
        k = (("k", ("i32", None)),)
        return ({}, (("main", TEXT),), (("l", k + self.fields, tuple(rows)), ("t", k, tuple({"k": self.values[n]["k"]} for n in t))))

    def encoding(self, s, expect):
        from docria.codec import MsgpackCodec
        want = self.wanted()
        at = s.static("MsgpackCodec", "encode", ref("doc"))

        def check(res):
            if want is None:
                ensure(isinstance(res[at], java.JavaError), "Java encoded a document that refers to things it does not have: %s", self.describe())
            else:
                compare(MsgpackCodec.decode(java.good(res[at])), want, "encoded by Java, decoded by Python")
        expect.append(check)

    def describe(self):
        return short((self.live, self.values), 600)

    def script(self, tail, first=None):
        """Runs everything; only encodings may be refused."""
        ops = self.s.ops + tail.ops
        res = java.script(ops)
        for op, r in zip(ops, res):
            if op[1:4] != ["static", "MsgpackCodec", "encode"]:
                java.good(r, op)
        for check in self.expect:
            check(res)
        if first is not None:
            first += [(res[a], res[b]) for a, b in self.first]
        return res[len(self.s.ops):]

    def key(self):
        s = S()
        s.help("digest", java.refs(["doc", "doct", "docl"] + ["h%d" % k for k in range(len(self.held))] + self.gone))
        return (repr(self.wanted()), core.h64(java.good(self.script(s)[0])))

    def observe(self):
        s = S()
        want = self.wanted()
        s.help("dump", ref("doc"))
        s.static("MsgpackCodec", "encode", ref("doc"))
        s.help("dump", ref("doc"))
        s.static("MsgpackCodec", "encode", ref("doc"))
        for k, h in enumerate(self.held):
            s.call("text", "span", h[0], h[1], to="again")
            s.call("h%d" % k, "equals", ref("again"))
            s.call("h%d" % k, "hashCode")
            s.call("again", "hashCode")
            s.call("h%d" % k, "equals", ref("twinh%d" % k))
        first = []
        res = self.script(s, first)
        if want is None:
            for k in (1, 3):
                ensure(isinstance(res[k], java.JavaError), "Java encoded a document that refers to things it does not have: %s", self.describe())
            same(res[2], res[0], "the document after a refused encoding")
        else:
            from docria.codec import MsgpackCodec
            exp = expected(want)
            for k in (0, 2):
                got = res[k]
                for row in got["layers"]["l"][1]:     # explicit nulls
                    for f in [f for f, v in row.items() if v is None]:
                        del row[f]
                check_dump(got, exp, "the Java document %s encoding" % ("before", "", "after")[k])
            compare(MsgpackCodec.decode(java.good(res[1])), want, "encoded by Java, decoded by Python")
            same(res[3], res[1], "the second encoding")
        for k, h in enumerate(self.held):
            at = 4 + 5 * k
            same(res[at + 1], True, "equality of two spans of the range %s" % (h,))
            same(res[at + 2], res[at + 3], "hash codes of two spans of the range %s" % (h,))
            same((res[at + 2], res[at + 4]), first[k], "hash code of a span, and its equality to a span of another document, at first and now")


def main(rep):
    if not java.available(rep) or not java.compile_java(rep):
        return
    core.enumerate_cases(rep, "documents", gen, run, bound="bounded document spaces of mc/docs.py")
    core.enumerate_cases(rep, "extension properties", ext_gen, ext_run, bound="extension data and documents in one to three properties")
    core.enumerate_cases(rep, "references in properties", odd_gen, odd_run, bound="every kind of reference")
    depth = 6 if core.thorough() else 5
    core.search(rep, "span histories", History, ["spans"], depth, bound="all sequences of up to %d edits and encodings" % depth)
    depth = 5 if core.thorough() else 4
    core.search(rep, "reference histories", History, ["references"], depth, bound="all sequences of up to %d edits and encodings" % depth)
