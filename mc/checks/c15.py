"""C15: queries select exactly the nodes that satisfy the predicate."""
import itertools
from mc import core
from mc.core import same, identical, ensure, short

LEVEL = "model_checking"
RULE = "all predicate expressions up to three leaves, each subexpression negated or not, on a layer holding every combination of " \
       "field values; all kinds of collection nested two deep over every small content; all spans x ranges; all edit histories up to a " \
       "depth between re-evaluations; oracle: the expression evaluated on the field values in Python; " \
       "states: distinct outcomes, transitions: query evaluations"
DEADLINE = {"quick": 300, "thorough": 820}

# leaf: (builder from collection, truth on the dict of field values)
UNSET = object()


def leaves():
    out = []
    for v in (0, 1):
        out.append(("x == %d" % v, lambda c, v=v: c["x"] == v, lambda d, v=v: d.get("x") == v))
    out.append(("x != 1", lambda c: c["x"] != 1, lambda d: d.get("x") != 1))
    out.append(("x == None", lambda c: c["x"] == None, lambda d: d.get("x") is None))  # noqa: E711
    out.append(("x is none", lambda c: c["x"].is_none(), lambda d: d.get("x") is None))
    out.append(("s has value", lambda c: c["s"].has_value(), lambda d: d.get("s") is not None))
    out.append(("x any of 0 2", lambda c: c["x"].is_any(0, 2), lambda d: d.get("x") in (0, 2)))
    out.append(("s any of '' None", lambda c: c["s"].is_any("", None), lambda d: d.get("s") in ("", None)))
    out.append(("s any of nothing", lambda c: c["s"].is_any(), lambda d: False))
    out.append(("n < 1", lambda c: c["n"] < 1, lambda d: d["n"] < 1))
    out.append(("n <= 1", lambda c: c["n"] <= 1, lambda d: d["n"] <= 1))
    out.append(("n > 0", lambda c: c["n"] > 0, lambda d: d["n"] > 0))
    out.append(("n >= 1", lambda c: c["n"] >= 1, lambda d: d["n"] >= 1))
    out.append(("p covered by 1 3", lambda c: c["p"].covered_by(1, 3), lambda d: 1 <= d["p"][0] and d["p"][1] <= 3))
    out.append(("p intersects 2 4", lambda c: c["p"].intersected_by(2, 4), lambda d: d["p"][0] < 4 and 2 < d["p"][1]))
    out.append(("s filter", lambda c: c["s"].filter(lambda v: v == "b"), lambda d: d.get("s") == "b"))
    out.append(("layer filter", lambda c: LAYER[0].filter("x", "s", fn=lambda x, s: x == 1 and s is None),
                lambda d: d.get("x") == 1 and d.get("s") is None))
    out.append(("layer filter no field", lambda c: LAYER[0].filter(fn=lambda: True), lambda d: True))
    return out


LAYER = [None]
LEAVES = leaves()


class World:
    """A layer with every combination of field values, with gaps, in an order that no field sorts."""

    def __init__(self):
        from docria.model import Document, DataTypes as T, Node
        self.doc = Document()
        self.doc.maintext = "abcde"
        self.layer = self.doc.add_layer("t", x=T.int32(None), s=T.string(None), n=T.int32(None), p=T.textspan())
        rows = []
        for k, (x, s, n, p) in enumerate(itertools.product((UNSET, 0, 1, 2), (UNSET, "", "a", "b"), (0, 1, 2), ((0, 2), (1, 3), (3, 3)))):
            d = {"n": n, "p": p}
            if x is not UNSET:
                d["x"] = x
            if s is not UNSET:
                d["s"] = s
            rows.append(d)
        rows = [rows[(i * 37) % len(rows)] for i in range(len(rows))]
        self.rows, drop = [], []
        for i, d in enumerate(rows):
            node = self.layer.add(**dict(d, p=self.doc.maintext[d["p"][0]:d["p"][1]]))
            self.rows.append((node, d))
            if i % 7 == 3:
                drop.append(self.layer.add(n=1, p=self.doc.maintext[1:3], x=1))
        self.layer.remove(drop)


_WORLD = []


def world():
    if not _WORLD:
        _WORLD.append(World())
    LAYER[0] = _WORLD[0].layer
    return _WORLD[0]


class Expr:
    def __init__(self, pred, truth, text):
        self.pred, self.truth, self.text = pred, truth, text

    def neg(self, yes):
        return Expr(~self.pred, lambda d, t=self.truth: not t(d), "not (%s)" % self.text) if yes else self

    def __and__(self, o):
        return Expr(self.pred & o.pred, lambda d: self.truth(d) and o.truth(d), "(%s and %s)" % (self.text, o.text))

    def __or__(self, o):
        return Expr(self.pred | o.pred, lambda d: self.truth(d) or o.truth(d), "(%s or %s)" % (self.text, o.text))


def leaf(c, code):
    k, neg = divmod(code, 2)
    text, build, truth = LEAVES[k]
    return Expr(build(c), truth, text).neg(neg)


def join(op, a, b):
    return (a & b) if op == 0 else (a | b)


def gen_expressions():
    n = len(LEAVES) * 2
    for a in range(n):
        yield (a,)
        yield (a, "nn")
    for a, b in itertools.product(range(n), repeat=2):
        for op in (0, 1):
            for neg in (0, 1):
                yield a, b, op, neg
    t = core.thorough()
    third = range(n) if t else range(0, n, 2)
    for a, b in itertools.product(range(n), repeat=2):
        for c in third:
            for op1, op2 in itertools.product((0, 1), repeat=2):
                yield a, b, c, op1, op2, (a + b + c) % 2, (b + op1) % 2, (a + op2 + c // 2) % 2


def expression(c, case):
    if len(case) == 1:
        return leaf(c, case[0])
    if len(case) == 2:
        return leaf(c, case[0]).neg(1).neg(1)
    if len(case) == 4:
        a, b, op, neg = case
        return join(op, leaf(c, a), leaf(c, b)).neg(neg)
    a, b, d, op1, op2, left, neg1, neg2 = case
    if left:
        return join(op2, join(op1, leaf(c, a), leaf(c, b)).neg(neg1), leaf(c, d)).neg(neg2)
    return join(op2, leaf(c, d), join(op1, leaf(c, a), leaf(c, b)).neg(neg1)).neg(neg2)


def run_expressions(case):
    w = world()
    core.step()
    e = expression(w.layer, case)
    want = [n for n, d in w.rows if e.truth(d)]
    q = w.layer[e.pred]
    identical(q, want, e.text)
    same(len(q), len(want), "len of the query " + e.text)
    if len(case) < 8:
        identical(q.to_list(), want, e.text + ", to_list")
        ensure(q.first() is (want[0] if want else None) and q.last() is (want[-1] if want else None), "first or last of %s", e.text)
        ensure(isinstance(repr(e.pred), str), "repr of a predicate")
        for n, d in w.rows[::5]:
            same(bool(e.pred(n)), bool(e.truth(d)), "the predicate itself: " + e.text)
    return tuple(e.truth(d) for _, d in w.rows)


# -- collections of every kind

KINDS = ["layer", "slice", "list", "span", "query", "to_list", "reversed", "part"]


def gen_collections():
    n = 6 if core.thorough() else 5
    for m in range(0, n + 1):
        for xs in itertools.product((UNSET, 0, 1), repeat=m):
            for gaps in itertools.product((0, 1), repeat=m):
                if sum(gaps) > 2:
                    continue
                yield tuple(-1 if x is UNSET else x for x in xs), gaps


PREDS = [("x == 1", lambda c: c["x"] == 1, lambda d: d.get("x") == 1), ("not x == 1", lambda c: ~(c["x"] == 1), lambda d: d.get("x") != 1),
         ("x none", lambda c: c["x"].is_none(), lambda d: "x" not in d), ("k > 0", lambda c: c["k"] > 0, lambda d: d["k"] > 0),
         ("plain function", lambda c: (lambda n: n["k"] % 2 == 0), lambda d: d["k"] % 2 == 0), ("all", lambda c: (lambda n: True), lambda d: True)]


def derive(kind, coll, rows):
    """A collection of the given kind over (part of) another collection, and what it has to contain."""
    from docria.model import NodeList, NodeSpan, NodeLayerCollection
    if kind == "layer":
        return coll, rows
    if kind == "slice":
        if isinstance(coll, NodeLayerCollection):
            return coll[:], rows
        if isinstance(coll, NodeList):
            return coll[1:], rows[1:]
        return NodeList(coll)[:-1], rows[:-1]
    if kind == "list":
        return NodeList(list(coll)), rows
    if kind == "span":
        if not rows or rows != sorted(rows, key=lambda r: r[0].i) or len(rows) != rows[-1][0].i - rows[0][0].i + 1:
            return None
        return NodeSpan(rows[0][0], rows[-1][0]), rows
    if kind == "query":
        return coll[coll["k"] >= 0] if "k" in coll.fieldtypes else None, rows
    if kind == "to_list":
        return coll.to_list(), rows
    if kind == "reversed":
        return NodeList(list(coll)[::-1]), rows[::-1]
    if kind == "part":
        if "k" not in coll.fieldtypes:
            return None
        return coll[coll["k"] != 1], [r for r in rows if r[1]["k"] != 1]


def run_collections(case):
    from docria.model import Document, DataTypes as T, NodeList
    xs, gaps = case
    doc = Document()
    layer = doc.add_layer("t", x=T.int32(None), k=T.int32(None))
    rows, drop = [], []
    for k, (x, g) in enumerate(zip(xs, gaps)):
        if g:
            drop.append(layer.add(x=1, k=9))
        d = {"k": k}
        if x >= 0:
            d["x"] = x
        rows.append((layer.add(**d), d))
    layer.remove(drop)
    everything = drop + [r[0] for r in rows]
    for k1 in KINDS:
        for k2 in KINDS:
            a = derive(k1, layer, rows)
            if a is None or a[0] is None:
                continue
            b = derive(k2, *a)
            if b is None or b[0] is None:
                continue
            c, want = b
            what = "%s of %s of %s" % (k2, k1, case)
            core.step()
            identical(c, [r[0] for r in want], what)
            same(len(c), len(want), what + ": len")
            same([n in c for n in everything], [any(n is r[0] for r in want) for n in everything], what + ": membership")
            if "x" not in c.fieldtypes:
                continue   # a list without nodes has no fields
            for f in ("x", "k"):
                same(list(c[f]), [d.get(f) for _, d in want], "%s: column %s" % (what, f))
                same(c[f].to_list(), [d.get(f) for _, d in want], "%s: column %s as a list" % (what, f))
                same(len(c[f]), len(want), "%s: length of column %s" % (what, f))
                if isinstance(c, NodeList) or c is layer:
                    at = range(len(want)) if c is not layer else [n.i for n, _ in want]
                    same([c[f][i] for i in at], [d.get(f) for _, d in want], "%s: column %s by position" % (what, f))
                    same([c[f][-1] for _ in want[:1]], [d.get(f) for _, d in want[-1:]], "%s: column %s from the end" % (what, f))
                    same(list(c[f][:]), [d.get(f) for _, d in want], "%s: slice of column %s" % (what, f))
            for text, build, truth in PREDS:
                core.step()
                q = c[build(c)]
                sel = [r for r in want if truth(r[1])]
                identical(q, [r[0] for r in sel], "%s where %s" % (what, text))
                same(len(q), len(sel), "%s where %s: len" % (what, text))
                same(list(q["x"]), [d.get("x") for _, d in sel], "%s where %s: column x" % (what, text))
                same(list(c["k"][build(c)]), [d.get("k") for _, d in sel], "%s: column k where %s" % (what, text))
                text2, build2, truth2 = PREDS[0]
                identical(q[build2(q)], [n for n, d in sel if truth2(d)], "%s where %s where %s" % (what, text, text2))
                identical(q[build2(c)], [n for n, d in sel if truth2(d)], "%s where %s where %s of the collection" % (what, text, text2))
    return case


# -- values of every type

def gen_values():
    from mc import docs
    pools = {"i32": docs.INTS32, "f64": docs.FLOATS[:-1], "str": docs.STRINGS, "bool": [False, True], "bin": docs.BYTES}
    for t, pool in pools.items():
        for v in pool:
            yield t, v


def run_values(case):
    from docria.model import Document
    from mc import docs
    t, v = case
    pools = {"i32": docs.INTS32, "f64": docs.FLOATS[:-1], "str": docs.STRINGS, "bool": [False, True], "bin": docs.BYTES}
    doc = Document()
    layer = doc.add_layer("t", f=docs.make_type((t,) if t == "bin" else (t, None)))
    nodes = [layer.add(f=w) for w in pools[t]]
    vals = pools[t]
    empty = layer.add()
    for text, pred, truth in (("==", layer["f"] == v, lambda w: w == v), ("!=", layer["f"] != v, lambda w: w != v),
                              ("any", layer["f"].is_any(v), lambda w: w == v), ("not any", ~layer["f"].is_any(v, vals[0]), lambda w: w not in (v, vals[0]))):
        core.step()
        identical(layer[pred], [n for n, w in zip(nodes + [empty], vals + [None]) if truth(w)], "f %s %r" % (text, v))
    full = layer[layer["f"].has_value()]
    identical(full, nodes, "nodes with a value")
    for text, pred, truth in (("<", layer["f"] < v, lambda w: w < v), ("<=", layer["f"] <= v, lambda w: w <= v),
                              (">", layer["f"] > v, lambda w: w > v), (">=", layer["f"] >= v, lambda w: w >= v)):
        core.step()
        identical(full[pred], [n for n, w in zip(nodes, vals) if truth(w)], "f %s %r" % (text, v))
        identical(layer[layer["f"].has_value() & pred], [n for n, w in zip(nodes, vals) if truth(w)], "f set and f %s %r" % (text, v))
    return case


def gen_spans():
    n = 6 if core.thorough() else 5
    for a in range(-1, n + 2):
        for b in range(a, n + 2):
            yield n, a, b


def run_spans(case):
    from docria.model import Document, DataTypes as T
    n, a, b = case
    doc = Document()
    text = doc.add_text("t", "\U0001F600bcdefgh"[:n])
    layer = doc.add_layer("l", p=T.textspan("t"))
    rows = []
    for c in range(n + 1):
        for d in range(c, n + 1):
            rows.append((layer.add(p=text[c:d]), (c, d)))
    core.step(2)
    identical(layer[layer["p"].covered_by(a, b)], [m for m, (c, d) in rows if a <= c and d <= b], "covered by %d %d" % (a, b))
    identical(layer[layer["p"].intersected_by(a, b)], [m for m, (c, d) in rows if c < b and a < d], "intersected by %d %d" % (a, b))
    identical(layer[~layer["p"].covered_by(a, b)], [m for m, (c, d) in rows if not (a <= c and d <= b)], "not covered by %d %d" % (a, b))
    identical(layer[layer["p"] == text[1:2]], [m for m, (c, d) in rows if (c, d) == (1, 2)], "span equality")
    return case


# -- columns of spans, references and lists

COLUMNS = ("span", "ref", "refs", "nspan", "s")


def objects(kind):
    """A layer with a column of this kind, what is in it, and what it can be compared to, with its description."""
    from docria.model import Document, DataTypes as T, NodeSpan, NodeList
    doc = Document()
    text = doc.add_text("main", "ab ab c\U0001F600 ")
    layer = doc.add_layer("t", f={"span": text.spantype, "ref": T.noderef("t"), "refs": T.noderef_many("t"), "nspan": T.nodespan("t"), "s": T.string(None)}[kind])
    nodes = [layer.add() for _ in range(6)]
    if kind == "span":
        vals = [(0, 2), (3, 5), (6, 8), (2, 2), None, (0, 2)]
        values = [text[v[0]:v[1]] if v else None for v in vals]
        others = [(text[0:2], (0, 2)), (text[3:5], (3, 5)), (text[4:5], (4, 5)), ("ab", "ab"), ("c\U0001F600", "c\U0001F600"), ("", ""), ("x", "x"), (None, None)]
        chars = "ab ab c\U0001F600 "
        truth = lambda v, o: v == o if v is None or o is None or isinstance(o, tuple) else chars[v[0]:v[1]] == o
    elif kind == "s":
        vals = values = ["ab", "", "c\U0001F600", None, "ab", " "]
        others = [("ab", "ab"), ("", ""), (None, None), (1, 1), (text[3:5], "ab"), (text[2:3], " ")]
        truth = lambda v, o: v == o
    else:
        vals = {"ref": [0, 1, 1, None, 5, 0], "refs": [(0, 1), (1, 0), (), None, (0,), (0, 1)], "nspan": ["A", "B", None, "A", "B", "A"]}[kind]
        shared = {"A": NodeSpan(nodes[0], nodes[2]), "B": NodeSpan(nodes[1], nodes[1])}
        make = {"ref": lambda v: nodes[v], "refs": lambda v: [nodes[i] for i in v], "nspan": shared.get}[kind]
        values = [None if v is None else make(v) for v in vals]
        items = {"ref": [0, 1, 2], "refs": [(0, 1), (), (0,), (5,)], "nspan": ["A", "B"]}[kind]
        others = [(make(v), v) for v in items] + [(None, None), (7, "seven")]
        if kind == "refs":
            others.append((NodeList([nodes[0], nodes[1]]), (0, 1)))
        truth = lambda v, o: v == o
    for n, v in zip(nodes, values):
        if v is not None:
            n["f"] = v
    return layer, nodes, vals, others, truth


def gen_objects():
    for kind in COLUMNS:
        n = len(objects(kind)[3])
        for k in range(0, 4 if core.thorough() else 3):
            for chosen in itertools.product(range(n), repeat=k):
                yield kind, chosen


def run_objects(case):
    kind, chosen = case
    layer, nodes, vals, others, truth = objects(kind)
    chosen = [others[i] for i in chosen]
    preds = [("is any of %s" % short([o for _, o in chosen]), lambda c: c["f"].is_any(*[x for x, _ in chosen]), lambda v: any(truth(v, o) for _, o in chosen))]
    if len(chosen) == 1:
        x, o = chosen[0]
        preds += [("== %s" % short(o), lambda c: c["f"] == x, lambda v: truth(v, o)), ("!= %s" % short(o), lambda c: c["f"] != x, lambda v: not truth(v, o))]
    for how, coll, rows in (("layer", layer, list(zip(nodes, vals))), ("list", layer[1:5], list(zip(nodes, vals))[1:5]), ("query", layer[layer["f"].has_value()], [(n, v) for n, v in zip(nodes, vals) if v is not None])):
        for text, pred, want in preds:
            core.step(2)
            identical(coll[pred(coll)], [n for n, v in rows if want(v)], "%s with a column of kind %s: %s" % (how, kind, text))
            identical(coll[~pred(coll)], [n for n, v in rows if not want(v)], "%s with a column of kind %s: not %s" % (how, kind, text))
    return case


# -- re-evaluation after edits

class Edits:
    """Queries kept while the layer changes; after update() they reflect the layer as it is."""

    def __init__(self, cfg):
        from docria.model import Document, DataTypes as T, Node
        self.Node = Node
        self.doc = Document()
        self.layer = self.doc.add_layer("t", x=T.int32(None), k=T.int32(None))
        self.rows = []
        for x in cfg[1]:
            self.add(x)
        if cfg[0] == "gap":
            self.layer.remove(self.rows.pop(1)[0])
        L = self.layer
        self.preds = [("x == 1", L["x"] == 1, lambda d: d.get("x") == 1),
                      ("x none or k > 1", L["x"].is_none() | (L["k"] > 1), lambda d: "x" not in d or d["k"] > 1)]
        self.queries = [(L[p], t, f) for t, p, f in self.preds]
        self.nested = [(self.queries[1][0][self.preds[0][1]], "nested", lambda d: self.preds[0][2](d) and self.preds[1][2](d))]
        self.column = L["x"]
        self.qcolumn = self.queries[0][0]["k"]

    def add(self, x):
        d = {"k": len(self.rows) % 3}
        if x is not None:
            d["x"] = x
        self.rows.append((self.layer.add(**d), d))

    def ops(self):
        out = [("add", 1), ("add", None), ("sort",)]
        for i in range(len(self.rows)):
            out += [("set", i, 1), ("set", i, 0), ("unset", i), ("remove", i)]
        return out

    def apply(self, op):
        if op[0] == "add":
            self.add(op[1])
        elif op[0] == "sort":
            key = lambda d: (d.get("x", -1), -d["k"])
            self.layer.sort(key)
            self.rows.sort(key=lambda r: key(r[1]))
        elif op[0] == "set":
            n, d = self.rows[op[1]]
            n["x"] = d["x"] = op[2]
        elif op[0] == "unset":
            n, d = self.rows[op[1]]
            n.pop("x", None)
            d.pop("x", None)
        elif op[0] == "remove":
            self.layer.remove(self.rows.pop(op[1])[0])
        for q, _, _ in self.queries + self.nested:
            q.update()

    def observe(self):
        for q, t, f in self.queries + self.nested:
            want = [n for n, d in self.rows if f(d)]
            identical(q, want, "query %s after update" % t)
            same(len(q), len(want), "length of query %s after update" % t)
            same(list(q["k"]), [n["k"] for n in want], "column of query %s after update" % t)
        for t, p, f in self.preds:
            identical(self.layer[p], [n for n, d in self.rows if f(d)], "a new query %s with the old predicate" % t)
        same(list(self.column), [d.get("x") for _, d in self.rows], "column of the layer")
        same(list(self.layer["x"]), [d.get("x") for _, d in self.rows], "new column of the layer")
        same(list(self.qcolumn), [d["k"] for _, d in self.rows if d.get("x") == 1], "column of the updated query")

    def key(self):
        return core.digest(self.doc, [q for q, _, _ in self.queries + self.nested])


def gen_large():
    for n in (50, 130, 257, 1000):
        for gap in (1, 3, n // 2):
            for what in range(8):
                yield n, gap, what


def run_large(case):
    """Large layers, long choices, deep combinations."""
    from docria.model import Document, DataTypes as T
    n, gap, kind = case
    doc = Document()
    text = doc.add_text("main", "x" * (n + 2))
    layer = doc.add_layer("t", k=T.int32, m=T.int32, s=T.string(None), p=text.spantype)
    nodes = [layer.add(k=i, m=i % 7, p=text[i:i + 1 + i % 3], **({"s": "s%d" % (i % 50)} if i % 4 else {})) for i in range(n)]
    layer.remove(nodes[gap::gap + 1])
    rows = [x for i, x in enumerate(nodes) if i % (gap + 1) != gap]
    label = {id(x): i for i, x in enumerate(nodes)}
    num = lambda x: label[id(x)]
    if kind == 0:
        pred, truth = layer["k"].is_any(*range(1, n, 3)), lambda i: i % 3 == 1
    elif kind == 1:
        pred, truth = layer["s"].is_any(*["s%d" % i for i in range(0, 50, 2)]), lambda i: i % 4 and i % 50 % 2 == 0
    elif kind == 2:
        pred = layer["k"] == 0
        for i in range(3, min(n, 200), 3):
            pred = pred | (layer["k"] == i)
        truth = lambda i: i < 200 and i % 3 == 0
    elif kind == 3:
        pred = layer["k"] >= 0
        for i in range(3, min(n, 200), 3):
            pred = (layer["k"] != i) & pred
        truth = lambda i: not (0 < i < 200 and i % 3 == 0)
    elif kind == 4:
        pred = layer["m"] == 3
        for _ in range(101):
            pred = ~pred
        truth = lambda i: i % 7 != 3
    elif kind == 5:
        pred, truth = layer["p"].covered_by(n // 4, n // 2), lambda i: n // 4 <= i and i + 1 + i % 3 <= n // 2
    elif kind == 6:
        pred, truth = layer["p"].intersected_by(n // 4, n // 2) & ~layer["s"].is_none(), lambda i: i < n // 2 and n // 4 < i + 1 + i % 3 and i % 4
    else:
        pred, truth = layer["s"].filter(lambda v: v is None or v.endswith("7")), lambda i: i % 4 == 0 or str(i % 50).endswith("7")
    want = [x for x in rows if truth(num(x))]
    q = layer[pred]
    what = "query %d of a layer of %d nodes" % (kind, len(rows))
    identical(q, want, what)
    same(len(q), len(want), what + ": length")
    same(list(q["k"]), [num(x) for x in want], what + ": column")
    same([x in q for x in rows], [bool(truth(num(x))) for x in rows], what + ": members")
    identical(layer.to_list()[pred], want, what + ", of the list")
    identical(q[lambda x: num(x) % 2 == 0] if callable(getattr(q, "__getitem__", None)) else [], [x for x in want if num(x) % 2 == 0], what + ", and of it the even ones")
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "expressions", gen_expressions, run_expressions, bound="all expressions with up to 3 of %d leaves, negations included" % len(LEAVES))
    core.enumerate_cases(rep, "collections", gen_collections, run_collections, bound="all contents of up to %d nodes x 64 nestings of collections x 6 predicates" % (6 if t else 5))
    core.enumerate_cases(rep, "values", gen_values, run_values, bound="comparisons of all pairs of boundary values of 5 types")
    core.enumerate_cases(rep, "spans", gen_spans, run_spans, bound="all spans of a text x all ranges")
    core.enumerate_cases(rep, "objects", gen_objects, run_objects, bound="columns of spans, references, lists and strings x all choices of up to %d of up to 8 values to compare to" % (3 if t else 2))
    core.search(rep, "edits", Edits, [("plain", (1, None)), ("plain", (0, 1, 1)), ("gap", (1, 0, None, 1))], 5 if t else 4, bound="edits between re-evaluations")
    core.enumerate_cases(rep, "large", gen_large, run_large, bound="layers of up to 1000 nodes, choices among up to 333 values, combinations of up to 67")
