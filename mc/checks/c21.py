"""C21: a node span denotes the live nodes between its ends, after any edit history of the layer."""
import copy
import pickle
from mc import core
from mc.core import same, identical, ensure, refused, digest

LEVEL = "model_checking"
RULE = "all edit histories up to the depth over a layer with text spans, merged when model and real object graph coincide; after " \
       "each step every pair of ends ever paired and every current pair is compared with the list of attached nodes"
DEADLINE = {"quick": 240, "thorough": 820}

TEXT = "ab\U0001F600 cd ef gh ij kl"


class Spans:
    """Layer `t` (k: label, text: span) and layer `s` whose node span fields hold every pair of the start nodes."""

    def __init__(self, cfg):
        from docria.model import Document, DataTypes as T, Node, NodeSpan
        from docria.codec import MsgpackCodec, JsonCodec
        self.M, self.J, self.T, self.Node, self.NodeSpan = MsgpackCodec, JsonCodec, T, Node, NodeSpan
        kind, n = cfg[0], cfg[1]
        self.doc = Document()
        self.doc.maintext = TEXT
        self.layer = self.doc.add_layer("t", k=T.int32(None), text=T.span("main"), zone=T.span("main"))
        self.other = self.doc.add_layer("o", k=T.int32(None), text=T.span("main"))
        self.stray = self.other.add(k=1, text=self.doc.maintext[0:2])
        self.holder = self.doc.add_layer("s", a=T.int32(None), b=T.int32(None), span=T.nodespan("t"))
        self.nodes, self.ext, self.order = [], [], []
        self.spans = {}
        self.key_of = {}
        for i in range(n):
            self.add(i)
        if kind == "gap":
            self.remove(cfg[2])
        if kind == "decoded":
            self.pair_up()
            self.replace("msgpack")
        self.pair_up()
        for a, b in sorted(self.spans):
            self.holder.add(a=a, b=b, span=self.NodeSpan(self.nodes[a], self.nodes[b]))

    def extent(self, i):
        a = (i * 2) % (len(TEXT) - 2)
        return a, a + 2

    def add(self, i, node=None):
        label = len(self.nodes)
        a, b = self.extent(label)
        if node is None:
            node = self.layer.add(k=label, text=self.doc.maintext[a:b], zone=self.doc.maintext[a + 1:b])
        self.nodes.append(node)
        self.ext.append((a, b))
        self.order.append(label)

    def pair_up(self):
        for x, a in enumerate(self.order):
            for b in self.order[x:]:
                if (a, b) not in self.spans:
                    self.spans[a, b] = self.NodeSpan(self.nodes[a], self.nodes[b])

    def remove(self, where):
        for l in [self.order[i] for i in where]:
            self.layer.remove(self.nodes[l])
            self.order.remove(l)

    def drop_invalid(self):
        """Spans of the holder with a detached end cannot be encoded (C05): those nodes are removed first."""
        pos = {l: i for i, l in enumerate(self.order)}
        for n in list(self.holder):
            if not (n["a"] in pos and n["b"] in pos and pos[n["a"]] <= pos[n["b"]]):
                self.holder.remove(n)

    def replace(self, how):
        self.drop_invalid()
        d = self.doc
        d = {"msgpack": lambda: self.M.decode(self.M.encode(d)), "json": lambda: self.J.decode(self.J.encode(d)),
             "pickle": lambda: pickle.loads(pickle.dumps(d)), "copy": lambda: copy.deepcopy(d)}[how]()
        self.doc, self.layer, self.other, self.holder = d, d["t"], d["o"], d["s"]
        self.stray = self.other.first()
        real = list(self.layer)
        same([n["k"] for n in real], self.order, "nodes after replacing the document")
        remap = {l: i for i, l in enumerate(self.order)}
        self.nodes = real
        self.ext = [self.ext[l] for l in self.order]
        for i, n in enumerate(real):
            n["k"] = i
        self.spans = {}
        for n in self.holder:
            a, b = remap[n["a"]], remap[n["b"]]
            n["a"], n["b"] = a, b
            self.spans[a, b] = n["span"]
        self.order = list(range(len(real)))

    def ops(self):
        n = len(self.order)
        out = [("add",), ("sort", "k"), ("compact",), ("encode",)]
        if n < 4:
            out += [("readd",)] if len(self.nodes) > n else []
        if n:
            out += [("remove", (i,)) for i in range(min(n, 5))]
            out += [("sort", "-k"), ("sort", "mix"), ("retain", "tail"), ("retain", "evens"), ("replace", "msgpack"), ("replace", "json"),
                    ("replace", "pickle"), ("replace", "copy")]
        if n > 2:
            out += [("many", (0, n - 1)), ("many", (1, 2))]
        return out

    def apply(self, op):
        name = op[0]
        if name == "add":
            self.add(0)
        elif name == "readd":
            l = [x for x in range(len(self.nodes)) if x not in self.order][0]
            self.layer.add(self.nodes[l])
            self.order.append(l)
        elif name == "sort":
            key = {"k": lambda k: k, "-k": lambda k: -k, "mix": lambda k: (k * 2) % 5}[op[1]]
            self.layer.sort(lambda n: key(n["k"]))
            self.order.sort(key=key)
        elif name == "compact":
            self.layer.compact()
        elif name == "encode":
            self.drop_invalid()
            self.M.encode(self.doc)
        elif name == "remove":
            self.remove(op[1])
        elif name == "many":
            gone = [self.order[i] for i in op[1]]
            self.layer.remove([self.nodes[l] for l in gone])
            self.order = [l for l in self.order if l not in gone]
        elif name == "retain":
            keep = {"tail": self.order[len(self.order) // 2:], "evens": self.order[::2]}[op[1]]
            self.layer.retain([self.nodes[l] for l in keep])
            self.order = list(keep)
        elif name == "replace":
            self.replace(op[1])
        self.pair_up()

    def check(self, what, span, a, b, pos):
        labels = self.order[pos[a]:pos[b] + 1]
        nodes = [self.nodes[l] for l in labels]
        identical(span, nodes, what + ": iteration")
        same(len(span), len(nodes), what + ": length")
        identical(span.to_list(), nodes, what + ": list")
        same([n in span for n in self.nodes], [any(n is m for m in nodes) for n in self.nodes], what + ": membership")
        ensure(span.first() is nodes[0] and span.last() is nodes[-1], "%s: first or last node", what)
        ensure(span.left is nodes[0] and span.right is nodes[-1], "%s: ends", what)
        same(list(span["k"]), labels, what + ": column")
        identical(list(iter(span)), nodes, what + ": second iteration")
        lo, hi = self.ext[a][0], self.ext[b][1]
        if lo <= hi:
            same(span.text(), TEXT[lo:hi], what + ": text")
            same(span.text("text"), TEXT[lo:hi], what + ": text")
            t = span.textspan()
            same((str(t), t.start, t.stop), (TEXT[lo:hi], lo, hi), what + ": text span")
        if lo + 1 <= hi:
            same(span.text("zone"), TEXT[lo + 1:hi], what + ": text of the other field")

    def observe(self):
        pos = {l: i for i, l in enumerate(self.order)}
        identical(self.layer, [self.nodes[l] for l in self.order], "layer")
        for (a, b), span in self.spans.items():
            if a in pos and b in pos and pos[a] <= pos[b]:
                self.check("span from node %d to node %d" % (a, b), span, a, b, pos)
        for x, a in enumerate(self.order):
            for y, b in enumerate(self.order):
                na, nb = self.nodes[a], self.nodes[b]
                lo, hi = (x, y) if x <= y else (y, x)
                between = [self.nodes[l] for l in self.order[lo:hi + 1]]
                identical(na.iter_span(nb), between, "iter_span of nodes %d and %d" % (a, b))
                if x <= y:
                    identical(self.layer.iter_nodespan(na, nb), between, "iter_nodespan of nodes %d and %d" % (a, b))
                    if x % 2 == 0:
                        self.check("new span from node %d to node %d" % (a, b), self.NodeSpan(na, nb), a, b, pos)
                else:
                    refused(lambda: self.NodeSpan(na, nb), "span with ends in the wrong order")
                    refused(lambda: list(self.layer.iter_nodespan(na, nb)), "iter_nodespan with ends in the wrong order")
        if self.order:
            n = self.nodes[self.order[0]]
            m = self.nodes[self.order[-1]]
            refused(lambda: self.NodeSpan(n, self.stray), "span to a node of another layer")
            refused(lambda: self.NodeSpan(self.stray, m), "span from a node of another layer")
            refused(lambda: list(n.iter_span(self.stray)), "iteration to a node of another layer")
            refused(lambda: list(self.layer.iter_nodespan(self.stray, m)), "iteration from a node of another layer")
            refused(lambda: list(self.other.iter_nodespan(n, m)), "iteration over nodes of another layer")
            fresh = self.Node(k=9)
            refused(lambda: self.NodeSpan(n, fresh), "span to a node of no layer")
            refused(lambda: self.NodeSpan(fresh, n), "span from a node of no layer")
        for n in self.holder:
            a, b = n["a"], n["b"]
            if a in pos and b in pos and pos[a] <= pos[b]:
                self.check("span field %d to %d" % (a, b), n["span"], a, b, pos)

    def key(self):
        return tuple(self.order), tuple(self.ext), sorted(self.spans), digest(self.doc, self.nodes)


def gen_long():
    """Layers beyond the compaction threshold: remove any block, then look at spans across and beside the hole."""
    top = 30 if core.thorough() else 24
    for n in range(12, top):
        for a in range(0, n - 1):
            for k in range(1, n - a - 1):
                yield n, a, k
    for n in (65, 130, 257, 300):
        for a in (0, 1, n // 3, n - 3):
            for k in sorted({1, 2, n // 4, n // 2, n - a - 2}):
                if 0 < k < n - a - 1:
                    yield n, a, k


def run_long(case):
    from docria.model import Document, DataTypes as T, NodeSpan
    n, a, k = case
    doc = Document()
    doc.maintext = "x" * n
    layer = doc.add_layer("t", k=T.int32, text=T.span)
    for i in range(n):
        layer.add(k=i, text=doc.maintext[i:i + 1])
    nodes = list(layer)
    ends = [i for i in range(n) if not a <= i < a + k]
    pairs = [(x, y) for x in ends[:2] + ends[-2:] + [i for i in (a - 1, a + k) if i in ends] for y in ends if x <= y]
    spans = [(x, y, NodeSpan(nodes[x], nodes[y])) for x, y in pairs]
    for step in ("list", "one"):
        gone = nodes[a:a + k // 2] if step == "list" else nodes[a + k // 2:a + k]
        if step == "list":
            layer.remove(gone)
        else:
            for g in gone:
                layer.remove(g)
        dead = set(range(a, a + (k // 2 if step == "list" else k)))
        for x, y, s in spans:
            core.step()
            want = [nodes[i] for i in range(x, y + 1) if i not in dead]
            identical(s, want, "span %d to %d of %d nodes after removing %s" % (x, y, n, sorted(dead)))
            same(len(s), len(want), "length of span %d to %d" % (x, y))
            same(s.text(), "x" * (y + 1 - x), "text of span %d to %d" % (x, y))
    return case


def main(rep):
    t = core.thorough()
    core.search(rep, "histories", Spans, [("all", 3), ("all", 4), ("gap", 5, (1, 2)), ("decoded", 3)], 6 if t else 4,
                bound="4 start layers, up to 22 operations, all pairs of ends")
    core.enumerate_cases(rep, "threshold", gen_long, run_long, bound="layers of 12 to %d nodes, every removed block" % (29 if t else 23))
