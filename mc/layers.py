"""A layer and its reference model (a list of labelled nodes), driven through the public interface."""
import copy
import pickle
from .core import Violation, ensure, same, identical, refused, digest


class LayerSystem:
    """Real document with a layer under edit plus the list model that predicts it.

    The document has the layer under test `t` (fields v: int without default, d: int with default 7, s: string
    without default, r: reference into t), a second layer `o` of the same schema with two nodes, and a text.
    Labels number nodes in order of creation, so model and real node correspond for the whole history.
    """

    def __init__(self, cfg):
        from docria.model import Document, DataTypes as T, Node, NodeSpan
        from docria.codec import MsgpackCodec, JsonCodec
        self.T, self.Node, self.NodeSpan, self.Msgpack, self.Json = T, Node, NodeSpan, MsgpackCodec, JsonCodec
        self.cfg = cfg
        kind, n = cfg[0], cfg[1]
        self.doc = Document(title="x")
        self.doc.maintext = "abc"
        self.layer = self.doc.add_layer("t", v=T.int32(None), d=T.int32(7), s=T.string(None), r=T.noderef("t"))
        self.other = self.doc.add_layer("o", v=T.int32(None))
        self.foreign = [self.other.add(v=1), self.other.add(v=2)]
        # another document whose layer has the same name and schema, as two documents of one collection have
        self.twindoc = Document()
        self.twindoc.maintext = "abc"
        self.twinlayer = self.twindoc.add_layer("t", v=T.int32(None), d=T.int32(7), s=T.string(None), r=T.noderef("t"))
        self.twins = [self.twinlayer.add(v=i) for i in range(3)]
        self.nodes = []    # label -> real node
        self.fields = []   # label -> expected dict
        self.order = []    # labels in the layer, in order
        if kind == "many":
            self.do_add_many(n, "list")
        elif kind == "one":
            for i in range(n):
                self.do_add_kw(i % 3)
        elif kind == "decoded":
            self.do_add_many(n, "list")
            self.doc = MsgpackCodec.decode(MsgpackCodec.encode(self.doc))
            self.rebind()
        elif kind == "gap":
            self.do_add_many(n, "list")
            self.do_remove([self.order[i] for i in cfg[2]], "one")

    def rebind(self):
        """Continue on a document that replaced the current one (decoded, copied)."""
        self.layer, self.other = self.doc["t"], self.doc["o"]
        self.foreign = list(self.other)
        nodes = list(self.layer)
        same(len(nodes), len(self.order), "number of nodes after replacing the document")
        keep = {}
        for label, node in zip(self.order, nodes):
            keep[label] = node
        self.fields = [self.fields[l] for l in self.order]
        self.order = list(range(len(nodes)))
        self.nodes = nodes

    # -- model helpers
    def fresh(self, v, **kw):
        label = len(self.nodes)
        node = self.Node(v=v, **kw)
        self.nodes.append(node)
        self.fields.append(dict(v=v, **kw))
        return label, node

    def detached(self):
        inside = set(self.order)
        return [l for l in range(len(self.nodes)) if l not in inside]

    def pick(self, where):
        n = len(self.order)
        return self.order[{"first": 0, "mid": n // 2, "last": n - 1}[where]]

    def subset(self, kind):
        o = self.order
        return {"none": [], "all": list(o), "first": o[:1], "last": o[-1:], "evens": o[::2], "odds": o[1::2],
                "head": o[:(len(o) + 1) // 2], "tail": o[len(o) // 2:], "third": o[::3]}[kind]

    # -- operations with their predicted effect
    def do_add_kw(self, v):
        node = self.layer.add(v=v)
        ensure(isinstance(node, self.Node), "add(**fields) returned %r", node)
        self.nodes.append(node)
        self.fields.append({"v": v, "d": 7})
        self.order.append(len(self.nodes) - 1)

    def do_add_many(self, n, form):
        labels, nodes = [], []
        for i in range(n):
            label, node = self.fresh((i * 7) % 5)
            labels.append(label)
            nodes.append(node)
        # references inside the batch are allowed
        if n > 1:
            nodes[0]["r"] = nodes[-1]
            self.fields[labels[0]]["r"] = ("node", labels[-1])
        if form == "list":
            self.layer.add_many(nodes)
        elif form == "iter":
            self.layer.add_many(iter(nodes))
        elif form == "nofill":
            self.layer.add_many(nodes, default_fill=False)
        elif form == "novalidate":
            self.layer.add_many(nodes, full_validation=False)
        if form != "nofill":
            for l in labels:
                self.fields[l].setdefault("d", 7)
        self.order.extend(labels)

    def drop_refs(self, labels):
        pass

    def do_remove(self, labels, form):
        nodes = [self.nodes[l] for l in labels]
        if form == "one":
            for n in nodes:
                self.layer.remove(n)
        elif form == "detach":
            for n in nodes:
                n.detach()
        elif form == "del":
            for n in nodes:
                del self.layer[n]
        elif form == "list":
            self.layer.remove(nodes)
        elif form == "iter":
            self.layer.remove(iter(nodes))
        elif form == "nones":
            self.layer.remove([None] + nodes + [None])
        elif form == "live":  # a generator over the layer itself
            wanted = set(map(id, nodes))
            self.layer.remove(n for n in self.layer if id(n) in wanted)
        elif form == "query":
            wanted = set(map(id, nodes))
            self.layer.remove(self.layer[lambda n: id(n) in wanted])
        self.order = [l for l in self.order if l not in set(labels)]

    def clean(self):
        """References to detached nodes make encoding fail (that is C05); here they are taken out first."""
        for l, f in enumerate(self.fields):
            if "r" in f and f["r"][1] not in self.order:
                del f["r"]
                del self.nodes[l]["r"]

    def apply(self, op):
        name = op[0]
        L = self.layer
        if name == "add_kw":
            self.do_add_kw(op[1])
        elif name == "add_node":
            label, node = self.fresh(op[1])
            L.add(node)
            self.order.append(label)
        elif name == "add_nodes":
            (l1, n1), (l2, n2) = self.fresh(4), self.fresh(0)
            L.add(n1, n2)
            self.order += [l1, l2]
        elif name == "add_many":
            self.do_add_many(op[1], op[2])
        elif name == "readd":
            d = self.detached()
            if op[1] == "add":
                L.add(self.nodes[d[-1]])
                self.order.append(d[-1])
            else:
                L.add_many([self.nodes[l] for l in d], full_validation=False)
                for l in d:
                    self.fields[l].setdefault("d", 7)
                self.order += d
        elif name == "remove":
            self.do_remove([self.pick(op[1])], op[2])
        elif name == "remove_set":
            self.do_remove(self.subset(op[1]), op[2])
        elif name == "retain":
            labels = self.subset(op[1])
            nodes = [self.nodes[l] for l in labels]
            arg = {"list": nodes, "dup": nodes + nodes[::-1], "iter": iter(nodes), "rev": nodes[::-1],
                   "set": set(nodes)}[op[2]]
            L.retain(arg)
            keep = set(labels)
            self.order = [l for l in self.order if l in keep]
        elif name == "sort":
            f = self.fields
            key = {"v": lambda g: g["v"], "-v": lambda g: -g["v"], "const": lambda g: 0}[op[1]]
            L.sort(lambda n: key(n))
            self.order.sort(key=lambda l: key(f[l]))
        elif name == "compact":
            L.compact()
            self.ranks("after compact")
        elif name == "encode":
            self.clean()
            {"msgpack": self.Msgpack.encode, "json": self.Json.encode, "pickle": pickle.dumps,
             "copy": copy.copy, "deepcopy": copy.deepcopy}[op[1]](self.doc)
            self.ranks("after encoding")
        elif name == "set":
            l = self.pick(op[1])
            self.nodes[l]["v"] = op[2]
            self.fields[l]["v"] = op[2]
        elif name == "replace":
            self.clean()
            self.doc = {"decode": lambda d: self.Msgpack.decode(self.Msgpack.encode(d)),
                        "pickle": lambda d: pickle.loads(pickle.dumps(d)),
                        "copy": copy.copy}[op[1]](self.doc)
            # labels change on replacement: remap references first
            remap = {l: i for i, l in enumerate(self.order)}
            for l in self.order:
                if "r" in self.fields[l]:
                    self.fields[l]["r"] = ("node", remap[self.fields[l]["r"][1]])
            self.rebind()
            self.ranks("after decoding")
        else:
            self.apply_refused(op)

    # -- operations that have to be refused
    def apply_refused(self, op):
        name = op[0]
        assert name == "refuse", op
        L, kind = self.layer, op[1]
        named = set()
        A = lambda w: self.nodes[self.pick(w)]

        def new(v=3, **kw):
            l, n = self.fresh(v, **kw)
            named.add(l)
            return n

        def mine(w):
            named.add(self.pick(w))
            return self.nodes[self.pick(w)]

        def det():
            named.add(self.detached()[-1])
            return self.nodes[self.detached()[-1]]

        F = self.foreign[0]
        W = self.twins[0]
        V = self.twins[1]
        fns = {
            "add-twin": lambda: lambda: L.add(W),
            "many-twin": lambda: (lambda a: lambda: L.add_many([a, V]))(new()),
            "remove-twin": lambda: lambda: L.remove(W),
            "remove-twins": lambda: lambda: L.remove([V, W]),
            "del-twin": lambda: lambda: L.__delitem__(V),
            "retain-twin": lambda: lambda: L.retain([W]),
            "retain-twin-mixed": lambda: (lambda a: lambda: L.retain([a, V]))(mine("first")),
            "remove-twin-mixed": lambda: (lambda a: lambda: L.remove([a, V]))(mine("last")),
            "index-twin": lambda: lambda: L[W],
            "left-twin": lambda: lambda: L.left(V),
            "right-twin": lambda: lambda: L.right(W),
            "span-twin": lambda: lambda: self.NodeSpan(A("first"), V),
            "span-twin-left": lambda: lambda: self.NodeSpan(W, A("last")),
            "iter_span-twin": lambda: lambda: list(A("first").iter_span(self.twins[2])),
            "encode-twinref": lambda: self.spoiled("r", V),
            "add-attached": lambda: (lambda a: lambda: L.add(a))(mine("first")),
            "add-attached-last": lambda: (lambda a: lambda: L.add(new(), a))(mine("last")),
            "add-foreign": lambda: lambda: L.add(F),
            "add-fresh-foreign": lambda: (lambda a: lambda: L.add(a, F))(new()),
            "add-nonnode": lambda: lambda: L.add({"v": 1}),
            "add-fresh-nonnode": lambda: (lambda a: lambda: L.add(a, 5))(new()),
            "add-badvalue": lambda: lambda: L.add(v="x"),
            "add-badref": lambda: lambda: L.add(v=1, r=F),
            "add-detachedref": lambda: (lambda a: lambda: L.add(v=1, r=a))(self.Node(v=1)),
            "add-range": lambda: lambda: L.add(v=1 << 31),
            "many-attached": lambda: (lambda a, b: lambda: L.add_many([a, b]))(new(), mine("first")),
            "many-foreign": lambda: (lambda a: lambda: L.add_many([a, F]))(new()),
            "many-twice": lambda: (lambda a: lambda: L.add_many([a, a]))(new()),
            "many-nonnode": lambda: (lambda a: lambda: L.add_many([a, None]))(new()),
            "many-badvalue": lambda: (lambda a, b: lambda: L.add_many([a, b]))(new(), new(v="bad")),
            "many-badvalue-iter": lambda: (lambda a, b: lambda: L.add_many(iter([a, b])))(new(v="bad"), new()),
            "many-notiterable": lambda: lambda: L.add_many(7),
            "remove-foreign": lambda: lambda: L.remove(F),
            "remove-copy": lambda: lambda: L.remove(copy.copy(A("first"))),
            "retain-copy": lambda: (lambda a: lambda: L.retain([copy.copy(a)]))(A("last")),
            "index-copy": lambda: lambda: L[copy.copy(A("first"))],
            "left-copy": lambda: lambda: L.left(copy.copy(A("last"))),
            "remove-detached": lambda: (lambda a: lambda: L.remove(a))(det()),
            "remove-fresh": lambda: lambda: L.remove(self.Node(v=1)),
            "remove-mixed": lambda: (lambda a: lambda: L.remove([a, F]))(mine("mid")),
            "remove-mixed-first": lambda: (lambda a: lambda: L.remove([F, a]))(mine("last")),
            "remove-twice": lambda: (lambda a: lambda: L.remove([a, a]))(mine("first")),
            "remove-nonnode": lambda: (lambda a: lambda: L.remove([a, "x"]))(mine("first")),
            "remove-notiterable": lambda: lambda: L.remove(5),
            "retain-foreign": lambda: lambda: L.retain([F]),
            "retain-mixed": lambda: (lambda a: lambda: L.retain([a, F]))(mine("first")),
            "retain-detached": lambda: (lambda a: lambda: L.retain([a]))(det()),
            "retain-nonnode": lambda: (lambda a: lambda: L.retain([a, None]))(mine("last")),
            "retain-notiterable": lambda: lambda: L.retain(5),
            "sort-fails": lambda: lambda: L.sort(self.failing_key()),
            "sort-incomparable": lambda: lambda: L.sort(self.incomparable_key()),
            "index-foreign": lambda: lambda: L[F],
            "span-foreign": lambda: lambda: self.NodeSpan(A("first"), F),
            "span-reversed": lambda: lambda: self.NodeSpan(A("last"), A("first")),
            "left-foreign": lambda: lambda: L.left(F),
            "right-foreign": lambda: lambda: L.right(F),
            "field-duplicate": lambda: lambda: L.add_field("v", self.T.string),
            "field-notype": lambda: lambda: L.add_field("zz", "int"),
            "encode-badvalue": lambda: self.spoiled("v", "bad"),
            "encode-extra": lambda: self.spoiled("undeclared", 1),
            "encode-foreignref": lambda: self.spoiled("r", F),
            "layer-referred": lambda: lambda: self.doc.remove_layer("t") if self.add_referring() else None,
        }
        fn = fns[kind]()
        before = list(self.order)
        try:
            refused(fn, "%s on layer with %d nodes" % (kind, len(before)))
        finally:
            self.after_refusal()
        # nodes the request named may have been added or removed, in place; adopt what happened to them
        real = list(self.layer)
        back = {id(n): l for l, n in enumerate(self.nodes)}
        got = [back.get(id(n)) for n in real]
        ensure(None not in got, "refused %s: the layer now holds a node nobody added: %r", kind, real)
        ensure(len(set(got)) == len(got), "refused %s: a node is in the layer twice", kind)
        same([l for l in got if l not in named], [l for l in before if l not in named],
             "refused %s: nodes the request did not name" % kind)
        # a named node that stays keeps its place among the others, one that is added goes to the end
        stay = [l for l in got if l in set(before)]
        same(stay, [l for l in before if l in set(stay)], "refused %s: order of the nodes that stayed" % kind)
        ensure(all(l in set(before) for l in got[:len(stay)]), "refused %s: added nodes are not last: %r", kind, got)
        self.order = got
        for l in named:
            f = self.fields[l]
            if l in got and "d" not in f and "d" in self.nodes[l]:
                f["d"] = 7

    def failing_key(self):
        calls = []

        def key(n):
            calls.append(n)
            if len(calls) == max(1, len(self.order)):
                raise KeyError("key")
            return -len(calls)
        return key

    def incomparable_key(self):
        calls = []

        def key(n):
            calls.append(n)
            return None if len(calls) == len(self.order) else -len(calls)
        return key

    spoiled_undo = None

    def spoiled(self, field, value):
        node = self.nodes[self.pick("last")]
        had, old = field in node, node.get(field)
        node[field] = value

        def undo():
            if had:
                node[field] = old
            else:
                del node[field]
        self.spoiled_undo = undo
        return lambda: self.Msgpack.encode(self.doc)

    def add_referring(self):
        if "ref" not in self.doc:
            self.doc.add_layer("ref", to=self.T.noderef("t"))
            self.spoiled_undo = lambda: self.doc.remove_layer("ref")
        return True

    def after_refusal(self):
        if self.spoiled_undo is not None:
            self.spoiled_undo()
            self.spoiled_undo = None

    # -- what has to be observable
    def ranks(self, when):
        for r, l in enumerate(self.order):
            n = self.nodes[l]
            same(n.i, r, "%s: position of node %d" % (when, l))
            ensure(self.layer[r] is n, "%s: layer[%d] is another node", when, r)
        if self.order:
            ensure(self.layer[-1] is self.nodes[self.order[-1]], "%s: layer[-1] is not the last node", when)

    def observe(self):
        L = self.layer
        expected = [self.nodes[l] for l in self.order]
        n = len(expected)
        same(len(L), n, "len(layer)")
        identical(L, expected, "iteration")
        identical(L.to_list(), expected, "to_list()")
        identical(L[:], expected, "layer[:]")
        identical(reversed(L), expected[::-1], "reversed(layer)")
        ensure(L.first() is (expected[0] if n else None), "first(): %r", L.first())
        ensure(L.last() is (expected[-1] if n else None), "last(): %r", L.last())
        prev = -1
        for k, node in enumerate(expected):
            i = node.i
            ensure(isinstance(i, int) and i > prev, "positions do not increase: node %d of %d has %r after %r", k, n, i, prev)
            prev = i
            ensure(L[i] is node, "layer[%d] is not the node with that position (%d of %d)", i, k, n)
            ensure(L[node] is node, "layer[node] is another node")
            ensure(not node.is_dangling() and node in L and node.collection is L, "attached node %d reports detached", k)
            ensure(L.left(node) is (expected[k - 1] if k else None), "left neighbour of node %d of %d: %r", k, n, L.left(node))
            ensure(L.right(node) is (expected[k + 1] if k + 1 < n else None), "right neighbour of node %d of %d", k, n)
            twin = copy.copy(node)
            ensure(twin is not node and twin not in L and twin.is_dangling() and dict(twin) == dict(node), "a copy of node %d reports that it is in the layer", k)
            ensure(node.left is (expected[k - 1] if k else None), "node.left of node %d of %d", k, n)
            ensure(node.right is (expected[k + 1] if k + 1 < n else None), "node.right of node %d of %d", k, n)
        cuts = sorted({0, n // 3, n // 2, n - 1} & set(range(n)))
        for a in cuts:
            for b in cuts:
                ia, ib = expected[a].i, expected[b].i
                identical(L[ia:ib], expected[a:b], "slice from node %d to node %d" % (a, b))
                identical(L[ia:ib + 1], expected[a:b + 1], "slice from node %d to node %d inclusive" % (a, b))
                lo, hi = min(a, b), max(a, b)
                identical(expected[a].iter_span(expected[b]), expected[lo:hi + 1], "iter_span %d %d" % (a, b))
        if n:
            identical(L[expected[n // 2].i:], expected[n // 2:], "slice from the middle")
            identical(L[:expected[n // 2].i], expected[:n // 2], "slice up to the middle")
        same(list(L["v"]), [self.fields[l].get("v") for l in self.order], "column v")
        for l in self.detached():
            node = self.nodes[l]
            ensure(node.is_dangling() and node.collection is None, "node %d is not in the layer but reports attached", l)
            ensure(node not in L, "detached node is a member")
        for l, node in enumerate(self.nodes):
            f = self.fields[l]
            same(sorted(node.keys()), sorted(f.keys()), "fields of node %d" % l)
            for k, v in f.items():
                if isinstance(v, tuple):
                    ensure(node[k] is self.nodes[v[1]], "reference of node %d changed", l)
                else:
                    same(node[k], v, "field %s of node %d" % (k, l))
        identical(self.other, self.foreign, "the other layer")
        for k, f in enumerate(self.foreign):
            ensure(f.collection is self.other and f.i == k and self.other[k] is f, "node of the other layer was moved")
        identical(self.twinlayer, self.twins, "the layer of the same name in another document")
        for k, f in enumerate(self.twins):
            ensure(f.collection is self.twinlayer and f.i == k and self.twinlayer[k] is f, "node of another document was moved")
            ensure(f not in L, "node of another document is a member")
            same(dict(f), {"v": k, "d": 7}, "fields of a node of another document")

    def key(self):
        return (tuple(self.order), tuple(tuple(sorted(f.items())) for f in self.fields), digest(self.doc, self.nodes))
