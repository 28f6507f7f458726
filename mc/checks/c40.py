"""C40: an iteration in progress survives encoding and edits of its layer."""
import copy
import itertools
import pickle
from mc import core, java
from mc.core import same, ensure, identical
from mc.java import S

LEVEL = "model_checking"
RULE = "all interleavings of steps of up to two open iterations (layer, column, node span) with edits and encodings of the layer, up to the number of " \
       "operations; every node an iteration gives is compared with the nodes that are attached, were attached since it was opened, and were given before"
ASSUMPTIONS = java.ASSUMPTIONS
DEADLINE = {"quick": 200, "thorough": 820}

TEXT = "abcdefghijklmnopqrstuvwxyz" * 2


class World:
    """The layer, the labels of its attached nodes in order and, per open iteration, the labels it has to give."""

    def __init__(self, cfg):
        from docria.model import Document, DataTypes as T, Node, NodeSpan
        from docria.codec import MsgpackCodec, JsonCodec, XmlCodec
        self.Node, self.NodeSpan = Node, NodeSpan
        kind, n = cfg
        self.doc = Document()
        self.doc.maintext = TEXT
        self.layer = self.doc.add_layer("t", k=T.int32(None), x=T.span())
        self.layer.add_many(Node(k=i, x=self.doc.maintext[i:i + 1]) for i in range(n))
        self.nodes = list(self.layer)
        self.order = list(range(n))
        self.spare = []
        self.its = []
        self.next_label = n
        self.codecs = {"msgpack": MsgpackCodec.encode, "json": JsonCodec.encode, "object": JsonCodec.encode_object,
                       "xml": XmlCodec.encode_utf8string, "pickle": pickle.dumps, "copy": copy.deepcopy, "str": lambda d: (str(d), d["t"]._repr_html_()),
                       "compile": lambda d: d.compile()}
        if kind == "gap":
            self.drop([self.order[1]])
        elif kind == "gaps":
            self.drop([self.order[0], self.order[-1]])

    def drop(self, labels):
        if len(labels) == 1:
            self.layer.remove(self.nodes[labels[0]])
        else:
            self.layer.remove([self.nodes[l] for l in labels])
        self.gone(labels)

    def gone(self, labels):
        for l in labels:
            self.order.remove(l)
            self.spare.append(l)
            for it in self.its:
                it["must"] = [x for x in it["must"] if x != l]
                it["given"].discard(l)   # attached again it may be given again, at its old place or its new one
                it["moved"].add(l)

    def add(self):
        l = self.next_label
        self.next_label += 1
        self.nodes.append(self.layer.add(k=l, x=self.doc.maintext[l:l + 1]))
        identical(self.nodes[l].collection, self.layer, "layer of an added node")
        self.order.append(l)

    def open(self, kind):
        if kind == "layer":
            it, must = iter(self.layer), self.order
        elif kind == "column":
            it, must = iter(self.layer["k"]), self.order
        elif kind == "span":
            it, must = iter(self.NodeSpan(self.nodes[self.order[0]], self.nodes[self.order[-1]])), self.order
        elif kind == "inner":
            must = self.order[1:-1]
            it = iter(self.NodeSpan(self.nodes[must[0]], self.nodes[must[-1]]))
        self.its.append({"kind": kind, "it": it, "must": list(must), "given": set(), "moved": set(), "done": False, "last": None, "bound": set(must) if kind in ("span", "inner") else None})

    def step(self, i):
        """Steps iteration i; returns the label or None at its end."""
        core.step()
        it = self.its[i]
        what = "iteration %d (%s)" % (i, it["kind"])
        try:
            v = next(it["it"])
        except StopIteration:
            same(it["must"], [], "nodes that %s left out" % what)
            it["done"] = True
            return None
        if it["kind"] == "column":
            ensure(isinstance(v, int), "%s gave %r", what, v)
            l = v
        else:
            ensure(isinstance(v, self.Node), "%s gave %r, no node", what, v)
            l = v["k"]
            identical(v, self.nodes[l], "node given by %s" % what)
        ensure(l in self.order, "%s gave node %d, which was removed before", what, l)
        ensure(l not in it["given"], "%s gave node %d twice", what, l)
        if it["bound"] is not None:
            ensure(l in it["bound"] or l in it["moved"], "%s gave node %d, which is outside the span", what, l)
        if l in it["must"]:
            at = it["must"].index(l)
            same(it["must"][:at], [], "nodes that %s passed over to give node %d" % (what, l))
            del it["must"][0]
        elif l not in it["moved"]:
            same(it["must"], [], "nodes that %s passed over to give node %d, which came later" % (what, l))
        it["given"].add(l)
        it["last"] = l
        return l

    def apply(self, op):
        """False if the operation makes no sense here."""
        name = op[0]
        order = self.order
        if name == "open":
            if len(self.its) == 2 or not order or (op[1] == "inner" and len(order) < 3):
                return False
            self.open(op[1])
        elif name == "step":
            if op[1] >= len(self.its) or self.its[op[1]]["done"]:
                return False
            for _ in range(op[2] if len(op) > 2 else 1):
                if self.step(op[1]) is None:
                    break
        elif name == "remove":
            if op[1] >= len(order):
                return False
            self.drop([order[op[1]]])
        elif name == "given":       # the usual loop: remove the node the iteration is at
            its = [x for x in self.its if x["last"] in order]
            if not its:
                return False
            self.drop([its[-1]["last"]])
        elif name == "next":        # the node that is due
            its = [x for x in self.its if x["must"]]
            if not its:
                return False
            self.drop([its[-1]["must"][0]])
        elif name == "many":
            labels = {"first": lambda: order[:op[2]], "last": lambda: order[-op[2]:], "evens": lambda: order[::2], "thirds": lambda: order[::3]}[op[1]]()
            if len(labels) < 2:
                return False
            self.drop(list(labels))
        elif name == "retain":
            keep = {"tail": order[1:], "evens": order[::2], "most": [l for i, l in enumerate(order) if i % 4]}[op[1]]
            if len(keep) == len(order):
                return False
            self.layer.retain([self.nodes[l] for l in keep])
            self.gone([l for l in order if l not in keep])
        elif name == "add":
            self.add()
        elif name == "addmany":
            l = self.next_label
            self.next_label += 2
            new = [self.Node(k=l, x=self.doc.maintext[0:1]), self.Node(k=l + 1)]
            self.layer.add_many(new)
            self.nodes += new
            order += [l, l + 1]
        elif name == "readd":
            if not self.spare:
                return False
            l = self.spare.pop()
            self.layer.add(self.nodes[l])
            order.append(l)
        elif name == "compact":
            self.layer.compact()
        elif name == "sort":
            self.layer.sort(lambda n: -n["k"])
            order.sort(reverse=True)
        elif name == "encode":
            before = core.h64([id(n) for n in self.layer])
            self.codecs[op[1]](self.doc)
            same(core.h64([id(n) for n in self.layer]), before, "nodes of the layer after encoding")
        return True

    def finish(self):
        for i, it in enumerate(self.its):
            for _ in range(3 * len(self.nodes) + 3):
                if it["done"]:
                    break
                self.step(i)
            else:
                raise core.Violation("iteration %d does not end" % i)
        same([n["k"] for n in self.layer], self.order, "nodes of the layer at the end")
        same([n.i for n in self.layer] == sorted({n.i for n in self.layer}), True, "positions of the nodes in order")


OPENS = [("open", k) for k in ("layer", "column", "span", "inner")]
SMALL = OPENS + [("step", 0), ("step", 1), ("remove", 0), ("remove", 1), ("remove", 2), ("remove", 3), ("given",), ("next",), ("many", "first", 2), ("many", "evens"),
                 ("retain", "tail"), ("retain", "evens"), ("add",), ("addmany",), ("readd",), ("compact",), ("sort",), ("encode", "msgpack"), ("encode", "json"),
                 ("encode", "pickle")]
BIG = OPENS + [("step", 0), ("step", 0, 6), ("step", 1, 3), ("given",), ("next",), ("remove", 0), ("remove", 15), ("many", "first", 5), ("many", "last", 5), ("many", "thirds"),
               ("many", "evens"), ("retain", "most"), ("add",), ("readd",), ("compact",), ("sort",), ("encode", "msgpack")]


def histories(configs, alphabet, depth):
    """Every sequence of operations that makes sense, each checked whole (the shorter ones are its beginnings), first operation an `open` or a change."""
    def gen():
        for cfg in configs:
            for k in OPENS:
                yield from extend(cfg, (k,), alphabet, depth)
    return gen


def extend(cfg, hist, alphabet, depth):
    if len(hist) == depth:
        yield cfg, hist
        return
    yield cfg, hist
    for op in alphabet:
        opened = sum(o[0] == "open" for o in hist)
        if op[0] == "open" and opened == 2:
            continue
        if op[:2] == ("step", 1) and opened < 2:
            continue
        if op[0] == "compact" and hist[-1][0] in ("compact", "sort", "retain"):
            continue
        yield from extend(cfg, hist + (op,), alphabet, depth)


def run(case):
    cfg, hist = case
    w = World(cfg)
    core.step(len(hist))
    for op in hist:
        if not w.apply(op):
            return None
    w.finish()
    return core.h64((cfg, [sorted(i["given"]) for i in w.its], w.order, [i["kind"] for i in w.its]))


def gen_all_codecs():
    """An iteration interrupted by every kind of reading the document, at every place, with gaps anywhere."""
    n = 6
    for gaps in itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n - 1)):
        for at in range(n - len(gaps) + 1):
            for when in ("before", "during"):
                for kind in ("layer", "column", "span"):
                    for codec in ("msgpack", "json", "object", "xml", "pickle", "copy", "str", "compile"):
                        yield gaps, at, when, kind, codec


def run_all_codecs(case):
    gaps, at, when, kind, codec = case
    w = World(("plain", 6))
    core.step(8)
    if when == "before":
        for g in gaps:
            w.drop([g])
    w.open(kind)
    for _ in range(at):
        if w.its[0]["done"] or w.step(0) is None:
            break
    if when == "during":
        for g in gaps:
            w.drop([g])
    w.apply(("encode", codec))
    w.finish()
    return core.h64(case)


def gen_loops():
    """The usual loop `for node in layer: if condition: edit`, for layers of all sizes around the automatic compaction."""
    for n in list(range(1, 7)) + list(range(15, 26)) + ([40, 66] if core.thorough() else []):
        for kind in ("layer", "column", "span"):
            for every in (1, 2, 3, 4, 5):
                for phase in range(every):
                    for what in ("given", "next", "first", "last", "given+add", "next+encode", "given+readd"):
                        yield n, kind, every, phase, what


def run_loops(case):
    n, kind, every, phase, what = case
    w = World(("plain", n))
    w.open(kind)
    adds = 0
    for k in itertools.count():
        if k > 6 * n + 10:
            raise core.Violation("the loop does not end")
        l = w.step(0)
        if l is None:
            break
        if k % every == phase:
            for part in what.split("+"):
                if part in ("given", "next"):
                    w.apply((part,))
                elif part == "first" and w.order:
                    w.drop([w.order[0]])
                elif part == "last" and w.order:
                    w.drop([w.order[-1]])
                elif part == "add" and adds < 4:
                    w.add()
                    adds += 1
                elif part == "readd" and adds < 4 and w.spare:
                    w.apply(("readd",))
                    adds += 1
                elif part == "encode":
                    w.apply(("encode", "msgpack"))
    w.finish()
    return core.h64((case, w.order))


# ---------------------------------------------------------------------------------------------------------------
# Java: an iteration may be refused (ConcurrentModificationException) once nodes were added, but it is never silently wrong

class Model:
    def __init__(self, n):
        self.order, self.its, self.spare, self.made = list(range(n)), [], [], n
        self.checks = []

    def apply(self, op):
        """The operation for the real layer, or None if it makes no sense here."""
        order, name = self.order, op[0]
        if name == "open":
            if len(self.its) == 2 or len(order) < 3:
                return None
            must = order if op[1] in ("iterator", "stream", "typed") else order[1:-1] if op[1] == "nodespan" else order
            self.its.append({"kind": op[1], "must": list(must), "left": set(), "added": False, "dead": False})
            return ["open", op[1]] + ([must[0], must[-1]] if op[1] in ("span", "nodespan") else [])
        if name == "step":
            if op[1] >= len(self.its) or not self.its[op[1]]["must"]:
                return None
            it = self.its[op[1]]
            self.checks.append((len(self.checks), it, it["must"].pop(0), it["added"]))
            return ["step", op[1]]
        self.checks.append(None)
        if name in ("remove", "removeObject", "removeAll"):
            its = [x for x in self.its if x["must"]]
            where = op[1]
            if where == "next":
                if not its:
                    return None
                labels = [its[-1]["must"][0]]
            elif where == "given":
                given = [l for l in order if its and l not in its[-1]["must"]]
                if not given:
                    return None
                labels = given[-1:]
            else:
                labels = {"first": lambda: order[:1], "last": lambda: order[-1:], "five": lambda: order[:5], "tail": lambda: order[-5:], "evens": lambda: order[::2],
                          "all": lambda: list(order)}[where]()
            if not labels:
                return None
            self.gone(labels)
            return [name, labels]
        if name == "retain":
            keep = {"evens": order[::2], "tail": order[1:]}[op[1]]
            if len(keep) == len(order):
                return None
            self.gone([l for l in order if l not in keep])
            return ["retain", keep]
        if name in ("add", "readd"):
            for it in self.its:
                it["added"] = True
            if name == "readd":
                if not self.spare:
                    return None
                l = self.spare.pop()
                order.append(l)
                return ["readd", [l]]
            order.append(self.made)
            self.made += 1
            return ["add"]
        if name == "sort":
            order.sort(reverse=True)
        return [name]

    def gone(self, labels):
        self.order = [l for l in self.order if l not in labels]
        self.spare += labels
        for it in self.its:
            it["must"] = [l for l in it["must"] if l not in labels]


JAVA_OPENS = [("open", k) for k in ("iterator", "stream", "typed", "span", "nodespan")]
JAVA_OPS = [("open", "iterator"), ("open", "nodespan"), ("step", 0), ("step", 1), ("remove", "given"), ("remove", "next"), ("removeObject", "first"), ("remove", "last"), ("removeAll", "five"),
            ("removeAll", "evens"), ("retain", "evens"), ("retain", "tail"), ("add",), ("readd",), ("compact",), ("sort",), ("encode",)]


def gen_java(sizes, depth):
    def gen():
        for n in sizes:
            for k in JAVA_OPENS:
                yield from extend_java(n, (k,), depth)
    return gen


def extend_java(n, hist, depth):
    yield n, hist
    if len(hist) == depth:
        return
    opened = sum(o[0] == "open" for o in hist)
    for op in JAVA_OPS:
        if op[0] == "open" and opened == 2 or op[:2] == ("step", 1) and opened < 2:
            continue
        yield from extend_java(n, hist + (op,), depth)


def run_java(case):
    n, hist = case
    m = Model(n)
    ops, steps = [], []
    for op in hist:
        o = m.apply(op)
        if o is None:
            return None
        if o[0] == "step":
            it = m.its[o[1]]
            steps.append((len(ops), o[1], m.checks[-1][2], it["added"]))
        ops.append(o)
    rests = []
    for i, it in enumerate(m.its):
        rests.append((len(ops), i, it["must"], it["added"]))
        ops.append(["rest", i])
    ops.append(["list"])
    s = S()
    s.raw("interleaved", n, ops)
    got = java.good(s.run()[0])
    core.step(len(ops))
    dead = set()
    for at, op in enumerate(ops):
        if op[0] not in ("step", "rest"):
            ensure(not str(got[at]).startswith(("error", "refused")), "%s gave %s", op, got[at])
    for at, i, want, added in steps:
        if i in dead:
            continue
        if got[at] == "refused" and added:
            dead.add(i)
            continue
        same(got[at], want, "step of iteration %d" % i)
    for at, i, want, added in rests:
        if i in dead or got[at] == "refused" and added:
            continue
        if added:
            ensure(isinstance(got[at], list), "rest of iteration %d: %s", i, got[at])
            same([l for l in got[at] if l in want], want, "rest of iteration %d" % i)
            ensure(all(l in m.order for l in got[at]) and len(set(got[at])) == len(got[at]), "rest of iteration %d: %s, attached are %s", i, got[at], m.order)
        else:
            same(got[at], want, "rest of iteration %d" % i)
    same(got[-1], m.order, "nodes of the layer at the end")
    return core.h64((n, hist))


def gen_java_loops():
    for n in list(range(1, 6)) + list(range(15, 25)):
        for how in ("for", "forEach", "stream", "spanFor", "spanForEach", "nodespan"):
            for every in (1, 2, 3, 4):
                for phase in range(every):
                    for what in ("remove", "removeObject", "removeAll", "next", "first", "last", "remove+encode", "next+sort", "first+compact", "encode"):
                        yield n, how, every, phase, what


def run_java_loops(case):
    n, how, every, phase, what = case
    order, todo, given, plan = list(range(n)), list(range(n)), [], []
    while todo:
        l = todo.pop(0)
        at = len(given)
        given.append(l)
        ops = []
        if at % every == phase:
            for part in what.split("+"):
                if part in ("remove", "removeObject", "removeAll", "next", "first", "last"):
                    x = {"next": todo[:1], "first": order[:1], "last": order[-1:]}.get(part, [l])
                    x = [y for y in x if y in order]
                    if x:
                        ops.append([part if part.startswith("remove") else "remove", x])
                        order = [y for y in order if y not in x]
                        todo = [y for y in todo if y not in x]
                else:
                    ops.append([part])
                    if part == "sort":
                        order.sort(reverse=True)
        plan.append(ops)
    s = S()
    s.raw("loop", n, how, plan)
    got, end, left = java.good(s.run()[0])
    core.step(2 * len(given))
    same(end, None, "the loop")
    same(got, given, "nodes the loop visited")
    same(left, order, "nodes of the layer after the loop")
    return core.h64(case)


def main(rep):
    d = 5 if core.thorough() else 4
    rep.bounds = {"operations": d, "nodes": "4, and 20 (around automatic compaction)", "open iterations": 2}
    core.enumerate_cases(rep, "interrupted by encoding", gen_all_codecs, run_all_codecs, bound="6 nodes, every set of gaps, every place, 8 ways of reading the document")
    core.enumerate_cases(rep, "loops", gen_loops, run_loops, bound="layers of 1-6 and 15-25 nodes, edits at every node, every second, ... every fifth")
    core.enumerate_cases(rep, "interleavings", histories([("plain", 4), ("gap", 4)], SMALL, d), run, bound="4 nodes, every sequence of up to %d operations" % d)
    core.enumerate_cases(rep, "interleavings of long layers", histories([("plain", 20), ("gap", 20), ("plain", 17)], BIG, d), run,
                         bound="17 and 20 nodes, every sequence of up to %d operations" % d)
    if java.available(rep) and java.compile_java(rep):
        core.enumerate_cases(rep, "Java loops", gen_java_loops, run_java_loops, bound="Java layers of 1-5 and 15-24 nodes, 6 ways to visit, 10 edits, at every node to every fourth")
        core.enumerate_cases(rep, "Java interleavings", gen_java([4, 20], d), run_java, bound="4 and 20 nodes, every sequence of up to %d operations" % d)
