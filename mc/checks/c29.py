"""C29: Java layers hold exactly the nodes they were given, in order, through every sequence of edits."""
import itertools
from mc import core, java
from mc.core import ensure, same, Violation
from mc.java import S, ref, refs

LEVEL = "model_checking"
RULE = "breadth-first search over all sequences of edits of a Java layer (real classes, one script per history), states merged when model and real " \
       "private state are equal; layers of 0 to 40 nodes so that every compaction rule is crossed; oracle: a plain list of nodes"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS

VALUES = [2, 0, 1, 2, 0, 3, 1]


class State:
    """cfg = (number of nodes at the start, positions removed before the search starts)."""

    def __init__(self, cfg):
        n, gone = cfg
        self.s = S()
        self.expect = []   # (index, what, function checking the result)
        self.live, self.dead, self.made, self.hashes = [], [], 0, {}
        self.s.static("Layer", "builder", "a", to="lb")
        self.s.ops.append(["i32", "help", "int32"])
        self.s.call("lb", "addField", "k", ref("i32"))
        self.s.call("lb", "build", to="sch")
        self.s.new("doc", "Document")
        self.s.call("doc", "add", ref("sch"), to="layer")
        self.s.static("Layer", "builder", "other", to="lb2")
        self.s.call("lb2", "addField", "k", ref("i32"))
        self.s.call("lb2", "build", to="sch2")
        self.s.call("doc", "add", ref("sch2"), to="other")
        self.s.static("Node", "builder", ref("other"), to="fb")
        self.s.call("fb", "put", "k", 9)
        self.s.call("fb", "build", to="foreign")
        self.s.call("other", "add", ref("foreign"))
        self.s.new("doc2", "Document")
        for _ in range(n):
            self.add()
        for k in sorted(gone, reverse=True):
            self.apply(("remove", k))

    # -- the model

    def fresh(self):
        name = "n%d" % self.made
        self.s.static("Node", "builder", ref("layer"), to="b_" + name)
        self.s.call("b_" + name, "put", "k", VALUES[self.made % len(VALUES)])
        self.s.call("b_" + name, "build", to=name)
        self.made += 1
        self.want(self.s.call(name, "hashCode"), "hashCode of a node", lambda r: self.hashes.__setitem__(name, java.good(r, "hashCode of the new node " + name)))
        return name

    def want(self, index, what, fn):
        self.expect.append((index, what, fn))

    def accepted(self, index, what):
        self.want(index, what, lambda r: java.good(r, what))

    def returns(self, index, what, value):
        self.want(index, what, lambda r: same(java.good(r, what), value, what + " returned"))

    def refused(self, index, what):
        def check(r):
            ensure(isinstance(r, java.JavaError), "%s was accepted instead of refused", what)
        self.want(index, what, check)

    def add(self):
        name = self.fresh()
        self.returns(self.s.call("layer", "add", ref(name)), "add(%s)" % name, True)
        self.live.append(name)

    def drop(self, names):
        self.live = [n for n in self.live if n not in names]
        self.dead += [n for n in sorted(names) if n not in self.dead]

    def value(self, name):
        return VALUES[int(name[1:]) % len(VALUES)]

    def ops(self):
        n = len(self.live)
        few = list(range(n)) if n <= 4 else sorted({0, 1, n // 2, n - 2, n - 1})
        yield ("add",)
        yield ("addAll", 2)
        for k in few:
            yield ("remove", k)
        if n:
            yield ("removeObject", few[len(few) // 2])
            yield ("addlive", few[-1])
        if self.dead:
            yield ("readd", 0)
            yield ("readd", len(self.dead) - 1)
        yield ("removeForeign",)
        yield ("compact",)
        yield ("sort",)
        yield ("clear",)
        yield ("removeFieldAndBack",)
        if n <= 3:
            subsets = [c for r in range(n + 1) for c in itertools.combinations(range(n), r)]
        else:
            subsets = [(), (0,), (n - 1,), tuple(range(n)), tuple(range(0, n, 2)), tuple(range(1, n)), tuple(range(n - 1)), tuple(range(n // 2))]
        for sub in subsets:
            yield ("removeAll", sub)
            yield ("retainAll", sub)
        if n:
            yield ("retainForeign", (0,))
            yield ("removeAllForeign", (0,))

    def apply(self, op):
        core.step()
        kind = op[0]
        s = self.s
        if kind == "add":
            self.add()
        elif kind == "addAll":
            names = [self.fresh() for _ in range(op[1])]
            self.accepted(s.call("layer", "addAll", refs(names)), "addAll(%s)" % names)
            self.live += names
        elif kind == "remove":
            name = self.live[op[1]]
            self.want(s.call("layer", "remove", ref(name)), "remove(%s)" % name,
                      lambda r: same(java.good(r), {"$": name}, "remove(%s) returned" % name))
            self.drop({name})
        elif kind == "removeObject":
            name = self.live[op[1]]
            self.returns(s.help("removeObject", ref("layer"), ref(name)), "remove((Object)%s)" % name, True)
            self.drop({name})
        elif kind == "addlive":
            self.refused(s.call("layer", "add", ref(self.live[op[1]])), "adding the attached node %s again" % self.live[op[1]])
        elif kind == "readd":
            name = self.dead.pop(op[1])
            self.returns(s.call("layer", "add", ref(name)), "add(removed %s)" % name, True)
            self.live.append(name)
        elif kind == "removeForeign":
            self.refused(s.call("layer", "remove", ref("foreign")), "removing a node of another layer")
            self.returns(s.help("removeObject", ref("layer"), ref("foreign")), "remove((Object)foreign)", False)
            if self.dead:
                self.returns(s.help("removeObject", ref("layer"), ref(self.dead[0])), "remove((Object)removed node)", False)
        elif kind == "compact":
            self.accepted(s.call("layer", "compact"), "compact()")
        elif kind == "sort":
            self.accepted(s.call("layer", "sort", {"by": "k"}), "sort")
            self.live.sort(key=self.value)
        elif kind == "clear":
            self.accepted(s.call("layer", "clear"), "clear()")
            self.drop(set(self.live))
        elif kind == "removeFieldAndBack":
            self.accepted(s.call("layer", "addField", "x", ref("i32")), "addField")
            for n in self.live[:1]:
                self.accepted(s.call(n, "put", "x", 5), "put")
            self.accepted(s.call("layer", "removeField", "x"), "removeField")
            for n in self.live[:1]:
                self.returns(s.call(n, "has", "x"), "has(x) after removing the field", False)
        elif kind in ("removeAll", "retainAll"):
            names = [self.live[k] for k in op[1]]
            gone = set(names) if kind == "removeAll" else set(self.live) - set(names)
            self.returns(s.call("layer", kind, refs(names)), "%s(%s)" % (kind, names), bool(gone))
            self.drop(gone)
        elif kind == "removeAllForeign":
            names = [self.live[k] for k in op[1]]
            self.returns(s.call("layer", "removeAll", refs(["foreign"] + names)), "removeAll(foreign and %s)" % names, True)
            self.drop(set(names))
        elif kind == "retainForeign":
            # refusing is documented by the code; whatever happens, nothing may be damaged
            names = [self.live[k] for k in op[1]]
            i = s.call("layer", "retainAll", refs(names + ["foreign"]))
            self.refused(i, "retainAll with a node of another layer")
        else:
            raise ValueError(op)

    def script(self, tail):
        ops = self.s.ops + tail
        res = java.script(ops)
        for i, what, fn in self.expect:
            fn(res[i])
        return res[len(self.s.ops):]

    def key(self):
        d = self.script([[None, "help", "digest", refs(["layer"] + self.dead)]])[0]
        return (len(self.live), tuple(self.value(n) for n in self.live), len(self.dead), java.good(d))

    def observe(self):
        s = S()
        live, dead = list(self.live), list(self.dead)
        s.help("layer", ref("layer"))
        for n in live:
            s.call(n, "getInt", "k")
            s.call(n, "id")
        for n in dead:
            s.call(n, "isValid")
            s.call(n, "layer")
            s.call("layer", "contains", ref(n))
            s.call(n, "getInt", "k")
        equal = []
        some = sorted({0, 1, len(live) // 2, len(live) - 1} & set(range(len(live))))
        some = [live[i] for i in some] + dead[:2] + dead[-1:] + ["foreign"]
        for a in some:
            for b in some:
                equal.append((a, b, s.call(a, "equals", ref(b)), s.call(a, "hashCode")))
        spans = []
        n = len(live)
        ends = range(n) if n <= 5 else sorted({0, 1, n // 2, n - 2, n - 1})
        for i in ends:
            for j in ends:
                spans.append((i, j, s.call("layer", "nodespan", ref(live[i]), ref(live[j]))))
        s.help("layer", ref("other"))
        res = self.script(s.ops)
        got = java.good(res[0])
        order = [{"$": n} for n in live]
        same(got["size"], n, "size()")
        same(got["empty"], n == 0, "isEmpty()")
        for way in ("stream", "typed", "iterator", "forEach", "array"):
            same(got[way], order, "nodes by " + way)
        same(got["first"], order[0] if n else None, "first()")
        same(got["last"], order[-1] if n else None, "last()")
        same(got["facts"], [True] * n, "nodes know their layer")
        ids = got["ids"]
        ensure(all(a < b for a, b in zip(ids, ids[1:])) and (not ids or ids[0] >= 0), "ids are not increasing: %s", ids)
        k = 1
        for name, i in zip(live, ids):
            same(java.good(res[k]), self.value(name), "value of " + name)
            k += 2
        for name in dead:
            same([java.good(r) for r in res[k:k + 4]], [False, None, False, self.value(name)], "removed node %s (valid, layer, contained, value)" % name)
            k += 4
        for i, j, at in spans:
            if i <= j:
                same(java.good(res[at]), order[i:j + 1], "nodespan from %d to %d" % (i, j))
            else:
                ensure(isinstance(res[at], java.JavaError), "nodespan from %d back to %d was accepted: %s", i, j, res[at])
        for a, b, i, j in equal:
            same(java.good(res[i], "%s.equals(%s)" % (a, b)), a == b, "%s.equals(%s)" % (a, b))
            if a != "foreign":
                same(java.good(res[j], "hashCode of " + a), self.hashes[a], "hashCode of %s (at first, and now)" % a)
        same(java.good(res[-1])["size"], 1, "size of the other layer")
        # by id
        gets = java.good_all(self.script([[None, "call", ref("layer"), "get", i] for i in ids]))
        same(gets, order, "get(id) of every node")


def configs():
    t = core.thorough()
    yield (0, ())
    yield (1, ())
    yield (3, ())
    yield (3, (0,))
    yield (3, (1,))
    yield (3, (2,))
    big = (15, 16, 17, 18, 20, 24, 33, 40) if t else (16, 17, 18, 24)
    for n in big:
        yield (n, ())
        k = n - int(0.75 * n)
        # around the point where removals make the layer compact itself
        for m in (k - 1, k):
            yield (n, tuple(range(m)))
            yield (n, tuple(range(n - m, n)))
            yield (n, tuple(range(1, 2 * m, 2)))


def main(rep):
    if not java.available(rep) or not java.compile_java(rep):
        return
    t = core.thorough()
    small = [c for c in configs() if c[0] < 10]
    large = [c for c in configs() if c[0] >= 10]
    core.search(rep, "small layers", State, small, 5 if t else 4, bound="all sequences of up to %d edits of layers of 0 to 3 nodes" % (5 if t else 4))
    core.search(rep, "compacting layers", State, large, 3 if t else 2, bound="all sequences of up to %d edits around every compaction rule" % (3 if t else 2))
