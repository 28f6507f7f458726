"""C01: every edit history of a layer, against a list model."""
import itertools
from mc import core
from mc.layers import LayerSystem

LEVEL = "model_checking"
RULE = "all operation sequences from the start layers, merged when model and real object graph coincide; every " \
       "transition is executed on a fresh real document and compared with the list model"
DEADLINE = {"quick": 240, "thorough": 800}


def sized(s):
    return len(s.order)


class Full(LayerSystem):
    def ops(self):
        n = len(self.order)
        out = [("add_kw", 1), ("add_node", 2), ("add_nodes",), ("add_many", 3, "list"), ("add_many", 2, "iter"),
               ("add_many", 1, "nofill"), ("add_many", 2, "novalidate"), ("compact",),
               ("sort", "v"), ("sort", "-v"), ("encode", "msgpack"), ("encode", "json"), ("encode", "pickle"),
               ("encode", "copy"), ("retain", "none", "list"), ("replace", "decode"), ("replace", "pickle")]
        if self.detached():
            out += [("readd", "add"), ("readd", "many")]
        if n:
            out += [("remove", "first", "one"), ("remove", "last", "detach"), ("remove", "mid", "del"),
                    ("remove_set", "all", "list"), ("remove_set", "evens", "iter"), ("remove_set", "odds", "live"),
                    ("remove_set", "head", "nones"), ("remove_set", "tail", "query"),
                    ("retain", "all", "iter"), ("retain", "evens", "dup"), ("retain", "tail", "rev"),
                    ("retain", "first", "set"), ("set", "mid", 9), ("set", "first", 8)]
        return out


class Core(LayerSystem):
    """Few operations, deep: gaps, compaction, renumbering and sorting in every order."""

    def ops(self):
        n = len(self.order)
        out = [("add_kw", 1), ("compact",), ("sort", "v"), ("encode", "msgpack")]
        if n:
            out += [("remove", "first", "one"), ("remove", "last", "one"), ("remove", "mid", "one"),
                    ("remove_set", "evens", "list"), ("retain", "tail", "list"), ("retain", "evens", "list")]
        return out


def ladder():
    """Sizes around the compaction threshold and chunk limits, every amount removed in several ways."""
    top = 44 if core.thorough() else 26
    sizes = list(range(0, top)) + [63, 64, 65, 100, 127, 128, 129, 256, 257]
    for n in sizes:
        ks = range(n + 1) if n < top else sorted({0, 1, n // 5, n // 4, n // 4 + 1, n // 2, n - 17, n - 16, n - 1, n})
        for k in ks:
            for how in ("prefix", "suffix", "stride", "middle"):
                for form in ("one", "list"):
                    for then in (("add_kw", 1), ("sort", "v"), ("retain", "evens", "list"), ("encode", "msgpack"),
                                 ("remove_set", "third", "list")):
                        yield n, k, how, form, then


def run_ladder(case):
    n, k, how, form, then = case
    s = Full(("many", n))
    o = s.order
    sel = {"prefix": o[:k], "suffix": o[n - k:], "middle": o[(n - k) // 2:(n - k) // 2 + k],
           "stride": [o[(i * n) // k] for i in range(k)] if k else []}[how]
    s.do_remove(sel, form)
    s.observe()
    s.apply(then)
    s.observe()
    s.apply(("add_many", 2, "list"))
    if len(s.order) > 2:
        s.apply(("remove", "mid", "one"))
    s.observe()
    s.apply(("encode", "msgpack"))
    s.observe()
    return (n, k, how, len(s.order))


def gen_large():
    for n in (1023, 1025, 4095, 4097, 65535, 65537):
        for gone in ("first", "some", "most"):
            yield n, gone


def run_large(case):
    """Large layers: added at once and one by one, removed from, compacted, sorted with equal keys, encoded, retained."""
    from docria.codec import MsgpackCodec
    from docria.model import Document, DataTypes as T, Node
    n, gone = case
    doc = Document()
    layer = doc.add_layer("l", k=T.int32(None), d=T.int32(5))
    many = [Node(k=i) for i in range(n - 3)]
    layer.add_many(many)
    order = many + [layer.add(k=i) for i in range(n - 3, n)]

    def look(what):
        core.step()
        core.same(len(layer), len(order), what + ": length")
        for name, got, want in (("iteration", layer, order), ("iteration from the end", reversed(layer), reversed(order))):
            for i, (a, b) in enumerate(itertools.zip_longest(got, want)):
                if a is not b:
                    raise core.Violation("%s: place %d of the %s is %r instead of %r" % (what, i, name, a, b))
        core.ensure(layer.first() is order[0] and layer.last() is order[-1], "%s: first and last node", what)
        before = -1
        for i, x in enumerate(order):
            if x.i <= before or x.collection is not layer or x.get("k") is None or x.get("d") != 5:
                raise core.Violation("%s: node %d has index %s after %d, and holds %s" % (what, i, x.i, before, dict(x.items())))
            before = x.i
        for i in [0, 1, 2, 255, 256, 257, 1022, 1023, 1024, 4094, 4095, 4096, len(order) // 2, len(order) - 2, len(order) - 1]:
            if i < len(order):
                x = order[i]
                core.ensure(layer[x.i] is x and x in layer, "%s: node %d at its own index", what, i)
                core.ensure(layer.left(x) is (order[i - 1] if i else None) and layer.right(x) is (order[i + 1] if i + 1 < len(order) else None), "%s: neighbours of node %d", what, i)
    look("as added")
    out = [order[0]] if gone == "first" else order[5::max(2, n // 50)] if gone == "some" else order[:10] + order[12:n - n // 4]
    for x in out[:4]:
        layer.remove(x)
    layer.remove(out[4:])
    dropped = set(map(id, out))
    order = [x for x in order if id(x) not in dropped]
    look("after removing")
    for x in out:
        core.ensure(x.collection is None, "a removed node is still attached")
    order.append(layer.add(k=-1))
    look("after adding")
    layer.compact()
    core.same([x.i for x in order], list(range(len(order))), "indices after compacting")
    look("after compacting")
    layer.sort(lambda x: x["k"] % 7)
    order.sort(key=lambda x: x["k"] % 7)
    look("after sorting by a key that many share")
    back = MsgpackCodec.decode(MsgpackCodec.encode(doc))["l"]
    core.same([x["k"] for x in back], [x["k"] for x in order], "read back")
    order = order[1::2]
    layer.retain(order)
    look("after retaining")
    return case


def main(rep):
    t = core.thorough()
    cfgs = [("many", 0), ("one", 3), ("gap", 4, (1, 2)), ("decoded", 3)]
    core.search(rep, "all-operations", Full, cfgs, 4 if t else 3, bound="31 operations")
    core.search(rep, "deep", Core, [("many", 3), ("gap", 6, (0, 5))], 8 if t else 6, bound="10 operations")
    core.search(rep, "threshold", Core, [("many", 17), ("many", 20), ("gap", 22, (3, 4, 21)), ("decoded", 18)],
                6 if t else 4, bound="10 operations around the compaction threshold")
    core.enumerate_cases(rep, "ladder", ladder, run_ladder, bound="sizes to 257, every amount removed below 26/44")
    core.enumerate_cases(rep, "large", gen_large, run_large, bound="layers of 1023 to 65537 nodes, one, some or most removed")
