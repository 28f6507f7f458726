"""C02: refused layer operations do no damage, wherever they occur in a history."""
from mc import core
from mc.layers import LayerSystem

LEVEL = "model_checking"
RULE = "all sequences mixing refused and accepted operations, merged when model and real object graph coincide; " \
       "after every refusal the layer is compared node by node with the list model"
DEADLINE = {"quick": 240, "thorough": 800}

ALWAYS = ["add-foreign", "add-fresh-foreign", "add-nonnode", "add-fresh-nonnode", "add-badvalue", "add-badref",
          "add-detachedref", "add-range", "many-foreign", "many-twice", "many-nonnode", "many-badvalue",
          "many-badvalue-iter", "many-notiterable", "remove-foreign", "remove-fresh", "remove-notiterable",
          "retain-foreign", "retain-notiterable", "index-foreign", "left-foreign", "right-foreign",
          "field-duplicate", "field-notype", "layer-referred", "add-twin", "many-twin",
          "remove-twin", "remove-twins", "del-twin", "retain-twin", "index-twin", "left-twin", "right-twin"]
WITH_NODE = ["remove-copy", "retain-copy", "index-copy", "left-copy", "add-attached", "add-attached-last", "many-attached", "remove-mixed", "remove-mixed-first",
             "remove-twice", "remove-nonnode", "retain-mixed", "retain-nonnode", "sort-fails", "span-foreign",
             "encode-badvalue", "encode-extra", "encode-foreignref", "encode-twinref", "retain-twin-mixed",
             "remove-twin-mixed", "span-twin", "span-twin-left", "iter_span-twin"]
WITH_TWO = ["sort-incomparable", "span-reversed"]
WITH_DETACHED = ["remove-detached", "retain-detached"]


class Refusals(LayerSystem):
    reduced = False

    def invalid_inside(self):
        """A refused add_many leaves the named nodes, with their bad values, in the layer."""
        return any(not isinstance(self.fields[l].get("v", 0), int) for l in self.order)

    def ops(self):
        n = len(self.order)
        kinds = list(ALWAYS)
        if n:
            kinds += WITH_NODE
        if n > 1:
            kinds += WITH_TWO
        if self.detached():
            kinds += WITH_DETACHED
        if self.reduced:
            kinds = [k for k in kinds if k in ("add-attached", "many-attached", "many-badvalue", "remove-mixed",
                                               "remove-nonnode", "retain-foreign", "retain-mixed", "sort-incomparable",
                                               "encode-badvalue", "add-fresh-nonnode", "remove-detached",
                                               "remove-twin", "retain-twin-mixed")]
        out = [("refuse", k) for k in kinds]
        out += [("add_kw", 1), ("compact",)]
        if n:
            out += [("remove", "first", "one"), ("remove_set", "evens", "list"), ("retain", "tail", "list")]
        if not self.invalid_inside():
            out += [("sort", "-v"), ("encode", "msgpack")]
        return out


class Deep(Refusals):
    reduced = True


def gen_large():
    for n in (1023, 1025, 4097, 65537):
        for bad in (0, 1, n // 2, n - 1):
            for kind in ("value", "attached", "object", "reference"):
                yield n, bad, kind


def run_large(case):
    """One bad node among many that are added at once or removed together."""
    from docria.model import Document, DataTypes as T, Node
    n, bad, kind = case
    doc = Document()
    layer = doc.add_layer("l", k=T.int32(None), r=T.noderef("l"))
    before = [layer.add(k=i) for i in range(4)]
    many = [Node(k=10 + i) for i in range(n)]
    if kind == "value":
        many[bad]["k"] = "x"
    elif kind == "reference":
        many[bad]["r"] = Node(k=1)
    elif kind == "attached":
        many[bad] = before[2]
    else:
        many[bad] = 5

    def refused(what, f):
        core.step()
        try:
            f()
        except Exception:
            return
        raise core.Violation("%s was accepted, with a bad %s at %d of %d" % (what, kind, bad, n))
    refused("add_many", lambda: layer.add_many(many))
    there = list(layer)
    core.ensure(len(there) == len(layer) and all(a is b for a, b in zip(there, before)), "after a refused add_many: the nodes before it")
    for x in there:
        if x.collection is not layer or layer[x.i] is not x:
            raise core.Violation("after a refused add_many, node %r is not at its index" % x)
    for x in there[4:]:
        core.ensure(any(x is y for y in (many[max(0, x["k"] - 10 - 1):x["k"] - 10 + 2] if isinstance(x["k"], int) else [many[bad]])), "after a refused add_many, another node is in the layer")
    layer.retain(before)
    core.same([x.i for x in layer], [0, 1, 2, 3], "later operations")
    good = [Node(k=i) for i in range(n)]
    layer.add_many(good)
    named = good[1:]
    named[min(bad, n - 2)] = Node(k=1) if kind != "object" else 5
    refused("remove", lambda: layer.remove(named))
    core.ensure(layer[good[0].i] is good[0] and good[0] in layer and list(layer)[:5] == before + good[:1], "after a refused removal: nodes it did not name")
    left = sum(1 for x in good if x.collection is layer)
    core.same(len(layer), 4 + left, "length after a refused removal")
    core.same(sum(1 for x in layer), 4 + left, "nodes after a refused removal")
    return case


def main(rep):
    t = core.thorough()
    core.search(rep, "all-refusals", Refusals, [("many", 0), ("many", 3), ("gap", 5, (0, 2)), ("decoded", 3),
                                               ("gap", 19, (4,))],
                3, bound="57 refused and 7 accepted operations")
    core.search(rep, "deep", Deep, [("many", 3), ("gap", 4, (0, 3))], 6 if t else 5, bound="13 refused and 7 accepted operations")
    core.search(rep, "threshold", Deep, [("many", 17), ("gap", 22, (0, 1, 2, 3, 21))], 5 if t else 4,
                bound="13 refused and 7 accepted operations around the compaction threshold")
    core.enumerate_cases(rep, "large", gen_large, run_large, bound="1023 to 65537 nodes added or removed at once, one of them bad")
