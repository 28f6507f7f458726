"""C23: node lists behave as lists and expose the fields of their nodes."""
import itertools
from mc import core
from mc.core import same, identical, ensure, refused

LEVEL = "exploration"
RULE = "all lists up to a length over nodes of layers with agreeing and conflicting field types and unattached nodes, in every order, with " \
       "all indices, slices and index lists, against plain lists and the order-free merge rule; distinct_nontrivial counts distinct lists"
DEADLINE = {"quick": 240, "thorough": 820}

WIDTH = ["bool", "i32", "i64", "f64"]


def world():
    """name -> (node, {field: type class it contributes}, {field: value})."""
    from docria.model import Document, DataTypes as T, Node, NodeSpan, ExtData
    doc = Document()
    doc.maintext = "abcdef"
    doc2 = Document()
    doc2.maintext = "abcdef"
    A = doc.add_layer("A", x=T.int32(None), y=T.string(None))
    B = doc.add_layer("B", x=T.int64(None), z=T.span("main"))
    C = doc.add_layer("C", x=T.float64(None), r=T.noderef("A"))
    D = doc.add_layer("D", x=T.bool(None), m=T.noderef_many("A"), p=T.nodespan("A"))
    S = doc.add_layer("S", x=T.string(None))
    R = doc.add_layer("R", x=T.noderef("A"), y=T.string("dflt"))
    E = doc.add_layer("E")
    A2 = doc2.add_layer("A", x=T.int32(5), b=T.binary)
    out = {}

    def put(name, node, **types):
        out[name] = (node, types)
        return node
    a = put("a", A.add(x=1), x="i32", y="str")
    put("a2", A.add(x=2, y="t"), x="i32", y="str")
    put("b", B.add(x=1 << 40, z=doc.maintext[0:2]), x="i64", z="span")
    put("c", C.add(x=1.5, r=a), x="f64", r="noderef")
    put("d", D.add(x=True, m=[a], p=NodeSpan(a, a)), x="bool", m="noderef_array", p="nodespan")
    put("s", S.add(x="s"), x="str")
    put("r", R.add(x=a), x="noderef", y="str")
    put("e", E.add())
    put("A", A2.add(x=9, b=b"q"), x="i32", b="bin")
    put("fi", Node(x=3), x="i64")
    put("ff", Node(x=0.5, y="u"), x="f64", y="str")
    put("fs", Node(x="v"), x="str")
    put("fb", Node(x=False), x="bool")
    put("fr", Node(x=a), x="noderef")
    put("fz", Node(z=doc.maintext[1:3], b=b"w"), z="span", b="bin")
    put("fe", Node())
    put("fy", Node(y=4), y="i64")
    put("fx", Node(e=ExtData(3, b"e"), m=[a], p=NodeSpan(a, a)), e="ext", m="noderef_array", p="nodespan")
    return out


def merged(types):
    """Type classes of one field -> the merged class, None if they do not fit together."""
    types = set(types)
    if len(types) == 1:
        return next(iter(types))
    if types <= set(WIDTH):
        return max(types, key=WIDTH.index)
    return None


WORLD = {}


def setup():
    if not WORLD:
        from docria.model import DataTypeEnum as E
        WORLD["nodes"] = world()
        WORLD["enum"] = {"bool": E.BOOL, "i32": E.I32, "i64": E.I64, "f64": E.F64, "str": E.STRING, "bin": E.BINARY, "noderef": E.NODEREF,
                         "noderef_array": E.NODEREF_MANY, "span": E.SPAN, "ext": E.EXT, "nodespan": E.NODEREF_SPAN}
    return WORLD["nodes"], WORLD["enum"]


NAMES = ["a", "a2", "b", "c", "d", "s", "r", "e", "A", "fi", "ff", "fs", "fb", "fr", "fz", "fe", "fy", "fx"]


def gen_merge():
    n = 6 if core.thorough() else 5
    for k in range(n + 1):
        names = NAMES if k < 5 else [x for x in NAMES if x not in ("a2", "e", "fe", "fx", "fy", "fz")]
        yield from itertools.product(names, repeat=k)


def judge(L, case, nodes, enum, what):
    """L holds exactly the nodes of `case` and exposes at least their fields with the merged types."""
    want = [nodes[x][0] for x in case]
    identical(L, want, what)
    same(len(L), len(want), what + ": length")
    fields = {}
    for x in case:
        for f, t in nodes[x][1].items():
            fields.setdefault(f, []).append(t)
    for f, ts in fields.items():
        ensure(f in L.fieldtypes, "%s: field %s is not exposed (%s)", what, f, sorted(L.fieldtypes))
        ensure(f in list(L.fieldtypes.keys()) and hasattr(L[f], "__iter__"), "%s: no column of %s", what, f)
        same(list(map(id, L[f])), [id(n.get(f)) for n in want], "%s: column %s" % (what, f))
        same(len(L[f]), len(want), "%s: length of column %s" % (what, f))
    return fields


def run_merge(case):
    from docria.model import NodeList, NodeCollection
    nodes, enum = setup()
    fields = {}
    for x in case:
        for f, t in nodes[x][1].items():
            fields.setdefault(f, set()).add(t)
    want = {f: merged(ts) for f, ts in fields.items()}
    arg = [nodes[x][0] for x in case]
    what = "NodeList of %s" % (list(case),)
    if None in want.values():
        refused(lambda: NodeList(arg), what + " with fields %s" % {f: sorted(t) for f, t in fields.items()})
        return case
    L = NodeList(arg)
    judge(L, case, nodes, enum, what)
    same({f: t.typename for f, t in L.fieldtypes.items()}, {f: enum[t] for f, t in want.items()}, what + ": field types")
    for f in want:
        ensure(L[f].dtype.typename is enum[want[f]], "%s: type of column %s", what, f)
    # a declared type wins over no information: its options come from one of the layers that declare it
    for f, t in L.fieldtypes.items():
        if want[f] in ("noderef", "nodespan", "noderef_array"):
            ensure(t.options.get("layer") == "A", "%s: field %s does not refer to layer A", what, f)
    ensure(L.first() is (arg[0] if arg else None) and L.last() is (arg[-1] if arg else None), "%s: first or last", what)
    refused(lambda: L["nothing"], what + ": column of an unknown field")
    if len(case) < 3:
        L2 = NodeList(iter(arg))
        identical(L2, arg, what + " from an iterator")
        same({f: t.typename for f, t in L2.fieldtypes.items()}, {f: enum[t] for f, t in want.items()}, what + " from an iterator: field types")
        L3 = NodeList(L)
        identical(L3, arg, what + " from a node list")
        identical(L.to_list(), arg, what + ": to_list()")
    return case


def gen_index():
    pools = [("a", "a2", "b", "fi"), ("c", "fe", "d", "e"), ("s", "fs", "A")]
    n = 5 if core.thorough() else 4
    for pool in pools:
        for k in range(n + 1):
            names = pool if pool[0] != "s" else ("s", "fs")
            yield from itertools.product(names, repeat=k)
    for k in range(n + 1, n + 3):
        yield tuple(["a", "b", "fi", "a2", "c", "d", "A"][:k])


def keeps(sub, L, what):
    """A part of a list has the fields of the list, also where none of the nodes that have them is left."""
    same({f: (t.typename, dict(t.options)) for f, t in sub.fieldtypes.items()}, {f: (t.typename, dict(t.options)) for f, t in L.fieldtypes.items()},
         what + ": field types")
    for f in L.fieldtypes:
        same(len(list(sub[f])), len(sub), "%s: column %s" % (what, f))


def run_index(case):
    from docria.model import NodeList
    nodes, enum = setup()
    arg = [nodes[x][0] for x in case]
    L = NodeList(arg)
    n = len(case)
    what = "NodeList of %s" % (list(case),)
    bounds = [None] + list(range(-n - 2, n + 3))
    for i in range(-n - 2, n + 2):
        core.step()
        if -n <= i < n:
            ensure(L[i] is arg[i], "%s: element %d", what, i)
        else:
            refused(lambda: L[i], "%s: element %d" % (what, i))
    for a in bounds:
        for b in bounds:
            for s in (None, 1, 2, -1, -2) if abs(hash((a, b))) % 2 == 0 or n < 4 else (None, -1, 3):
                core.step()
                sub = L[a:b:s]
                ensure(isinstance(sub, NodeList), "%s: slice is a %s", what, type(sub).__name__)
                judge(sub, case[a:b:s], nodes, enum, "%s sliced [%s:%s:%s]" % (what, a, b, s))
                keeps(sub, L, "%s sliced [%s:%s:%s]" % (what, a, b, s))
    refused(lambda: L[::0], what + ": step 0")
    picks = list(range(-n, n))
    for k in range(4):
        for pick in itertools.product(picks, repeat=k):
            core.step()
            sub = L[list(pick)]
            ensure(isinstance(sub, NodeList), "%s: index list gave a %s", what, type(sub).__name__)
            judge(sub, tuple(case[i] for i in pick), nodes, enum, "%s picked %s" % (what, list(pick)))
            keeps(sub, L, "%s picked %s" % (what, list(pick)))
        if n > 3 and k == 2 and not core.thorough():
            break
    for bad in ([n], [-n - 1], [0, n], [n, 0]):
        refused(lambda: L[bad], "%s: index list %s" % (what, bad))
    # list behaviour
    identical(reversed(L), arg[::-1], what + " reversed")
    for x in NAMES:
        node = nodes[x][0]
        same(node in L, any(node is y for y in arg), "%s: membership of %s" % (what, x))
        same(L.count(node), sum(node is y for y in arg), "%s: count of %s" % (what, x))
        if x in case:
            same(L.index(node), case.index(x), "%s: index of %s" % (what, x))
    ensure((L == arg) and (L == NodeList(arg)) and bool(L) == bool(arg), "%s: equality or truth value", what)
    M = NodeList(arg)
    M.append(nodes["a"][0])
    M.extend(arg)
    if M:
        M.pop(0)
    plain = arg + [nodes["a"][0]] + arg
    identical(M, plain[1:], what + " after append, extend and pop")
    ensure(M.first() is (plain[1:] or [None])[0] and M.last() is (plain[1:] or [None])[-1], "%s: first or last after changes", what)
    M.sort(key=lambda x: -id(x))
    identical(M, sorted(plain[1:], key=lambda x: -id(x)), what + " sorted")
    return case


def gen_refuse():
    for k in range(1, 5):
        for pos in range(k):
            for bad in range(10):
                for form in ("list", "tuple", "iter", "typed"):
                    yield k, pos, bad, form


def run_refuse(case):
    from docria.model import NodeList, DataTypes, Document
    nodes, enum = setup()
    k, pos, bad, form = case
    doc = Document()
    doc.maintext = "abc"
    arg = [nodes[x][0] for x in ("a", "fi", "b", "fe")][:k]
    arg[pos] = [None, 1, "x", {"x": 1}, {}, doc, doc.maintext[0:1], ["n"], object(), nodes["a"][0].collection][bad]
    if form == "typed":
        refused(lambda: NodeList(arg, fieldtypes={"x": DataTypes.int32()}), "NodeList with a non-node %r at %d" % (arg[pos], pos))
    else:
        refused(lambda: NodeList({"list": list, "tuple": tuple, "iter": iter}[form](arg)), "NodeList with a non-node %r at %d" % (arg[pos], pos))
    return case


def gen_sources():
    for n in range(0, 5):
        for gone in range(1 << n):
            yield n, gone


def run_sources(case):
    """Lists made from layers (slices, to_list), queries and node spans, with gaps in the layer."""
    from docria.model import NodeList, Document, DataTypes as T, NodeSpan
    n, gone = case
    doc = Document()
    L = doc.add_layer("L", x=T.int32(None), s=T.string("k"))
    for i in range(n):
        L.add(x=i)
    for i, node in enumerate(list(L)):
        if gone >> i & 1:
            L.remove(node)
    want = list(L)
    same([m["x"] for m in want], [i for i in range(n) if not gone >> i & 1], "layer")
    made = [("NodeList(layer)", NodeList(L)), ("to_list", L.to_list()), ("slice", L[:]), ("query list", L[lambda m: True].to_list()),
            ("NodeList(query)", NodeList(L[L["x"] >= 0])), ("list of list", L.to_list().to_list()), ("index list", L.to_list()[list(range(len(want)))])]
    if want:
        made += [("span list", NodeSpan(want[0], want[-1]).to_list()), ("NodeList(span)", NodeList(NodeSpan(want[0], want[-1])))]
    for what, M in made:
        ensure(isinstance(M, NodeList), "%s is a %s", what, type(M).__name__)
        identical(M, want, what)
        same({f: t.typename for f, t in M.fieldtypes.items()} if want or "NodeList(" not in what else None,
             {f: t.typename for f, t in L.fieldtypes.items()} if want or "NodeList(" not in what else None, what + ": field types")
        if want:
            same(list(M["x"]), [m["x"] for m in want], what + ": column")
            same(M["s"].to_list(), ["k"] * len(want), what + ": column")
    return case


def gen_scale():
    for n in (7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000):
        for main, odd in (("a", "b"), ("a", "c"), ("b", "fi"), ("fe", "a"), ("e", "d"), ("a", "s"), ("fx", "A")):
            for pos in sorted({0, 1, n // 2, n - 2, n - 1}):
                yield n, main, odd, pos


def run_scale(case):
    """Long lists with one node of another kind somewhere."""
    from docria.model import NodeList
    nodes, enum = setup()
    n, main, odd, pos = case
    names = [main] * pos + [odd] + [main] * (n - pos - 1)
    arg = [nodes[x][0] for x in names]
    fields = {}
    for x in (main, odd):
        for f, t in nodes[x][1].items():
            fields.setdefault(f, set()).add(t)
    want = {f: merged(ts) for f, ts in fields.items()}
    if None in want.values():
        refused(lambda: NodeList(arg), "NodeList of %d %s and a %s at %d" % (n, main, odd, pos))
        return case
    L = NodeList(arg)
    what = "NodeList of %d %s and a %s at %d" % (n, main, odd, pos)
    judge(L, names, nodes, enum, what)
    same({f: t.typename for f, t in L.fieldtypes.items()}, {f: enum[t] for f, t in want.items()}, what + ": field types")
    for part in (slice(pos + 1, None), slice(None, None, -1), slice(n // 2), slice(None, None, 7)):
        judge(L[part], names[part], nodes, enum, what + ": slice")
        keeps(L[part], L, what + ": slice")
    for pick in ([n - 1, 0, pos], list(range(n))[::-1], [-1, -n]):
        judge(L[pick], [names[i] for i in pick], nodes, enum, what + ": index list")
        keeps(L[pick], L, what + ": index list")
    refused(lambda: NodeList(arg[:pos] + [None] + arg[pos:]), what + ": with a non-node")
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "merging", gen_merge, run_merge, bound="all lists of up to %d nodes out of 18 (12 beyond length 4)" % (6 if t else 5))
    core.enumerate_cases(rep, "indexing", gen_index, run_index, bound="all lists of up to %d nodes of 3 families x all indices, slices, index lists" % (5 if t else 4))
    core.enumerate_cases(rep, "non-nodes", gen_refuse, run_refuse, bound="lists of up to 4 x every position x 10 non-nodes")
    core.enumerate_cases(rep, "sources", gen_sources, run_sources, bound="layers of up to 4 nodes with every set of gaps")
    core.enumerate_cases(rep, "scale", gen_scale, run_scale, bound="lists of 7 to 1000 nodes with one of another kind at 5 places")
