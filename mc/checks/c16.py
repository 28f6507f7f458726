"""C16: graph traversal visits every reachable node exactly once."""
import itertools
from mc import core
from mc.core import identical, same, ensure

LEVEL = "exploration"
RULE = "all directed graphs up to a number of nodes (every ordered adjacency list, repeated links, self links) x every start x every " \
       "filter, through single fields, array fields and several fields; reference: textbook recursive searches on integers; " \
       "distinct_nontrivial counts distinct graphs"
DEADLINE = {"quick": 300, "thorough": 820}


def graph(adj):
    """Nodes with their links in one array field `m`."""
    from docria.model import Document, DataTypes as T
    doc = Document()
    layer = doc.add_layer("g", m=T.noderef_many("g"), a=T.noderef("g"), b=T.noderef("g"), k=T.int32(None))
    nodes = [layer.add(k=i) for i in range(len(adj))]
    for i, links in enumerate(adj):
        if links is not None:
            nodes[i]["m"] = [nodes[j] for j in links]
    return layer, nodes


def ref_bfs(adj, start):
    dist, order, frontier = {start: 0}, [(0, start)], [start]
    while frontier:
        nxt = []
        for n in frontier:
            for c in adj[n] or ():
                if c not in dist:
                    dist[c] = dist[n] + 1
                    nxt.append(c)
                    order.append((dist[c], c))
        frontier = nxt
    return order


def ref_dfs(adj, start):
    seen, order = set(), []

    def go(n):
        if n in seen:
            return
        seen.add(n)
        order.append(n)
        for c in adj[n] or ():
            go(c)
    go(start)
    return order


def check(nodes, children, adj, what, filters=True):
    from docria.algorithm import bfs, dfs, dfs_leaves
    n = len(nodes)
    index = {id(x): i for i, x in enumerate(nodes)}
    for s in range(n):
        masks = [None] + (list(range(1 << n)) if filters and n <= 3 else [0b1010 & ((1 << n) - 1), 0b0110 & ((1 << n) - 1)])
        B, D = ref_bfs(adj, s), ref_dfs(adj, s)
        leaves = {x for x in D if not adj[x]}
        for mask in masks:
            ok = (lambda i: True) if mask is None else (lambda i: bool(mask >> i & 1))
            args = () if mask is None else ((lambda x: bool(mask >> index[id(x)] & 1)),)
            w = "%s from %d, filter %s" % (what, s, mask)
            got = [(d, index[id(x)]) for d, x in bfs(nodes[s], children, *args)]
            want = [(d, i) for d, i in B if ok(i)]
            same(sorted(got), sorted(want), "breadth first, " + w)
            same([d for d, _ in got], sorted(d for d, _ in want), "breadth first, order of distances, " + w)
            got = [index[id(x)] for x in dfs(nodes[s], children, *args)]
            same(got, [i for i in D if ok(i)], "depth first, " + w)
            got = [index[id(x)] for x in dfs_leaves(nodes[s], children, *args)]
            same(sorted(got), sorted(i for i in leaves if ok(i)), "leaves, " + w)


def subsets(n, r):
    for k in range(r + 1):
        yield from itertools.permutations(range(n), k)


def gen_arrays():
    t = core.thorough()
    for n in (1, 2):
        opts = [None] + [c for r in range(4 if n == 2 else 3) for c in itertools.product(range(n), repeat=r)]
        for adj in itertools.product(opts, repeat=n):
            yield adj
    opts = [None] + list(subsets(3, 3)) + [(0, 0), (1, 1, 2), (2, 0, 2)]
    for adj in itertools.product(opts, repeat=3):
        yield adj
    opts = [c for r in range(3 if not t else 4) for c in itertools.combinations(range(4), r)] + [(3, 0), (2, 1)]
    for adj in itertools.product(opts, repeat=4):
        yield adj
    if t:
        opts = [(), (0,), (1,), (2,), (3,), (4,), (4, 2), (1, 3), (0, 2, 4)]
        for adj in itertools.product(opts, repeat=5):
            yield adj


def run_arrays(adj):
    from docria.algorithm import children_of
    layer, nodes = graph(adj)
    children = children_of(layer, "m")
    for i, links in enumerate(adj):
        identical(list(children(nodes[i])), [nodes[j] for j in links or ()], "children of %d in %s" % (i, adj))
    check(nodes, children, adj, "array field, %s" % (adj,))
    return adj


FIELDS = [("a",), ("a", "b"), ("b", "a"), ("a", "m"), ("m", "a"), ("m", "b", "a"), ("a", "a")]


def gen_fields():
    t = core.thorough()
    for n in (1, 2) + ((3,) if t else ()):
        opts = [None] + list(range(n))
        arr = [None, (), (0,), (n - 1,), (n - 1, 0), (0, 0)]
        for a in itertools.product(opts, repeat=n):
            for b in itertools.product(opts, repeat=n):
                for m in itertools.product(arr[:5] if n == 3 else arr, repeat=n):
                    yield a, b, m
    if not t:
        for a in itertools.product([None, 0, 1, 2], repeat=3):
            for b in itertools.product([None, 0, 1, 2], repeat=3):
                yield a, b, (None, (1, 2), (0,))


def run_fields(case):
    """Several fields, in every order: the children are all targets of those fields of that node."""
    from docria.algorithm import children_of
    a, b, m = case
    layer, nodes = graph(m)
    for i in range(len(nodes)):
        if a[i] is not None:
            nodes[i]["a"] = nodes[a[i]]
        if b[i] is not None:
            nodes[i]["b"] = nodes[b[i]]
    for fields in FIELDS:
        adj = []
        for i in range(len(nodes)):
            out = []
            for f in fields:
                v = {"a": a, "b": b, "m": m}[f][i]
                out += [] if v is None else (list(v) if f == "m" else [v])
            adj.append(tuple(out))
        children = children_of(layer, *fields)
        for i in range(len(nodes)):
            for again in (1, 2):  # asking again gives the same
                identical(list(children(nodes[i])), [nodes[j] for j in adj[i]], "children of %d over %s in %s" % (i, fields, case))
        its = [iter(children(x)) for x in nodes]   # several at a time
        got = [[] for _ in nodes]
        for _ in range(7):
            for k, it in enumerate(its):
                x = next(it, None)
                if x is not None:
                    got[k].append(x)
        for k in range(len(nodes)):
            identical(got[k], [nodes[j] for j in adj[k]], "children of %d taken in turns over %s in %s" % (k, fields, case))
        check(nodes, children, adj, "fields %s, %s" % (fields, case), filters=False)
    return case


def gen_layers():
    """Graphs over two layers: nodes of one link to nodes of the other."""
    opts = [None, 0, 1]
    for x in itertools.product(opts, repeat=2):
        for y in itertools.product(opts, repeat=2):
            for z in itertools.product([None, (0,), (1, 0)], repeat=2):
                yield x, y, z


def run_layers(case):
    from docria.model import Document, DataTypes as T
    from docria.algorithm import children_of
    x, y, z = case
    doc = Document()
    p = doc.add_layer("p", to=T.noderef("q"), many=T.noderef_many("q"))
    q = doc.add_layer("q", to=T.noderef("p"), many=T.noderef_many("p"))
    P, Q = [p.add(), p.add()], [q.add(), q.add()]
    nodes = P + Q
    adj = [[], [], [], []]
    for i in range(2):
        if x[i] is not None:
            P[i]["to"] = Q[x[i]]
            adj[i].append(2 + x[i])
        if z[i] is not None:
            P[i]["many"] = [Q[j] for j in z[i]]
            adj[i] += [2 + j for j in z[i]]
        if y[i] is not None:
            Q[i]["to"] = P[y[i]]
            adj[2 + i].append(y[i])
    cp, cq = children_of(p, "to", "many"), children_of(q, "to", "many")
    check(nodes, lambda n: cp(n) if n.collection is p else cq(n), adj, "two layers, %s" % (case,), filters=False)
    return case


def gen_large():
    for n in (50, 1200, 5000):
        for kind in ("chain", "ring", "star", "complete", "tree", "back"):
            if kind == "complete" and n > 50:
                continue
            yield n, kind


def run_large(case):
    """Deep and wide graphs: no recursion limit, no repetition."""
    from docria.algorithm import bfs, dfs, dfs_leaves, children_of
    n, kind = case
    adj = {"chain": [[i + 1] if i + 1 < n else [] for i in range(n)], "ring": [[(i + 1) % n] for i in range(n)],
           "star": [list(range(1, n))] + [[] for _ in range(n - 1)], "complete": [list(range(n)) for _ in range(n)] if n <= 50 else None,
           "tree": [[j for j in (2 * i + 1, 2 * i + 2) if j < n] for i in range(n)],
           "back": [[j for j in (i - 1, i + 1, 0) if 0 <= j < n] for i in range(n)]}[kind]
    layer, nodes = graph(adj)
    index = {id(x): i for i, x in enumerate(nodes)}
    ch = children_of(layer, "m")
    got = [(d, index[id(x)]) for d, x in bfs(nodes[0], ch)]
    want = ref_bfs(adj, 0)
    same(sorted(got), sorted(want), "breadth first, %s" % (case,))
    same([d for d, _ in got], [d for d, _ in want], "breadth first distances, %s" % (case,))
    seen, order, stack = set(), [], [0]
    while stack:
        i = stack.pop()
        if i not in seen:
            seen.add(i)
            order.append(i)
            stack += adj[i][::-1]
    same([index[id(x)] for x in dfs(nodes[0], ch)], order, "depth first, %s" % (case,))
    same(sorted(index[id(x)] for x in dfs_leaves(nodes[0], ch)), [i for i in range(n) if not adj[i]], "leaves, %s" % (case,))
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "arrays", gen_arrays, run_arrays, bound="all graphs of up to 3 nodes with every link order, up to %d nodes with up to %d links each" % ((5, 3) if t else (4, 2)))
    core.enumerate_cases(rep, "fields", gen_fields, run_fields, bound="all graphs over two reference fields and an array field, 7 selections of fields")
    core.enumerate_cases(rep, "layers", gen_layers, run_layers, bound="all graphs over two layers of two nodes")
    core.enumerate_cases(rep, "large", gen_large, run_large, bound="chains, rings, stars, trees of up to 5000 nodes")
