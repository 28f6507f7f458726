"""C17: grouping by span matches exactly the overlapping nodes."""
import itertools
from mc import core
from mc.core import same, identical, ensure

LEVEL = "exploration"
RULE = "all sequences of group spans and layer spans over a few offsets (zero length and unset included), in every order, x resolution x " \
       "keeping empty groups; one, two and three layers with different field names; every kind of node collection; oracle: pairwise " \
       "interval arithmetic; distinct_nontrivial counts distinct groupings with at least one member"
DEADLINE = {"quick": 300, "thorough": 820}

_DOC = []


def pool(n):
    """Nodes by span, several of each, made once per worker: grouping must not depend on earlier groupings either."""
    if not _DOC:
        from docria.model import Document, DataTypes as T
        doc = Document()
        t = doc.add_text("main", "0123456789")
        g = doc.add_layer("g", text=T.textspan(), alt=T.textspan())
        a = doc.add_layer("a", text=T.textspan(), alt=T.textspan())
        b = doc.add_layer("b", text=T.textspan(), alt=T.textspan())
        nodes = {}
        for name, layer in (("g", g), ("a", a), ("b", b)):
            for s in [None] + [(i, j) for i in range(7) for j in range(i, 7)]:
                for k in range(4):
                    if s is None:
                        node = layer.add()
                        if k == 1:
                            node["text"] = node["alt"] = None
                    else:
                        node = layer.add(text=t[s[0]:s[1]], alt=t[s[0] + 1:s[1] + 1])
                    nodes[name, s, k] = node
        _DOC.append(nodes)
    return _DOC[0]


def hit(g, n):
    """Zero length spans are points: equal points, or a span that starts at or before and ends after the point."""
    if g[0] == g[1] and n[0] == n[1]:
        return g[0] == n[0]
    if n[0] == n[1]:
        return g[0] <= n[0] < g[1]
    if g[0] == g[1]:
        return n[0] <= g[0] < n[1]
    return g[0] < n[1] and n[0] < g[1]


def pick(nodes, layer, spans):
    seen, out = {}, []
    for s in spans:
        k = seen.get(s, 0)
        seen[s] = k + 1
        out.append(nodes[layer, s, k])
    return out


def text_order(e):
    """By start, a point after the longer spans that start at it; otherwise as given."""
    s = e[0]
    return (-1, False) if s is None else (s[0], s[0] == s[1])


def check(nodes, groups, layers, **fields):
    """groups: spans; layers: {name: (pool layer, spans)}"""
    from docria.algorithm import group_by_span
    G = pick(nodes, "g", groups)
    L = {name: (pick(nodes, which, spans), spans) for name, (which, spans) in layers.items()}
    out = []
    for resolution in ("intersect", "cover"):
        for empty in (True, False):
            core.step()
            res = group_by_span(G, {k: v[0] for k, v in L.items()}, resolution=resolution, include_empty_groups=empty, **fields)
            want = {}
            for g, s in zip(G, groups):
                if s is None:
                    continue
                want[id(g)] = {name: [id(n) for p, n in sorted(zip(spans, ns), key=text_order) if p is not None and hit(s, p) and
                                      (resolution == "intersect" or s[0] <= p[0] and p[1] <= s[1])]
                               for name, (ns, spans) in L.items()}
            if not empty:
                want = {g: m for g, m in want.items() if any(m.values())}
            got = {}
            what = "%s, groups %s, layers %s, empty groups %s" % (resolution, groups, {k: v[1] for k, v in L.items()}, "kept" if empty else "left out")
            for g, m in res:
                ensure(id(g) not in got, "%s: a group is returned twice", what)
                same(set(m.keys()), set(L.keys()), what + ": layers of a group")
                got[id(g)] = {name: list(map(id, ns)) for name, ns in m.items()}
            if got != want:
                name = {id(n): (k[0], k[1]) for k, n in nodes.items()}
                show = lambda r: [(name.get(g), {l: [name.get(x) for x in ns] for l, ns in m.items()}) for g, m in r.items()]
                raise core.Violation("%s: got %s, expected %s" % (what, show(got), show(want)))
            same(list(got), [g for _, g in sorted(((s, id(g)) for g, s in zip(G, groups)), key=text_order) if g in want], what + ": order of the groups")
            out.append(sum(len(x) for m in want.values() for x in m.values()))
    return out


def spans(n):
    return [None] + [(i, j) for i in range(n + 1) for j in range(i, n + 1)]


def gen_one():
    t = core.thorough()
    S = spans(3)
    for ng in range(3):
        for G in itertools.product(S, repeat=ng):
            yield G, 3 if t else 2, S
    S4 = spans(5 if t else 4)
    for G in itertools.combinations_with_replacement(S4, 2):
        yield G, 2, S4
    for ng in (3,):
        for G in itertools.combinations_with_replacement(S[1:], ng):
            yield G, 3 if t else 2, S[1:]


def run_one(case):
    """All sequences of up to n layer spans for one sequence of groups."""
    G, n, S = case
    nodes = pool(0)
    hits = 0
    for k in range(n + 1):
        for N in (itertools.product(S, repeat=k) if k < 3 else itertools.combinations_with_replacement(S, k)):
            hits += sum(check(nodes, G, {"a": ("a", N)}))
    return (case[0], n) if hits else None


def gen_two():
    S = spans(3)
    for G in itertools.combinations_with_replacement(S[1:], 1):
        for A in itertools.combinations_with_replacement(S[1:], 2):
            yield G, A
    for G in itertools.combinations(S[1::2], 2):
        for A in itertools.combinations_with_replacement(S[1::3], 2):
            yield G, A


def run_two(case):
    """Two and three layers, one of them the groups' own pool under other names."""
    G, A = case
    nodes = pool(0)
    S = spans(3)
    n = 0
    for B in [()] + [(b,) for b in S] + list(itertools.combinations_with_replacement(S[1::2], 2)):
        n += sum(check(nodes, G, {"a": ("a", A), "b": ("b", B)}))
        n += sum(check(nodes, G, {"b": ("b", B), "x": ("g", A), "again": ("a", A)}))
    return case if n else None


def gen_options():
    S = spans(2)
    for G in itertools.product(S, repeat=2):
        for N in itertools.product(S, repeat=2):
            yield G, N


def run_options(case):
    """Field names, kinds of collections, and that nothing is modified."""
    from docria.model import Document, DataTypes as T, NodeList
    from docria.algorithm import group_by_span
    G, N = case
    shift = lambda s: None if s is None else (s[0] + 1, s[1] + 1)
    doc = Document()
    t = doc.add_text("main", "0123456789")
    g = doc.add_layer("g", text=T.textspan(), other=T.textspan())
    a = doc.add_layer("a", text=T.textspan(), other=T.textspan())
    rows = {}
    for layer, ss in ((g, G), (a, N)):
        for s in ss:
            n = layer.add()
            if s is not None:
                n["text"] = t[s[0]:s[1]]
                n["other"] = t[s[0] + 1:s[1] + 1]
            rows[id(n)] = s
    before = [dict(n) for n in list(g) + list(a)]

    def members(res):
        return sorted((rows[id(x)] or (-1, -1), sorted(rows[id(n)] or (-1, -1) for n in m["L"])) for x, m in res)

    def want(fg, fa):
        return sorted((s, sorted(p for p in N if p is not None and hit(fg(s), fa(p)))) for s in G if s is not None)
    ident = lambda s: s
    forms = [(g, a), (list(g), NodeList(list(a))), (g.to_list(), a[lambda n: True]), (g[:], a.to_list())]
    for gg, aa in forms:
        same(members(group_by_span(gg, {"L": aa})), want(ident, ident), "default fields, %s" % (case,))
        same(members(group_by_span(gg, {"L": aa}, group_span_field="other", layer_span_field={"L": "text"})), want(shift, ident), "group field, %s" % (case,))
        same(members(group_by_span(gg, {"L": aa}, "intersect", "text", {"L": "other"})), want(ident, shift), "layer field, %s" % (case,))
        same(members(group_by_span(gg, {"L": aa}, group_span_field="other", layer_span_field={"L": "other"})), want(shift, shift), "both fields, %s" % (case,))
    # the groups are grouped by themselves
    res = group_by_span(g, {"L": g})
    same(sorted((rows[id(x)], sorted(rows[id(n)] for n in m["L"])) for x, m in res),
         sorted((s, sorted(p for p in G if p is not None and hit(s, p))) for s in G if s is not None), "grouping a layer by itself, %s" % (case,))
    same([dict(n) for n in list(g) + list(a)], before, "nodes after grouping")
    same(group_by_span([], {"L": a}), [], "no groups")
    same([m for _, m in group_by_span(g, {})], [{} for s in G if s is not None], "no layers")
    return case


def gen_many():
    t = core.thorough()
    for n in (17, 60, 200):
        for step in range(1, 12 if t else 6):
            for width in (0, 1, 3, 7):
                yield n, step, width


def run_many(case):
    """Regular layouts with many nodes."""
    from docria.model import Document, DataTypes as T
    from docria.algorithm import group_by_span
    n, step, width = case
    doc = Document()
    t = doc.add_text("main", "x" * (n * step + 40))
    g = doc.add_layer("g", text=T.textspan())
    a = doc.add_layer("a", text=T.textspan())
    rows, order = {}, [(i * 7) % n for i in range(n)] if n % 7 else list(range(n))
    for i in order:
        if i % 3 == 0:
            x = g.add(text=t[i * step:i * step + 3 * width])
            rows[id(x)] = (i * step, i * step + 3 * width)
        y = a.add(text=t[i * step:i * step + (width if i % 2 else 0)])
        rows[id(y)] = (i * step, i * step + (width if i % 2 else 0))
    for resolution in ("intersect", "cover"):
        got = {id(x): list(map(id, m["a"])) for x, m in group_by_span(g, {"a": a}, resolution=resolution)}
        want = {}
        for x in g:
            s = rows[id(x)]
            want[id(x)] = [id(y) for y in sorted(a, key=lambda y: text_order([rows[id(y)]])) if hit(s, rows[id(y)]) and
                           (resolution == "intersect" or s[0] <= rows[id(y)][0] and rows[id(y)][1] <= s[1])]
        same(got == want, True, "many nodes, %s, %s" % (case, resolution))
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "one-layer", gen_one, run_one, bound="all sequences of up to 2 groups and %d nodes over offsets 0-3; all pairs over offsets 0-%d; all triples of groups" % ((3, 5) if t else (2, 4)))
    core.enumerate_cases(rep, "several-layers", gen_two, run_two, bound="two and three layers, up to 2 nodes each")
    core.enumerate_cases(rep, "options", gen_options, run_options, bound="field names and kinds of collections, 2 groups and 2 nodes over offsets 0-2")
    core.enumerate_cases(rep, "many", gen_many, run_many, bound="regular layouts of up to 200 nodes")
