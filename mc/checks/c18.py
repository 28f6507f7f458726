"""C18: dominant-right resolution keeps the longest, rightmost segments."""
import itertools
from mc import core
from mc.core import same, ensure

LEVEL = "exploration"
RULE = "all lists of segments over a few offsets (zero length and repeated segments included), in every order, compared with a scan over " \
       "the segments sorted by start and checked for the consequences the statement names; distinct_nontrivial counts distinct lists"
DEADLINE = {"quick": 300, "thorough": 820}


def last(s):
    """Offset of the last position a segment takes; a segment of length zero takes the position it is at."""
    return max(s[0], s[1] - 1)


def overlap(a, b):
    return a[0] <= last(b) and b[0] <= last(a)


def scan(segments):
    out, open_ = [], None
    for s in sorted(segments, key=lambda s: s[0]):
        if open_ is not None and last(open_) < s[0]:
            out.append(open_)
            open_ = None
        if open_ is None or open_[1] - open_[0] <= s[1] - s[0]:
            open_ = s
    return out + ([open_] if open_ is not None else [])


def judge(segments, kept, what):
    ids = [d for d in kept]
    ensure(all(isinstance(d, int) and 0 <= d < len(segments) for d in ids), "%s: %r is not the data of a segment", what, kept)
    ensure(len(set(ids)) == len(ids), "%s: a segment is kept twice: %s", what, ids)
    got = [segments[d] for d in ids]
    same(got, scan(segments), what)
    for a, b in zip(got, got[1:]):
        ensure(last(a) < b[0], "%s: kept %s and %s", what, a, b)
    for i, s in enumerate(segments):
        if not any(overlap(s, o) for j, o in enumerate(segments) if j != i):
            ensure(i in ids, "%s: %s overlaps no other and was dropped", what, s)
    if len(segments) == 2 and overlap(*segments):
        a, b = segments
        la, lb = a[1] - a[0], b[1] - b[0]
        winner = max(segments, key=lambda s: (s[1] - s[0], s[0])) if la != lb or a[0] != b[0] else a
        same(got, [winner], what + ": of two overlapping segments")


def spans(n):
    return [(i, j) for i in range(n + 1) for j in range(i, n + 1)]


def gen():
    t = core.thorough()
    for n in (0, 1, 2):
        for h in itertools.product(spans(7), repeat=n):
            yield h
    for h in itertools.product(spans(6 if t else 5), repeat=3):
        yield h
    for h in itertools.product(spans(4 if t else 3), repeat=4):
        yield h
    for h in itertools.combinations(spans(5), 4):
        yield h
    five = [s for s in spans(4 if not t else 5) if s[0] < s[1]]
    for h in itertools.combinations(five, 5):
        for p in itertools.permutations(h) if not t else (h, h[::-1], h[2:] + h[:2], h[1::2] + h[::2]):
            yield p
    six = [s for s in spans(6 if t else 5) if s[0] < s[1]]
    for h in itertools.combinations(six, 6):
        yield h[3:] + h[:3]


def run(h):
    from docria.algorithm import dominant_right
    segs = [(a, b, i) for i, (a, b) in enumerate(h)]
    judge(h, dominant_right(segs), str(h))
    same(segs, [(a, b, i) for i, (a, b) in enumerate(h)], "the argument after the call")
    return h


def gen_nodes():
    t = core.thorough()
    S = [None] + spans(3)
    for n in range(0, 4):
        for h in itertools.product(S, repeat=n):
            yield h
    for h in itertools.combinations(S, 4 if not t else 5):
        yield h
        yield h[::-1]


def run_nodes(h):
    """On nodes: the field is given by name, nodes without a span are left out."""
    from docria.model import Document, DataTypes as T, Node
    from docria.algorithm import dominant_right_span, dominant_right
    doc = Document()
    t = doc.add_text("main", "abcdef")
    layer = doc.add_layer("l", text=T.textspan(), alt=T.textspan())
    nodes = []
    for k, s in enumerate(h):
        n = layer.add()
        if s is not None:
            n["text"] = t[s[0]:s[1]]
            n["alt"] = t[s[0] + 1:s[1] + 2]
        nodes.append(n)
    have = [(n, s) for n, s in zip(nodes, h) if s is not None]
    index = {id(n): i for i, (n, s) in enumerate(have)}
    segs = [s for _, s in have]
    for arg in (layer, nodes, iter(nodes), layer.to_list()):
        got = dominant_right_span(arg)
        judge(segs, [index.get(id(n), -1) for n in got], "nodes %s" % (h,))
    got = dominant_right_span(nodes, "alt")
    judge([(a + 1, b + 2) for a, b in segs], [index.get(id(n), -1) for n in got], "nodes by another field %s" % (h,))
    got = dominant_right_span(nodes, spanfield="alt")
    judge([(a + 1, b + 2) for a, b in segs], [index.get(id(n), -1) for n in got], "nodes by a named field %s" % (h,))
    return h


def gen_data():
    for h in itertools.product(spans(2), repeat=3):
        yield h


def run_data(h):
    """The data of segments may be anything, equal or not comparable."""
    from docria.algorithm import dominant_right
    want = [s for s in scan(h)]
    for data in ([None] * 3, [{}, {}, {}], [1, "a", None], [1, 1, 1]):
        got = dominant_right([(a, b, d) for (a, b), d in zip(h, data)])
        same(len(got), len(want), "%s with data %s" % (h, data))
        for g, w in zip(got, want):
            ensure(any(d is g for s, d in zip(h, data) if s == w), "%s with data %s: got %s", h, data, got)
    same(len(dominant_right(iter([(a, b, 0) for a, b in h]))), len(want), "segments from an iterator")
    return h


def gen_long():
    t = core.thorough()
    for n in (20, 100, 1000):
        for step in (1, 2, 3, 5):
            for widths in itertools.product((1, 2, 4, 9), repeat=3 if t else 2):
                yield n, step, widths


def layout(case):
    n, step, widths = case
    segs = [(i * step, i * step + widths[i % len(widths)]) for i in range(n)]
    order = [(i * 31) % n for i in range(n)] if n % 31 else list(range(n))
    return [segs[i] for i in order]


def gen_long_lists():
    return map(layout, gen_long())


def run_long(case):
    from docria.algorithm import dominant_right
    segs = layout(case)
    judge(segs, dominant_right([(a, b, i) for i, (a, b) in enumerate(segs)]), "%s" % (case,))
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "segments", gen, run, bound="all sequences of 2 segments over offsets 0-7, of 3 over 0-%d, of 4 over 0-%d, sets of 5 in every order, sets of 6" % ((6, 4) if t else (5, 3)))
    core.enumerate_cases(rep, "nodes", gen_nodes, run_nodes, bound="all sequences of up to 3 nodes over offsets 0-3, unset included")
    core.enumerate_cases(rep, "data", gen_data, run_data, bound="data that is equal or cannot be compared")
    core.enumerate_cases(rep, "long", gen_long, run_long, bound="regular layouts of up to 1000 segments")
