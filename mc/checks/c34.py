"""C34: Java span algorithms: grouping, dominant-right resolution and span relations."""
import itertools
from mc import core, java
from mc.core import ensure, same, Violation
from mc.checks.c17 import hit, spans
from mc.checks import c18

LEVEL = "exploration"
RULE = "all sequences of group spans and layer spans over a few offsets x every way to name them x resolution x keeping empty groups; all lists of segments " \
       "in every order; all pairs of spans of a text; oracles: pairwise interval arithmetic and the scan of C18"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS

OPTIONS = [(r, e) for r in (False, True, None) for e in (True, False, None)]
shift = lambda s: None if s is None else (s[0] + 1, s[1] + 1)
edge = lambda g, n: n[0] == n[1] and n[0] in g or g[0] == g[1] and g[0] in n     # a point at the edge of the other span: either answer


def expected(call, groups, layers):
    form, cover, empty, gfield, _, named = call
    out = []
    for k, g in enumerate(groups):
        if g is None:
            continue
        g = shift(g) if gfield == "alt" else g
        must, may = {}, {}
        for name, field, _ in named:
            must[name], may[name] = set(), set()
            for i, n in enumerate(layers[name]):
                if n is None:
                    continue
                n = shift(n) if field == "alt" else n
                if cover and not (g[0] <= n[0] and n[1] <= g[1]):
                    continue
                if edge(g, n):
                    may[name].add(i)
                elif hit(g, n):
                    must[name].add(i)
        out.append((k, must, may))
    return out


def judge(call, got, groups, layers):
    what = "grouping %s" % ({"form": call[0], "cover": call[1], "keep empty": call[2], "group field": call[3], "groups": groups, "layers": [(n, f, layers[n]) for n, f, _ in call[5]]},)
    ensure(not isinstance(got, str), "%s raised %s", what, got)
    want = {k: (must, may) for k, must, may in expected(call, groups, layers)}
    seen = {}
    for k, content, empty in got:
        ensure(k in want, "%s returned the group %s", what, k)
        ensure(k not in seen, "%s returned group %s twice", what, k)
        same(sorted(content), sorted(n for n, _, _ in call[5]), what + ": layers of a group")
        same(empty, not any(content.values()), what + ": empty()")
        seen[k] = content
        must, may = want[k]
        for name, members in content.items():
            ensure(len(set(members)) == len(members), "%s: group %s has a node twice: %s", what, k, members)
            spans = [s if s is None or field == "text" else shift(s) for n, field, _ in call[5] if n == name for s in layers[name]]
            same(members, sorted(members, key=lambda i: (spans[i][0], spans[i][0] == spans[i][1], i)), "%s: order of the nodes of %s in group %s" % (what, name, k))
            ensure(must[name] <= set(members) <= must[name] | may[name], "%s: group %s has the nodes %s of %s, expected %s%s", what, k, members, name,
                   sorted(must[name]), " and possibly %s" % sorted(may[name]) if may[name] else "")
        if not call[2]:
            ensure(any(content.values()), "%s returned the empty group %s", what, k)
    starts = {k: shift(g) if call[3] == "alt" else g for k, g in enumerate(groups)}
    same([k for k, _, _ in got], sorted(seen, key=lambda k: (starts[k][0], starts[k][0] == starts[k][1], k)), what + ": order of the groups")
    for k, (must, may) in want.items():
        ensure(k in seen or not call[2] and not any(must.values()), "%s left out group %s", what, k)
    return sum(len(v) for must, may in want.values() for v in must.values())


def batch(jobs):
    """jobs: (groups, {layer: spans}, calls)"""
    out = java.good(java.script([[None, "raw", "grouping", [[[g and list(g) for g in G], [[k, [n and list(n) for n in v]] for k, v in L.items()], calls] for G, L, calls in jobs]]])[0])
    n = 0
    for (G, L, calls), res in zip(jobs, out):
        same(len(res), len(calls), "number of answers")
        core.step(len(calls))
        for call, got in zip(calls, res):
            n += judge(call, got, G, L)
    return n


def gen_group():
    t = core.thorough()
    S = spans(3)
    for ng in range(3):
        for G in itertools.product(S, repeat=ng):
            yield G, S, 2
    S4 = spans(5 if t else 4)
    for G in itertools.combinations_with_replacement(S4, 2):
        yield G, S4, 2 if t else 1
    for G in itertools.combinations_with_replacement(S[1:], 3):
        yield G, S, 2 if t else 1


def run_group(case):
    G, S, n = case
    jobs = []
    for k in range(n + 1):
        for j, N in enumerate(itertools.product(S, repeat=k)):
            jobs.append((G, {"a": N}, [[(j + i) % 6, r, e, "text", None, [["a", "text", None]]] for i, (r, e) in enumerate(OPTIONS[:8:2] if k == 2 else OPTIONS)]))
    return core.h64(case) if batch(jobs) else None


def gen_names():
    S = spans(2)
    for G in itertools.product(S, repeat=2):
        yield G


def run_names(G):
    """Fields by name, several layers, every overload."""
    S = spans(2)
    jobs = []
    for N in itertools.product(S, repeat=2):
        calls = []
        for form in range(6):
            for gf, af, bf in itertools.product(("text", "alt"), repeat=3):
                calls.append([form, form % 2 == 1, form % 3 != 0, gf, None, [["a", af, None], ["b", bf, None]]])
            calls.append([form, False, True, "text", None, []])
            calls.append([form, True, True, "alt", None, [["groups", "text", None], ["a", "alt", None]]])
        jobs.append((G, {"a": N, "b": (N[1], (0, 2), None)}, calls))
    for G_, L, _ in jobs:
        L["groups"] = G_
    return core.h64(G) if batch_names(jobs) else None


def batch_names(jobs):
    plain = [(G, {k: v for k, v in L.items() if k != "groups"}, calls) for G, L, calls in jobs]
    out = java.good(java.script([[None, "raw", "grouping", [[[g and list(g) for g in G], [[k, [n and list(n) for n in v]] for k, v in L.items()], calls] for G, L, calls in plain]]])[0])
    n = 0
    for (G, L, calls), res in zip(jobs, out):
        core.step(len(calls))
        for call, got in zip(calls, res):
            n += judge(call, got, G, L)
    return n


def gen_many():
    for n in (17, 60, 200):
        for step in range(1, 12 if core.thorough() else 5):
            for width in (0, 1, 3, 7):
                yield n, step, width


def run_many(case):
    n, step, width = case
    order = [(i * 7) % n for i in range(n)] if n % 7 else list(range(n))
    G = tuple((i * step, i * step + 3 * width) for i in order if i % 3 == 0)
    N = tuple((i * step, i * step + (width if i % 2 else 0)) for i in order)
    return core.h64(case) if batch([(G, {"a": N}, [[n % 6, r, e, "text", None, [["a", "text", None]]] for r, e in OPTIONS])]) else None


def gen_dominant():
    t = core.thorough()
    lists = itertools.chain(c18.gen(), c18.gen_long_lists())
    chunk = []
    for h in lists:
        chunk.append(h)
        if len(chunk) == 500:
            yield tuple(chunk)
            chunk = []
    if chunk:
        yield tuple(chunk)


def run_dominant(chunk):
    out = java.good(java.script([[None, "raw", "dominant", "segments", [[list(s) for s in h] for h in chunk]]])[0])
    core.step(len(chunk))
    for h, kept in zip(chunk, out):
        c18.judge(list(h), kept, "segments %s" % (core.short(h),))
    return core.h64(chunk)


def gen_nodes():
    chunk = []
    for h in c18.gen_nodes():
        chunk.append(h)
        if len(chunk) == 300:
            yield tuple(chunk)
            chunk = []
    yield tuple(chunk)


def run_nodes(chunk):
    for how in ("nodes", "nodespans"):
        out = java.good(java.script([[None, "raw", "dominant", how, [[s and [s[0], s[1]] for s in h] for h in chunk]]])[0])
        core.step(len(chunk))
        for h, answers in zip(chunk, out):
            have = [i for i, s in enumerate(h) if s is not None]
            for k, kept in enumerate(answers):
                ensure(all(i in have for i in kept), "%s %s: kept %s", how, h, kept)
                segs = [h[i] if how == "nodes" else (h[i][0], h[i][1] + 1) for i in have]
                if how == "nodes" and k == 1:
                    segs = [shift(s) for s in segs]
                c18.judge(segs, [have.index(i) for i in kept], "%s %s (answer %d)" % (how, h, k))
    return core.h64(chunk)


def gen_pairs():
    for text in ("", "a", "abc", "aaaa", "a\U0001F600b", "\u00e5\nb c", "abcdefg"[:7 if core.thorough() else 5]):
        yield text


def run_pairs(text):
    units = text.encode("utf-16-le")
    n = len(units) // 2
    sub = lambda i, j: units[2 * i:2 * j].decode("utf-16-le", "surrogatepass")
    split = {k for k in range(1, n) if 0xd8 <= units[2 * k - 1] < 0xdc and 0xdc <= units[2 * k + 1] < 0xe0}
    one, rel = java.good(java.script([[None, "raw", "pairs", text]])[0])
    all_ = [(i, j) for i in range(n + 1) for j in range(i, n + 1)]
    same(len(one), len(all_), "number of spans")
    core.step(len(rel))
    for (i, j), got in zip(all_, one):
        what = "span [%d, %d) of %r" % (i, j, text)
        same(got[:3], [i, j, j - i], what + ": start, stop, length")
        same(got[9], True, what + ": source")
        if i in split or j in split or split & set(range(i, j)):
            if i not in split and j not in split:
                same(got[3:5] + got[8:9], [sub(i, j)] * 3, what + ": text")
            continue
        same(got[3:5] + got[7:9], [sub(i, j)] * 4, what + ": text")
        same(got[5], [sub(k, k + 1) for k in range(i, j)], what + ": characters")
        same(got[6], [sub(i + a, i + b) for a in range(j - i + 1) for b in range(a, j - i + 1)], what + ": subsequences")
    k = 0
    for x in all_:
        for y in all_:
            covers, meets, eq, hashed, order = rel[k]
            k += 1
            what = "spans %s and %s of %r" % (x, y, text)
            same(covers, x[0] <= y[0] and y[1] <= x[1], what + ": covers")
            if x[0] < y[1] and y[0] < x[1]:
                same(meets, True, what + ": intersects")
            if x[1] < y[0] or y[1] < x[0]:
                same(meets, False, what + ": intersects")
            same(eq, x == y, what + ": equals")
            same(hashed, True, what + ": hashCode of equal spans")
            same(order, (x > y) - (x < y), what + ": compareTo")
    return text


def gen_outside():
    for text in ("", "a", "abc", "a\U0001F600"):
        for off in (None, True, False):
            yield (text, off)


def run_outside(case):
    """What is not in a text, or not in a span of it, is refused."""
    text, off = case
    n = len(text.encode("utf-16-le")) // 2
    s = java.S()
    s.new("t", "Text", "main", text)
    if off is not None:
        s.call("t", "setValidating", False)
        s.call("t", "setValidating", off)
    flag = s.call("t", "isValidating")
    ask = []
    for i in range(-2, n + 3):
        for j in range(-2, n + 3):
            inside = 0 <= i <= j <= n
            at = s.call("t", "span", i, j, to="s")
            if not inside:
                if off is not False:
                    ask.append((at, "span [%d, %d)" % (i, j), False))
                continue
            ask.append((at, "span [%d, %d)" % (i, j), True))
            for a in range(-2, j - i + 3):
                if not 0 <= a < j - i:
                    ask.append((s.call("s", "charAt", a), "character %d of span [%d, %d)" % (a, i, j), False))
                for b in range(-2, j - i + 3):
                    if not 0 <= a <= b <= j - i:
                        ask.append((s.call("s", "subSequence", a, b), "subsequence [%d, %d) of span [%d, %d)" % (a, b, i, j), False))
    core.step(len(s.ops))
    res = s.run()
    same(java.good(res[flag]), off is not False, "validating")
    for at, what, ok in ask:
        if ok:
            java.good(res[at], what)
        else:
            ensure(isinstance(res[at], java.JavaError), "%s of %r was given instead of refused: %s", what, text, res[at])
    return core.h64(case)


def main(rep):
    if not java.available(rep) or not java.compile_java(rep):
        return
    t = core.thorough()
    core.enumerate_cases(rep, "grouping", gen_group, run_group, bound="all sequences of up to 2 groups and 2 nodes over offsets 0-3, of pairs over 0-%d, of triples; all options" % (5 if t else 4))
    core.enumerate_cases(rep, "naming", gen_names, run_names, bound="every overload and field, two layers and the groups' own, offsets 0-2")
    core.enumerate_cases(rep, "many", gen_many, run_many, bound="regular layouts of up to 200 nodes")
    core.enumerate_cases(rep, "dominant", gen_dominant, run_dominant, bound="the lists of segments of C18")
    core.enumerate_cases(rep, "dominant-nodes", gen_nodes, run_nodes, bound="all sequences of up to 3 nodes with spans or node spans over offsets 0-3, unset included")
    core.enumerate_cases(rep, "relations", gen_pairs, run_pairs, bound="all pairs of spans of short texts, surrogate pairs included")
    core.enumerate_cases(rep, "outside", gen_outside, run_outside, bound="all offsets up to 2 beyond short texts and their spans")
