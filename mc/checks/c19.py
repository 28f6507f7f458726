"""C19: span translation maps every span through the mapping."""
import itertools
from mc import core
from mc.core import same, ensure

LEVEL = "exploration"
RULE = "all mappings of up to three intervals (adjacent, with gaps, empty ones between, reordered in the target) in every layer order x every " \
       "set of one and two spans, all spans at a time, already translated ones mixed in; oracle: character by character image; " \
       "distinct_nontrivial counts distinct mapping and span sets with a translated span"
DEADLINE = {"quick": 300, "thorough": 820}


def mappings(n, most):
    """Disjoint source intervals within n characters, with target starts: every order of the images, with and without gaps."""
    cells = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    for k in range(1, most + 1):
        for src in itertools.combinations(cells, k):
            if any(src[i][1] > src[i + 1][0] for i in range(k - 1)):
                continue
            for order in itertools.permutations(range(k)):
                for gap in (0, 1, 2):
                    tgt, at = [0] * k, gap
                    for i in order:
                        tgt[i] = at
                        at += src[i][1] - src[i][0] + gap
                    yield tuple((a, b, t) for (a, b), t in zip(src, tgt)), at


def image(m, p):
    for a, b, t in m:
        if a <= p < b:
            return t + p - a
    return None


class World:
    def __init__(self, n, total, mapping, order=None, empties=()):
        from docria.model import Document, DataTypes as T
        self.doc = doc = Document()
        self.target = doc.add_text("raw", "".join(chr(0x4E00 + i) for i in range(total + 2)))
        self.source = doc.add_text("clean", "abcdefghijklm"[:n])
        self.map = doc.add_layer("m", raw=T.textspan("raw"), clean=T.textspan("clean"))
        rows = [mapping[i] for i in (order if order is not None else range(len(mapping)))]
        for k, e in empties:
            rows.insert(k, e)
        for a, b, t in rows:
            self.map.add(raw=self.target[t:t + b - a], clean=self.source[a:b])
        self.data = doc.add_layer("d", raw=T.textspan("raw"), clean=T.textspan("clean"))

    def translate(self):
        from docria.algorithm import span_translate
        core.step()
        span_translate(self.doc, "m", ("raw", "clean"), "d", ("clean", "raw"))


def classify(m, s):
    """("ok", start, stop), ("refuse",), or None where the images run backwards and there is no right answer."""
    a, b = image(m, s[0]), image(m, s[1] - 1)
    if a is None or b is None:
        return ("refuse",)
    return ("ok", a, b + 1) if a <= b else None


def check_ok(w, rows, what):
    for node, s, want in rows:
        got = node.get("raw")
        ensure(got is not None, "%s: %s is not translated", what, s)
        same((got.start, got.stop, got.text is w.target), (want[0], want[1], True), "%s: target of %s" % (what, s))
        same((node["clean"].start, node["clean"].stop), s, what + ": source span")


def gen_single():
    t = core.thorough()
    n = 6 if t else 5
    for m, total in mappings(n, 3):
        yield n, m, total


def run_single(case):
    """Every span by itself and all that can be translated together, in every order of the mapping layer."""
    n, m, total = case
    spans = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    ok = 0
    good = [(s, classify(m, s)) for s in spans]
    for s, c in good:
        if c is None:
            continue
        w = World(n, total, m)
        node = w.data.add(clean=w.source[s[0]:s[1]])
        what = "mapping %s, span %s" % (m, s)
        if c[0] == "ok":
            w.translate()
            check_ok(w, [(node, s, c[1:])], what)
            ok += 1
        else:
            core.refused(w.translate, what)
            ensure(node.get("raw") is None, "%s: refused, but given the target %r", what, node.get("raw"))
    good = [(s, c) for s, c in good if c is not None and c[0] == "ok"]
    for order in itertools.permutations(range(len(m))):
        for empties in ((), ((0, (0, 0, 0)), (1, (n, n, 1)), (2, (m[0][0], m[0][0], 0)), (3, ((m[0][0] + m[0][1]) // 2,) * 2 + (1,)))):
            w = World(n, total, m, order, empties)
            rows, done = [], []
            for k, (s, c) in enumerate(good):
                rows.append((w.data.add(clean=w.source[s[0]:s[1]]), s, c[1:]))
                if k % 3 == 0:  # translated before: left alone, whatever it says
                    x = w.data.add(clean=w.source[0:n], raw=w.target[1:2])
                    done.append(x)
            what = "mapping %s in order %s, empty mappings %s, all spans" % (m, order, [e[1] for e in empties])
            for again in range(2):
                w.translate()
                check_ok(w, rows, what)
                for x in done:
                    same((x["raw"].start, x["raw"].stop), (1, 2), what + ": span translated before")
    return case if ok else None


def gen_pairs():
    t = core.thorough()
    n = 5 if t else 4
    for m, total in mappings(n, 2):
        yield n, m, total


def run_pairs(case):
    """Every pair of spans, in either order, with gaps in the layer."""
    n, m, total = case
    spans = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    ok = 0
    for s1 in spans:
        for s2 in spans:
            c1, c2 = classify(m, s1), classify(m, s2)
            if c1 is None or c2 is None:
                continue
            w = World(n, total, m)
            drop = w.data.add(clean=w.source[0:1])
            n1 = w.data.add(clean=w.source[s1[0]:s1[1]])
            n2 = w.data.add(clean=w.source[s2[0]:s2[1]])
            w.data.remove(drop)
            what = "mapping %s, spans %s %s" % (m, s1, s2)
            if c1[0] == c2[0] == "ok":
                w.translate()
                check_ok(w, [(n1, s1, c1[1:]), (n2, s2, c2[1:])], what)
                ok += 1
            else:
                core.refused(w.translate, what)
                for node, c in ((n1, c1), (n2, c2)):
                    got = node.get("raw")
                    if got is not None:
                        ensure(c[0] == "ok" and (got.start, got.stop) == c[1:], "%s: refused, but given the target %r", what, got)
    return case if ok else None


def gen_overlap():
    n = 6
    cells = [(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    for a, b in itertools.permutations(cells, 2):
        if a[0] < b[1] and b[0] < a[1]:
            yield n, a, b


def run_overlap(case):
    """Overlapping mappings: refused, or translated by one of the mappings."""
    n, a, b = case
    m = ((a[0], a[1], 0), (b[0], b[1], 10))
    w = World(n, 20, m)
    node = w.data.add(clean=w.source[0:1])
    try:
        w.translate()
    except Exception:
        return case
    got = node.get("raw")
    if got is not None:
        ensure((got.start, got.stop) in {(x, x + 1) for x in (image(m[:1], 0), image(m[1:], 0)) if x is not None},
               "overlapping mappings %s: target %r", m, got)
    return case


def gen_misc():
    for k in range(0, 40):
        yield k


def run_misc(k):
    """One long mapping with many intervals and spans; texts that differ from their names; no spans; no mapping."""
    m, at = [], 0
    for i in range(k):
        m.append((i * 3, i * 3 + 1 + i % 3, at))
        at += 1 + i % 3 + i % 2
    n = 3 * k + 3
    from docria.model import Document, DataTypes as T
    from docria.algorithm import span_translate
    doc = Document()
    tgt, src = doc.add_text("t", "x" * (at + 3)), doc.add_text("s", "y" * n)
    mm = doc.add_layer("mm", a=T.textspan("t"), b=T.textspan("s"))
    for a, b, t in m[::-1]:
        mm.add(a=tgt[t:t + b - a], b=src[a:b])
    d = doc.add_layer("d", out=T.textspan("t"), src=T.textspan("s"))
    rows = []
    for a in range(n):
        for b in range(a + 1, min(n, a + 9) + 1):
            c = classify(m, (a, b))
            if c is not None and c[0] == "ok":
                rows.append((d.add(src=src[a:b]), (a, b), c[1:]))
    core.step()
    span_translate(doc, "mm", ("a", "b"), "d", ("src", "out"))
    for node, s, want in rows:
        same((node["out"].start, node["out"].stop, node["out"].text is tgt), want + (True,), "mapping of %d intervals: target of %s" % (k, s))
    return k


def gen_far():
    """Mappings far into long texts."""
    for at in (255, 256, 4095, 4096, 65534, 65535, 65536, 1 << 20):
        for shift in (0, 1, 300):
            yield at, shift


def run_far(case):
    at, shift = case
    from docria.model import Document, DataTypes as T
    from docria.algorithm import span_translate
    m = [(0, at, shift), (at, at + 3, at + 2 * shift), (at + 3, at + 5, 0 if shift > 1 else at + 2 * shift + 4), (at + 6, at + 9, at + 2 * shift + 9)]
    doc = Document()
    tgt, src = doc.add_text("t", "x" * (at + 2 * shift + 20)), doc.add_text("s", "y" * (at + 12))
    mm = doc.add_layer("mm", a=T.textspan("t"), b=T.textspan("s"))
    for a, b, t in m:
        mm.add(a=tgt[t:t + b - a], b=src[a:b])
    d = doc.add_layer("d", out=T.textspan("t"), src=T.textspan("s"))
    rows = []
    for a in [0, 1, at // 2] + list(range(at - 3, at + 9)):
        for b in [a + 1, a + 2, at - 1, at, at + 1, at + 3, at + 5, at + 9]:
            if 0 <= a < b <= at + 9:
                c = classify(m, (a, b))
                if c is not None and c[0] == "ok":
                    rows.append((d.add(src=src[a:b]), (a, b), c[1:]))
    core.step(len(rows))
    span_translate(doc, "mm", ("a", "b"), "d", ("src", "out"))
    for node, s, want in rows:
        same((node["out"].start, node["out"].stop), want, "mapping %d into the text: target of %s" % (at, s))
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "mappings", gen_single, run_single, bound="all mappings of up to 3 intervals over %d characters x all spans, in all layer orders" % (6 if t else 5))
    core.enumerate_cases(rep, "pairs", gen_pairs, run_pairs, bound="all mappings of up to 2 intervals over %d characters x all pairs of spans" % (5 if t else 4))
    core.enumerate_cases(rep, "overlapping", gen_overlap, run_overlap, bound="all pairs of overlapping mappings over 6 characters")
    core.enumerate_cases(rep, "long", gen_misc, run_misc, bound="mappings of up to 39 intervals")
    core.enumerate_cases(rep, "far", gen_far, run_far, bound="mappings 255 to 2^20 characters into the texts")
