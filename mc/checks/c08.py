"""C08: text spans behave like slices of their text."""
import itertools
from mc import core
from mc.core import same, ensure, refused

LEVEL = "exploration"
RULE = "all texts over small alphabets (ASCII, combining, astral, white space of several kinds) up to a length, all pairs of " \
       "offsets including those outside, all pairs of spans; reference: Python string slicing and interval arithmetic; " \
       "non-trivial: texts with at least one character"
DEADLINE = {"quick": 240, "thorough": 800}


def text_objects(s):
    """The same text reached in every way a user gets one."""
    from docria.model import Document, Text
    from docria.codec import MsgpackCodec
    d1 = Document()
    d1.maintext = s
    d2 = Document()
    d2.maintext = Text("main", s)
    d3 = Document()
    d3.add_text("main", s)
    return [d1.maintext, d2.maintext, d3.texts["main"], MsgpackCodec.decode(MsgpackCodec.encode(d1)).maintext]


def strings(alphabet, n):
    for k in range(n + 1):
        for c in itertools.product(alphabet, repeat=k):
            yield "".join(c)


def gen_slices():
    yield from strings(["a", " ", "\U0001F600"], 7 if core.thorough() else 6)
    yield from strings(["e", "\u0301", "\n", "\U0010FFFF"], 5 if core.thorough() else 4)


def run_slices(s):
    n = len(s)
    for t in text_objects(s):
        same(str(t), s, "str(text)")
        same(len(t), n, "len(text)")
        same(list(t), list(s), "characters of the text")
        R = [None] + list(range(-n - 2, n + 3))
        for i in R:
            if i is not None:
                check_index(t, s, i, "text")
                if i >= 0:
                    (refused(lambda: t.offset(i), "offset %d" % i) if i > n else same(t.offset(i), i, "offset"))
            for j in R:
                check_slice(t, s, i, j)
        for i in range(-2, n + 3):
            for j in range(-2, n + 3):
                if 0 <= i <= j <= n:
                    check_span(t[(i, j)], t, s, i, j, "text[(%d, %d)] of %r" % (i, j, s))
                else:
                    refused(lambda: t[(i, j)], "text[(%d, %d)] of %r" % (i, j, s))
        for step in (2, -1, 0):
            refused(lambda: t[0:n:step], "a step of %d" % step)
    return s or None


def check_index(t, s, i, what):
    n = len(s)
    if -n <= i < n:
        same(t[i], s[i], "%s[%d] of %r" % (what, i, s))
    else:
        refused(lambda: t[i], "%s[%d] of %r" % (what, i, s))


def check_slice(t, s, i, j):
    n = len(s)
    a, b, _ = slice(i, j).indices(n)
    what = "text[%s:%s] of %r" % (i, j, s)
    inside = all(x is None or -n <= x <= n for x in (i, j))
    if b < a:
        refused(lambda: t[i:j], what)
        return
    try:
        sp = t[i:j]
    except Exception:
        ensure(not inside, "%s is refused", what)  # beyond the ends: clamped like a string slice, or refused
        return
    check_span(sp, t, s, a, b, what)


def check_span(sp, t, s, a, b, what):
    from docria.model import TextSpan
    sub = s[a:b]
    ensure(isinstance(sp, TextSpan), "%s is not a span: %r", what, sp)
    ensure(sp.text is t, "%s is over another text", what)
    same((sp.start, sp.stop), (a, b), what)
    same(str(sp), sub, what)
    same(len(sp), b - a, "length of " + what)
    same(list(sp), list(sub), "characters of " + what)
    ensure(sp == sub, "%s differs from its string", what)
    ensure(not (sp == sub + "x"), "%s equals another string", what)


def gen_sub():
    yield from strings(["a", "b", "\U0001F600"], 6 if core.thorough() else 5)
    yield "abcde\U0001F600"


def run_sub(s):
    """Sub-slices of every span."""
    n = len(s)
    t = text_objects(s)[0]
    for a in range(n + 1):
        for b in range(a, n + 1):
            sp = t[a:b]
            m = b - a
            sub = s[a:b]
            for i in [None] + list(range(-m - 2, m + 3)):
                if i is not None:
                    check_index(sp, sub, i, "span")
                for j in [None] + list(range(-m - 2, m + 3)):
                    x, y, _ = slice(i, j).indices(m)
                    what = "span[%s:%s] of %r[%d:%d]" % (i, j, s, a, b)
                    inside = all(z is None or -m <= z <= m for z in (i, j))
                    if y < x:
                        refused(lambda: sp[i:j], what)
                    else:
                        try:
                            r = sp[i:j]
                        except Exception:
                            ensure(not inside, "%s is refused", what)
                        else:
                            check_span(r, t, s, a + x, a + y, what)
            for i in range(-n - 2, n + 3):
                for j in range(-n - 2, n + 3):
                    what = "span[(%d, %d)] of %r[%d:%d]" % (i, j, s, a, b)
                    if 0 <= i <= j <= m:
                        check_span(sp[(i, j)], t, s, a + i, a + j, what)
                    elif j < i or a + i < 0 or a + j > n:
                        refused(lambda: sp[(i, j)], what)
            for step in (2, -1):
                refused(lambda: sp[::step], "a step of %d" % step)
            same((sp.start, sp.stop, str(sp)), (a, b, sub), "the span after slicing it")
    return s or None


def gen_pairs():
    yield from strings(["a", " ", "\U0001F600"], 5 if core.thorough() else 4)
    for n in range(5, 10 if core.thorough() else 8):
        yield "abcdefgh"[:n - 1] + "\U0001F600"


def run_pairs(s):
    n = len(s)
    t = text_objects(s)[0]
    spans = [(a, b) for a in range(n + 1) for b in range(a, n + 1)]
    for a, b in spans:
        x = t[a:b]
        for c, d in spans:
            y = t[c:d]
            what = "%d:%d and %d:%d of %r" % (a, b, c, d, s)
            if a <= d:
                same(x.text_to(y), s[a:d], "text_to " + what)
                check_span(x.span_to(y), t, s, a, d, "span_to " + what)
            else:
                refused(lambda: x.span_to(y), "span_to " + what)
                try:
                    same(x.text_to(y), "", "text_to " + what)
                except core.Violation:
                    raise
                except Exception:
                    pass
            for arg in (y, (c, d)):
                same(bool(x.covered_by(arg)), c <= a and b <= d, "covered_by " + what)
                same(bool(x.intersected_by(arg)), c < b and a < d, "intersected_by " + what)
        for c in range(-2, n + 3):
            for d in range(c, n + 3):
                same(bool(x.covered_by((c, d))), c <= a and b <= d, "covered_by tuple")
                same(bool(x.intersected_by((c, d))), c < b and a < d, "intersected_by tuple")
        refused(lambda: x.covered_by("ab"), "covered_by a string")
        refused(lambda: x.intersected_by(5), "intersected_by a number")
    for a in range(n + 1):
        for b in range(a):
            from docria.model import TextSpan
            refused(lambda: TextSpan(t, a, b), "TextSpan(%d, %d)" % (a, b))
    return s or None


SPACES = ["\t", "\n", "\x0b", "\x0c", "\r", "\x1c", "\x1f", " ", "\x85", "\xa0", "\u1680", "\u2003", "\u2028", "\u205f", "\u3000"]
NOT_SPACES = ["\u200b", "\ufeff", "\x00", "\u180e", "_", "\u0301", "\U0001F600"]


def gen_trim():
    yield from strings(["a", " ", "\n"], 9 if core.thorough() else 7)
    yield from strings([" ", "\u2003", "\u200b", "\U0001F600"], 6 if core.thorough() else 5)
    for x in SPACES + NOT_SPACES:
        for y in SPACES + NOT_SPACES:
            yield x + y
            yield x + "a" + y
            yield x + "a " + y + "b" + y + x


def run_trim(s):
    n = len(s)
    t = text_objects(s)[0]
    for a in range(n + 1):
        for b in range(a, n + 1):
            sub = s[a:b]
            lead = len(sub) - len(sub.lstrip())
            want = sub.strip()
            x = t[a:b]
            y = x.trim()
            same((x.start, x.stop, str(x)), (a, b, sub), "the span after trim()")
            z = t[a:b]
            ensure(z.trim_() is z, "trim_() does not return the span")
            for what, r in (("trim", y), ("trim_", z), ("trim twice", x.trim().trim())):
                what = "%s of %r[%d:%d]" % (what, s, a, b)
                if want:
                    check_span(r, t, s, a + lead, a + lead + len(want), what)
                else:
                    same((str(r), len(r)), ("", 0), what)
                    ensure(a <= r.start <= r.stop <= b, "%s lies outside the span: %d:%d", what, r.start, r.stop)
            # a trimmed span is an ordinary span
            if want:
                same(str(z[0:1]), want[:1], "slice of a trimmed span")
                same(z[-1], want[-1], "character of a trimmed span")
                same(bool(z.covered_by(x)), True, "trimmed span is covered by the original")
                same(z.text_to(x), s[z.start:b], "text from a trimmed span")
    return s or None


EDGES = [0, 1, 2, 15, 16, 31, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 70001]


def gen_long():
    for kind in range(4):
        for a in EDGES:
            yield kind, a


def run_long(case):
    """Spans of a long text between all of many offsets, and their relation to others."""
    kind, a = case
    unit = ["abcdefg", "a\U0001F600b\u0301 ", "\U0010FFFF", " x \n"][kind]
    s = (unit * 70001)[:70001]
    for t in text_objects(s)[2:]:
        same(len(t), len(s), "length of a long text")
        for b in EDGES:
            what = "offsets %d and %d of a text of 70001" % (a, b)
            if b < a:
                refused(lambda: t[a:b], what)
                continue
            x = t[a:b]
            check_span(x, t, s, a, b, what)
            want = s[a:b].strip()
            lead = len(s[a:b]) - len(s[a:b].lstrip())
            if want:
                check_span(x.trim(), t, s, a + lead, a + lead + len(want), "trim, " + what)
            for c in EDGES:
                for d in EDGES:
                    core.step()
                    if c <= d:
                        same((bool(x.covered_by((c, d))), bool(x.intersected_by((c, d)))), (c <= a and b <= d, c < b and a < d), "covered and intersected by %d:%d, %s" % (c, d, what))
            y = t[b:70001]
            same((x.span_to(y).start, x.span_to(y).stop, len(x.text_to(y))), (a, 70001, 70001 - a), "span and text to the end, " + what)
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "slices", gen_slices, run_slices, bound="texts to length %d, all offsets" % (9 if t else 7))
    core.enumerate_cases(rep, "sub-slices", gen_sub, run_sub, bound="texts to length %d, all spans, all offsets" % (6 if t else 5))
    core.enumerate_cases(rep, "pairs", gen_pairs, run_pairs, bound="all pairs of spans, texts to length %d" % (9 if t else 7))
    core.enumerate_cases(rep, "trim", gen_trim, run_trim, bound="texts to length %d, 22 special characters" % (9 if t else 7))
    core.enumerate_cases(rep, "long", gen_long, run_long, bound="4 texts of 70001 characters, %d offsets" % len(EDGES))
