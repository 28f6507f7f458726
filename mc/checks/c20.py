"""C20: token alignment returns ordered spans that match the tokens."""
import itertools
from mc import core
from mc.core import same, ensure

LEVEL = "exploration"
RULE = "all texts over a small alphabet x all token sequences x all windows x all look-aheads; reference: the rule of the statement on " \
       "plain strings, and the consequences it names checked on their own; distinct_nontrivial counts distinct (text, tokens)"
DEADLINE = {"quick": 300, "thorough": 820}


def reference(tokens, text, start, stop, k):
    raw = text[start:stop]
    out, pos, i = [], 0, 0
    while i < len(tokens):
        first = lambda t: next((p for p in [raw.find(t, pos)] if p >= 0), None)
        at = first(tokens[i])
        if at is None:
            out.append((start + pos, start + pos))
        else:
            take = i
            for j in range(i + 1, min(i + k, len(tokens) - 1) + 1):
                p = first(tokens[j])
                if p is not None and p < at:
                    take, at = j, p
                    break
            out += [(start + pos, start + pos)] * (take - i)
            pos = at + len(tokens[take])
            out.append((start + at, start + pos))
            i = take
        i += 1
    return out


def judge(tokens, text, start, stop, k, got, obj):
    what = "tokens %s in %r, window %s to %s, look-ahead %s" % (list(tokens), text, start, stop, k)
    ensure(isinstance(got, list) and len(got) == len(tokens), "%s: got %r", what, got)
    res = [(s.start, s.stop) for s in got]
    end, lo = len(text) if stop is None else stop, start
    for t, s, (a, b) in zip(tokens, got, res):
        ensure(s.text is obj, "%s: a span of another text", what)
        ensure(lo <= a <= b <= end, "%s: spans %s are out of order, overlap or leave the window", what, res)
        ensure(a == b or text[a:b] == t, "%s: span %s does not spell its token", what, (a, b))
        lo = b
    same(res, reference(tokens, text, start, end, k), what)


def windows(n):
    for a in range(n + 1):
        yield a, None
        for b in range(a, n + 1):
            yield a, b


def texts(alphabet, n):
    for m in range(n + 1):
        for t in itertools.product(alphabet, repeat=m):
            yield "".join(t)


TOKENS = ["a", "b", "ab", "ba", "c", "aa", "\U0001F600"]


def gen_all():
    t = core.thorough()
    for text in texts(["a", "b"], 6 if t else 5):
        for n in range(0, 4):
            for h in itertools.product(TOKENS[:6] if n == 3 else TOKENS, repeat=n):
                yield text, h, 3 if n > 1 else 1
    for text in texts(["a", "b", "\U0001F600"], 4):
        for h in itertools.product(["a", "b", "\U0001F600", "a\U0001F600"], repeat=3):
            yield text, h, 2
    for text in texts(["a", "b", "c"], 5 if t else 4):
        for h in itertools.product(["a", "b", "c", "bc"], repeat=4):
            yield text, h, 4


def run_all(case):
    from docria.model import Text
    from docria.algorithm import sequence_to_textspans
    text, h, kmax = case
    obj = Text("x", text)
    for a, b in windows(len(text)) if len(h) < 4 else ((0, None), (1, None), (0, len(text) - 1), (1, 3)):
        if a > len(text) or b is not None and not a <= b <= len(text):
            continue
        for k in range(kmax + 1):
            core.step()
            got = sequence_to_textspans(list(h), obj, a, b, k)
            judge(h, text, a, b, k, got, obj)
    core.step()
    judge(h, text, 0, None, 1, sequence_to_textspans(list(h), obj), obj)
    if len(text) > 2:
        judge(h, text, 1, None, 2, sequence_to_textspans(list(h), obj, k=2, start_offset=1), obj)
        judge(h, text, 0, 2, 1, sequence_to_textspans(list(h), obj, stop_offset=2), obj)
    return text, h


def gen_lookahead():
    """Sequences of missing, early and late tokens: which of the next ones is taken."""
    t = core.thorough()
    for n in range(4, 7 if t else 6):
        for h in itertools.product("abcz", repeat=n):
            yield "".join(h)


def run_lookahead(h):
    from docria.model import Text
    from docria.algorithm import sequence_to_textspans
    for text in ("abcabc", "cba", "aabbcc", "cab bac", "b", "xaxbxc", ""):
        obj = Text("x", text)
        for k in range(len(h) + 2):
            core.step()
            judge(tuple(h), text, 0, None, k, sequence_to_textspans(list(h), obj, k=k), obj)
    return h


def gen_words():
    words = ["the", "he", "her", "there", "e", "\U0001F600t", "é", "th"]
    for text in ("the\U0001F600there he, her é the", "hethere\U0001F600the", "é" * 3 + "thethe"):
        for h in itertools.product(words, repeat=3 if not core.thorough() else 4):
            yield text, h


def run_words(case):
    from docria.model import Document
    from docria.algorithm import sequence_to_textspans
    text, h = case
    obj = Document().add_text("main", text)
    for a, b in ((0, None), (2, None), (0, 8), (3, 9), (4, 4)):
        for k in (0, 1, 2):
            core.step()
            judge(h, text, a, b, k, sequence_to_textspans(h if k else list(h), obj, a, b, k), obj)
    return case


def gen_long():
    for n in (30, 100, 300, 1000):
        for text in range(4):
            for tokens in range(6):
                for k in (0, 1, 2, 7, n + 1):
                    yield n, text, tokens, k


def run_long(case):
    """Long texts and sequences: tokens present, missing, repeated, in the wrong order."""
    from docria.model import Text
    from docria.algorithm import sequence_to_textspans
    n, kind, how, k = case
    words = [["w%d" % i, "ab"[i % 2], "x" * (i % 5 + 1), "\U0001F600%d" % (i % 10)][kind] for i in range(n)]
    text = " ".join(words)
    tokens = {0: words, 1: words[::2], 2: [w if i % 3 else "missing" for i, w in enumerate(words)], 3: words[n // 2:] + words[:n // 2],
              4: [w for w in words for _ in (0, 1)], 5: words[::-1]}[how]
    obj = Text("x", text)
    for a, b in ((0, None), (len(text) // 3, None), (1, len(text) - 1)):
        if k > 7 and (n > 100 or how == 5):
            k = 50
        core.step()
        judge(tokens, text, a, b, k, sequence_to_textspans(list(tokens), obj, a, b, k), obj)
    return case


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "sequences", gen_all, run_all, bound="all texts of up to %d letters x up to 3 tokens of 7 (4 tokens of 4) x all windows x look-ahead 0-4" % (6 if t else 5))
    core.enumerate_cases(rep, "look-ahead", gen_lookahead, run_lookahead, bound="all sequences of up to %d tokens of 4 x 7 texts x all look-aheads" % (6 if t else 5))
    core.enumerate_cases(rep, "words", gen_words, run_words, bound="all sequences of %d words that contain each other" % (4 if t else 3))
    core.enumerate_cases(rep, "long", gen_long, run_long, bound="4 texts of up to 1000 words x 6 sequences x look-ahead up to all")
