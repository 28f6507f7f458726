"""C25: rendering shows everything, changes nothing and injects nothing."""
import contextlib
import io
import itertools
import re
from html.parser import HTMLParser
from mc import core, docs
from mc.core import same, ensure, short, refused

LEVEL = "exploration"
RULE = "all object kinds x presentation settings x document contents; text is searched for one token per node and field, HTML is parsed and " \
       "compared with the rendering of a harmless document of the same shape; distinct_nontrivial counts distinct renderings"
DEADLINE = {"quick": 240, "thorough": 820}

ATTRS = ("max_rows", "max_columns", "max_column_width", "max_display_width")
DEFAULTS = (100, 8, 30, 120)


@contextlib.contextmanager
def settings(values):
    from docria.printout import options
    try:
        for a, v in zip(ATTRS, values):
            setattr(options, a, v)
            same(getattr(options, a), v, "setting " + a)
        yield
    finally:
        for a, v in zip(ATTRS, DEFAULTS):
            setattr(options, a, v)


class Reader(HTMLParser):
    """Structure (tags with attribute names) and the text of every cell."""

    def __init__(self, s):
        super().__init__(convert_charrefs=True)
        self.structure, self.stack, self.rows, self.text, self.section, self.heads = [], [], [], [], None, []
        self.hrefs = []
        self.feed(s)
        self.close()
        same(self.stack, [], "unclosed tags")

    def handle_starttag(self, tag, attrs):
        self.structure.append((tag, tuple(sorted(a for a, _ in attrs))))
        self.stack.append(tag)
        if tag in ("thead", "tbody"):
            self.section = tag
        if tag == "tr":
            (self.rows if self.section == "tbody" else self.heads).append([])
        if tag in ("td", "th"):
            (self.rows if self.section == "tbody" else self.heads)[-1].append("")
        if tag == "a":
            self.hrefs.append(dict(attrs).get("href"))

    def handle_endtag(self, tag):
        ensure(self.stack and self.stack[-1] == tag, "closing tag %s inside %s", tag, self.stack)
        self.structure.append("/" + tag)
        self.stack.pop()

    def handle_data(self, data):
        self.text.append(data)
        if "td" in self.stack or "th" in self.stack:
            (self.rows if self.section == "tbody" else self.heads)[-1][-1] += data

    def handle_comment(self, data):
        raise core.Violation("a comment in the HTML: %s" % short(data))

    handle_decl = handle_pi = unknown_decl = handle_comment


FIELDS = ["fa", "fb", "fc"]


def objects(layer, fields):
    """(name, object, expected nodes, expected fields, columns only) for everything that shows nodes of a layer."""
    from docria.model import NodeSpan, NodeList
    nodes = list(layer)
    out = [("layer", layer, nodes), ("list", layer.to_list(), nodes), ("query", layer[lambda n: True], nodes),
           ("reversed list", NodeList(nodes[::-1], fieldtypes=layer.fieldtypes), nodes[::-1]), ("slice", layer[:], nodes),
           ("query of every other", layer[lambda n: nodes.index(n) % 2 == 0], nodes[::2])]
    if nodes:
        out.append(("node span", NodeSpan(nodes[0], nodes[-1]), nodes))
        out.append(("part of a node span", NodeSpan(nodes[len(nodes) // 2], nodes[-1]), nodes[len(nodes) // 2:]))
    if len(nodes) < 7:
        out.append(("built list", NodeList(nodes), nodes))
    res = [(w, o, n, fields) for w, o, n in out if n or w != "built list"]
    for w, o, n in (out[0], out[1], out[2]) + ((out[6],) if nodes else ()):
        for f in fields[:2]:
            res.append(("column %s of %s" % (f, w), o[f], n, [f]))
    return res


TOKEN = re.compile(r"T(\d+)_(f[a-z])")


def shown(what, rows, nodes, field, limit):
    """rows: labels of the nodes shown for one field, in order of appearance."""
    want = [n["k"] for n in nodes]
    if limit is None or len(want) <= limit:
        same(rows, want, "%s, field %s" % (what, field))
        return
    for head in range(len(rows) + 1):
        if rows[:head] == want[:head] and rows[head:] == want[len(want) - (len(rows) - head):]:
            if limit == 1 or 0 < head < len(rows):
                break
    else:
        raise core.Violation("%s, field %s: rows %s are not the first and the last of %s" % (what, field, short(rows), short(want)))
    ensure(limit - 1 <= len(rows) <= limit, "%s, field %s: %d rows shown with row limit %d", what, field, len(rows), limit)


def check_tokens(what, obj, nodes, fields, limit, wide):
    s = str(obj)
    ensure(isinstance(s, str), "%s: text is a %s", what, type(s).__name__)
    ensure(isinstance(repr(obj), str), "%s: repr", what)
    if isinstance(obj, list):
        same(repr(obj), repr([n for n in obj]), what + ": repr of a list of nodes")
    html = obj._repr_html_()
    r = Reader(html)
    core.step(2)
    if not wide:
        return s, html
    hits = TOKEN.findall(s)
    for f in fields:
        shown(what + " as text", [int(k) for k, g in hits if g == f], nodes, f, limit)
        ensure(f in s, "%s: field name %s is not in the text", what, f)
    cut = limit is not None and len(nodes) > limit
    if cut and limit > 1:
        lines = s.split("\n")
        pos = [i for i, l in enumerate(lines) if TOKEN.search(l)]
        mark = [i for i, l in enumerate(lines) if l.strip() and set(l.strip()) <= set(". …") and l.strip(" ")]
        ensure(any(pos[0] < m < pos[-1] for m in mark), "%s: no marker between first and last rows in %s", what, short(s))
    body = [row for row in r.rows]
    toks = [[TOKEN.search(c) for c in row] for row in body]
    for f in fields:
        shown(what + " as HTML", [int(m.group(1)) for row in toks for m in row if m and m.group(2) == f], nodes, f, limit)
        ensure(any(f in c for row in r.heads for c in row), "%s: field name %s is not in the HTML head", what, f)
    blank = [i for i, row in enumerate(toks) if not any(row)]
    if cut and limit > 1:
        ensure(len(blank) == 1 and 0 < blank[0] < len(body) - 1, "%s: marker row in HTML at %s of %d", what, blank, len(body))
    elif not cut:
        same(len(body), len(nodes), what + ": rows in HTML")
    # one row per node: all its fields side by side
    for row in toks:
        same(len({m.group(1) for m in row if m}) <= 1, True, what + ": a row mixes nodes")
    return s, html


def gen_rows():
    t = core.thorough()
    sizes = list(range(0, 12))
    for limit in (None, 1, 2, 3, 4, 5, 6, 7, 10):
        for n in sizes:
            for gaps in (0, 1, 2):
                for width in ((None, None), (30, 120), (None, 20), (None, 11)) if t or gaps == 0 else ((30, None),):
                    yield n, limit, gaps, width
    for n in (98, 99, 100, 101, 102, 150, 200, 201):
        for gaps in (0, 2):
            yield n, 100, gaps, (30, 120)
            yield n, None, gaps, (30, 120)
    for n in range(95, 110):
        for limit in (98, 99, 100, 101):
            yield n, limit, 1, (30, 120)


def token_layer(n, gaps):
    from docria.model import Document, DataTypes as T
    doc = Document(p="q")
    doc.maintext = "abc"
    layer = doc.add_layer("lay", k=T.int32(None), **{f: T.string(None) for f in FIELDS})
    i = 0
    while len(layer) < n:
        node = layer.add(k=i, **{f: "T%d_%s" % (i, f) for f in FIELDS})
        i += 1
        if gaps and i % (gaps * 3) == 0:
            layer.remove(node)
    return doc, layer


def run_rows(case):
    n, limit, gaps, width = case
    doc, layer = token_layer(n, gaps)
    before = docs.snapshot(doc)
    out = []
    with settings((limit, 8, width[0], width[1])):
        for what, obj, nodes, fields in objects(layer, FIELDS):
            out.append(check_tokens("%s of %d nodes, row limit %s, widths %s" % (what, n, limit, width), obj, nodes, fields, limit, True))
        for i, node in enumerate(list(layer)[:3]):
            s = str(node)
            for f in FIELDS:
                ensure(f in s and "T%d_%s" % (node["k"], f) in s or limit is not None and limit < 4, "node %d: field %s is not shown", i, f)
            r = Reader(node._repr_html_())
            if limit is None or limit >= 4:
                same([row[-2] for row in r.rows], ["k"] + FIELDS, "fields of a node in HTML")
        s = str(doc)
        ensure("lay" in s and "main" in s and "abc" in s and "N=%d" % n in s, "document: %s", s)
    same(docs.snapshot(doc), before, "the document after rendering")
    return core.h64(out)


def gen_settings():
    rows, cols = (None, 1, 2, 5, 100), (None, 1, 2, 8, 1000)
    colw, dispw = (None, 7, 8, 9, 10, 30, 200), (None, 11, 12, 20, 40, 120, 1000)
    for r, c, w, d in itertools.product(rows, cols, colw, dispw):
        yield r, c, w, d


def world():
    from docria.model import Document, DataTypes as T, Node, NodeSpan, NodeList, ExtData
    from docria.codec import MsgpackDocumentExt
    doc = Document(title="t", n=[1, {"a": None}])
    doc.maintext = "abc \U0001F600 def" * 5
    doc.add_text("alt", "")
    a = doc.add_layer("a", i=T.int32(None), j=T.int64(None), f=T.float64(None), b=T.bool(None), s=T.string(None), y=T.binary, t=T.span("main"),
                      r=T.noderef("b"), m=T.noderef_many("b"), n=T.nodespan("b"), e=T.ext("blob"), d=T.ext("doc"))
    b = doc.add_layer("b", v=T.string(None), text=T.span("main"))
    e = doc.add_layer("empty", z=T.int32)
    bare = doc.add_layer("bare")
    bs = [b.add(v="x" * i, text=doc.maintext[i:i + 3]) for i in range(7)]
    b.remove(bs.pop(2))
    ext = MsgpackDocumentExt(Document(inner=1))
    full = dict(i=-1, j=1 << 40, f=0.1, b=True, s="line\nbreak " * 9, y=b"\x00<\xff", t=doc.maintext[0:9], r=bs[0], m=bs[:3], n=NodeSpan(bs[0], bs[2]),
                e=ExtData("blob", b"zz"), d=ext)
    nodes = [a.add(**full), a.add(), a.add(s="", m=[], t=doc.maintext[2:2]), a.add(m=[bs[0]])]
    bare.add(), bare.add()
    lone = Node(x=1, r=bs[0], l=[bs[0], bs[1]], q=[Node(a=1), Node()], s="<>")
    dead = a.add(**full)
    a.remove(dead)
    objs = [Node(z=None, k=1), a, b, e, bare, nodes[0], nodes[1], lone, Node(), dead, NodeList([lone]), NodeList([lone, Node()], fieldtypes={}), NodeList(), a[:],
            b[1:3], a.to_list(), NodeList([nodes[0], bs[0], Node(q=1)]), NodeSpan(bs[0], bs[3]), NodeSpan(nodes[0], nodes[1]), b[b["v"] != "xx"], a[a["i"] == -1],
            a[a["i"] == 5], bare.first(), bare.to_list(), NodeSpan(bare.first(), bare.last()), bare[lambda n: True]]
    objs += [a[f] for f in a.schema.fields] + [b["v"], e["z"], b[1:3]["v"], NodeSpan(bs[0], bs[3])["text"], b[b["v"] != "xx"]["v"]]
    objs += [doc.maintext, doc.texts["alt"]]
    plain = [doc, doc.maintext[0:5], doc.maintext[3:3], a.schema.fields["i"], a.schema.fields["r"], full["e"], a["i"] == 3, (a["i"] > 1) & (a["s"] == "x")]
    return doc, objs, plain


def run_settings(values):
    doc, objs, plain = world()
    before = docs.snapshot(doc, objs)
    out = []
    with settings(values):
        for o in objs:
            core.step(2)
            s, h = str(o), o._repr_html_()
            ensure(isinstance(s, str) and isinstance(h, str) and isinstance(repr(o), str), "rendering of %s is no string", type(o).__name__)
            r = Reader(h)
            ensure({t[0] for t in r.structure if isinstance(t, tuple)} <= {"table", "thead", "tbody", "tr", "th", "td", "em", "h3", "pre"},
                   "unexpected tags in %s", short(h))
            out.append((s, h))
        for o in plain:
            ensure(isinstance(str(o), str) and isinstance(repr(o), str), "rendering of %s is no string", type(o).__name__)
        with contextlib.redirect_stdout(io.StringIO()) as f:
            doc.printschema()
        for layer in doc.layers.values():
            ensure("[%s]" % layer.name in f.getvalue() and all(x in f.getvalue() for x in layer.schema.fields), "printed schema lacks %s", layer.name)
    same(docs.snapshot(doc, objs), before, "the document after rendering")
    # which nodes are shown does not depend on the widths
    return core.h64(out)


def gen_bad_settings():
    for a in ATTRS:
        low = {"max_rows": 0, "max_columns": 0, "max_column_width": 6, "max_display_width": 10}[a]
        for v in (low, low - 1, -1, 0, -100):
            yield a, v


def run_bad_settings(case):
    from docria.printout import options
    a, v = case
    before = [getattr(options, x) for x in ATTRS]
    refused(lambda: setattr(options, a, v), "setting %s to %d" % (a, v))
    same([getattr(options, x) for x in ATTRS], before, "settings after a refused one")
    return case


CHARS = ["<", ">", "&", "'", '"', "a", "\n", "\\", "%", "{", "}", ";", ":"]
HOSTILE = ["<b>", "</td>", "</table><script>alert(1)</script>", "<script>", "&lt;", "&#60;b&#62;", "' onmouseover='x", '" onmouseover="x', "<!--", "-->",
           "<img src=x onerror=y>", "]]>", "<?php", "%s%d", "{0}", "urn:wikidata:Q1", "urn:wikidata:<b>", "urn:wikidata:' onclick='x",
           "urn:wikipedia:sv:<i>'\"", "urn:wikipedia:<b>:x", "urn:wikipedia:' x='y", "urn:wikipedia:sv", "urn:other:<b>", "urn:wikidata:Q5:6", "urn:wikipedia:sv:A:b", "urn:WikiPedia:en:C", "urn:WIKIDATA:'><script>",
           "</em><b>", "</pre></h3><b>", "\x00<b>", "\u2028<b>", "<" * 40, "'" * 40, "&amp;" * 12, "<b>" * 9]


def gen_hostile():
    for s in HOSTILE:
        yield s
    n = 3 if core.thorough() else 2
    for k in range(1, n + 1):
        for c in itertools.product(CHARS, repeat=k):
            yield "".join(c)
    # every special character at every place around the truncation of a long string
    for pos in range(0, 34):
        for c in "<&'":
            yield "x" * pos + c + "y" * (33 - pos)


def harmless(s):
    return re.sub(r"[^a-zA-Z0-9:]", "_", s)


def hostile_world(s):
    """All objects whose rendering can contain a piece of content, with `s` in every place."""
    from docria.model import Document, DataTypes as T, Node, NodeList, NodeSpan, ExtData
    doc = Document()
    doc.props[s] = s
    text = doc.add_text(s, s + s)
    f = s or "f"
    a = doc.add_layer(s, **{f: T.string(None), f + "t": T.span(s), f + "r": T.noderef(s), f + "m": T.noderef_many(s), f + "y": T.binary, f + "e": T.ext(s)})
    n1 = a.add(**{f: s, f + "t": text[0:len(s)], f + "y": s.encode("utf-8", "surrogatepass")})
    n2 = a.add(**{f: s + s, f + "r": n1, f + "m": [n1, n1]})
    n3 = a.add(**{f: "p" + s, f + "m": [n2], f + "e": ExtData(s, s.encode("utf-8", "surrogatepass"))})
    lone = Node(**{f: s, f + "r": n1, f + "z": text[0:len(s)]})
    span = NodeSpan(n1, n2)
    q = a[a[f] == s]
    objs = [a, a.to_list(), span, q, n1, n2, n3, lone, NodeList([lone, n1]), NodeList([lone]), a[lambda n: True], text]
    objs += [x[g] for x in (a, a.to_list(), span, q) for g in (f, f + "t", f + "r", f + "m")]
    return doc, objs, s


def cut_down(cell, s, width):
    """A cell shows the whole string or its beginning and its end around a marker, nothing that is not in the string."""
    if cell == s:
        return
    ensure(width is not None, "the cell of %r shows %r", s, cell)
    for k in range(1, len(cell)):
        rest = cell[k:]
        tail = rest.lstrip(" .\u2026")
        while len(tail) <= len(rest):
            if cell[:k] == s[:k] and tail and s.endswith(tail) and len(tail) < len(rest):
                ensure(len(cell) <= width + 5, "the cell of %r is longer than the column: %r", s, cell)
                return
            if len(tail) == len(rest):
                break
            tail = rest[len(rest) - len(tail) - 1:]
    raise core.Violation("the cell of %r shows %r, not its beginning and end" % (s, cell))


def target(x):
    """The page a URN names, None if it is none of the two kinds that are linked."""
    m = re.fullmatch(r"urn:(wikidata|wikipedia):(.+)", x, re.IGNORECASE)
    if m is None or not x.startswith("urn:"):
        return None
    if m.group(1).lower() == "wikidata":
        return "https://www.wikidata.org/wiki/" + m.group(2)
    lang, colon, title = m.group(2).partition(":")
    return "https://%s.wikipedia.org/wiki/%s" % (lang, title) if colon else None


def run_hostile(s):
    doc, objs, _ = hostile_world(s)
    _, tame, _ = hostile_world(harmless(s))
    before = docs.snapshot(doc, objs)
    out = []
    targets = {target(x) for x in [s, s + s, "p" + s] + [s + x for x in "trmyez"]} - {None}
    for values in (DEFAULTS, (None, None, None, None), (2, 8, 7, 11), (100, 8, 12, None)):
        with settings(values):
            for o, p in zip(objs, tame):
                core.step(2)
                h, t = o._repr_html_(), p._repr_html_()
                r, q = Reader(h), Reader(t)
                if "urn:" not in s.lower():
                    same(r.structure, q.structure, "structure of the HTML of a %s with content %r" % (type(o).__name__, s))
                else:
                    bad = [x for x in r.structure if isinstance(x, tuple) and x not in q.structure and x != ("a", ("href",))]
                    same(bad, [], "unexpected tags in the HTML of a %s with content %r" % (type(o).__name__, s))
                    ensure(set(r.hrefs) <= targets, "the HTML of a %s with content %r links to %s", type(o).__name__, s, r.hrefs)
                same(len(r.rows), len(q.rows), "rows of the HTML of a %s with content %r" % (type(o).__name__, s))
                ensure(isinstance(str(o), str) and isinstance(repr(o), str), "rendering of %s is no string", type(o).__name__)
                out.append(h)
            ensure(isinstance(str(doc), str) and isinstance(repr(doc), str), "rendering of the document is no string")
            with contextlib.redirect_stdout(io.StringIO()):
                doc.printschema()
            if "\x00" not in s and "\r" not in s and values[0] != 2:
                links = Reader(objs[12]._repr_html_()).hrefs
                same(links, [t for t in map(target, (s, s, s + s, "p" + s)) if t], "links of a column headed by and with the strings %r" % s)
                for i, x in enumerate((s, s + s, "p" + s)):
                    cut_down(Reader(objs[12]._repr_html_()).rows[i][-1], x, values[2])
            if values[2] is None and "\x00" not in s and "\r" not in s and "\n" not in s:
                # nothing truncated: the column shows the string itself, the text shows all of it
                r = Reader(objs[12]._repr_html_())
                same([row[-1] for row in r.rows], [s, s + s, "p" + s], "column of strings in HTML")
                ensure((s + s) in "".join(Reader(objs[11]._repr_html_()).text), "text %r in HTML", s)
                ensure(repr(s) in "".join(Reader(objs[4]._repr_html_()).text), "value %r in the HTML of its node", s)
    same(docs.snapshot(doc, objs), before, "the document after rendering")
    return core.h64(out)


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "rows", gen_rows, run_rows, bound="layers of 0-11 and 95-201 nodes with gaps x row limits x widths x 18 object kinds")
    core.enumerate_cases(rep, "settings", gen_settings, run_settings, bound="all combinations of 5 x 5 x 7 x 7 settings x 45 objects")
    core.enumerate_cases(rep, "refused settings", gen_bad_settings, run_bad_settings, bound="values below the limits")
    core.enumerate_cases(rep, "hostile content", gen_hostile, run_hostile, bound="%d hostile strings, all of up to %d of %d characters, in every place" % (
        len(HOSTILE) + 102, 3 if t else 2, len(CHARS)))
