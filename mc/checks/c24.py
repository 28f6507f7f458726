"""C24: XML export parses, and everything can be read back from it."""
import base64
import itertools
import re
from mc import core, docs
from mc.core import same, ensure, short

LEVEL = "exploration"
RULE = "every document of the bounded spaces in mc/docs.py and of hostile-string spaces, exported with every option combination, is parsed " \
       "with an independent parser and read back against the spec; distinct_nontrivial counts distinct XML texts"
DEADLINE = {"quick": 240, "thorough": 820}
ASSUMPTIONS = ["field names are identifiers (they become XML attribute names)"]

XMLID = "{http://www.w3.org/XML/1998/namespace}id"
BAD = re.compile("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")


def text_eq(got, want, what):
    """Equal except that every character XML cannot represent is replaced by one that it can."""
    ok = isinstance(got, str) and len(got) == len(want) and all(
        g == w or (BAD.match(w) and not BAD.match(g)) for g, w in zip(got, want))
    ensure(ok, "%s: got %s, expected %s", what, short(got), short(want))


def read_text(el, verbose, what, want):
    segs = el.find("sep").findall("s")
    bounds, pos = [0], 0
    for i, s in enumerate(segs):
        if verbose:
            same((s.get("id"), s.get("start"), s.get("stop")), (str(i), str(pos), str(pos + len(s.get("v")))), "%s: segment %d" % (what, i))
        pos += len(s.get("v"))
        bounds.append(pos)
    text_eq("".join(s.get("v") for s in segs), want, what)
    if verbose:
        text_eq(el.find("raw").get("value"), want, what + ": raw")
    return bounds


def judge(root, spec, verbose, spans, docid):
    props, texts, layers = spec
    same(root.tag, "document", "root element")
    prefix = docid + "." if docid else ""
    if docid:
        same(root.get(XMLID), docid, "identifier of the document")
    got = root.find("props").findall("prop")
    same(len(got), len(props), "number of properties")
    for el, (k, v) in zip(got, props.items()):
        text_eq(el.get("key"), k, "property key")
        if isinstance(v, (str, int, float, bool)):
            text_eq(el.get("value"), str(v), "property %r" % k)
        else:
            ensure(el.get("value") is not None, "property %r has no value", k)
    defs = root.find("schema").findall("define")
    same(len(defs), len(layers), "number of layer definitions")
    for el, (name, fields, _) in zip(defs, layers):
        text_eq(el.get("layer"), name, "layer definition")
        same([f.get("name") for f in el.findall("field")], [f for f, _ in fields], "fields of layer %r" % name)
        for f, (field, t) in zip(el.findall("field"), fields):
            same(f.get("type"), docs.NAME[t[0]], "type of field %s of layer %r" % (field, name))
            args = {a.get("key"): a.get("value") for a in f.findall("arg")}
            want = {} if t[0] == "bin" else {docs.OPT[t[0]]: t[1]} if t[0] in docs.OPT else {} if t[1] is None else {"default": t[1]}
            same(sorted(args), sorted(want), "options of field %s of layer %r" % (field, name))
            for k, v in want.items():
                text_eq(args[k], str(v), "option %s of field %s of layer %r" % (k, field, name))
    els = root.find("texts").findall("text")
    same(len(els), len(texts), "number of texts")
    bounds = {}
    for el, (name, text) in zip(els, texts):
        text_eq(el.get("name"), name, "text name")
        bounds[name] = read_text(el, verbose, "text %r" % name, text)
    strings = dict(texts)
    els = root.find("layers").findall("layer")
    same(len(els), len(layers), "number of layers")
    ids = set()
    for el, (name, fields, rows) in zip(els, layers):
        text_eq(el.get("name"), name, "layer name")
        nodes = el.findall("n")
        same(len(nodes), len(rows), "number of nodes in layer %r" % name)
        types = dict(fields)
        for i, (n, row) in enumerate(zip(nodes, rows)):
            what = "node %d of layer %r" % (i, name)
            text_eq(n.get(XMLID), "%s%s.%d" % (prefix, name, i), what + ": identifier")
            ids.add((name, n.get(XMLID)))
            seen = {k: v for k, v in n.attrib.items() if k != XMLID}
            emb = {}
            for d in n.findall("d"):
                ensure(d.get("name") not in emb, "%s: span %s twice", what, d.get("name"))
                emb[d.get("name")] = d
            arr = {a.get("name"): [e.get("v") for e in a.findall("e")] for a in n.findall("a")}
            extra = {t.get("key"): t.get("value") for t in n.findall("t")}
            same(sorted(list(seen) + list(emb) + list(arr)), sorted(f for f in row if True), what + ": fields")
            for f, v in row.items():
                k = types[f][0]
                w = "%s: field %s" % (what, f)
                if k == "span":
                    a, b = bounds[v[1]][int(emb[f].get("from"))], bounds[v[1]][int(emb[f].get("until"))]
                    same((a, b), (v[2], v[3]), w)
                elif k == "nspan":
                    for end, x in (("from", v[2]), ("to", v[3])):
                        ref = emb[f].get(end)
                        if prefix and ref.startswith(prefix) and not v[1].startswith(prefix):
                            ref = ref[len(prefix):]
                        text_eq(ref, "%s.%d" % (v[1], x), w)
                elif k == "refs":
                    same([int(x) for x in arr[f]], list(v[2]), w)
                elif k == "ref":
                    same(int(seen[f]), v[2], w)
                elif k in ("i32", "i64"):
                    same(int(seen[f]), v, w)
                elif k == "f64":
                    same(repr(float(seen[f])), repr(v), w)
                elif k == "bool":
                    same(seen[f].lower(), str(v).lower(), w)
                elif k == "str":
                    text_eq(seen[f], v, w)
                elif k == "bin":
                    same(base64.b64decode(seen[f], validate=True), v, w)
                elif v[0] == "ext":
                    same(base64.b64decode(seen[f], validate=True), v[2], w)
                else:
                    from docria.codec import MsgpackCodec
                    docs.compare(MsgpackCodec.decode(base64.b64decode(seen[f], validate=True)), v[1], w)
            if spans:
                want = {f: strings[v[1]][v[2]:v[3]] for f, v in row.items() if types[f][0] == "span"}
                same(sorted(extra), sorted(want), what + ": materialised spans")
                for f in want:
                    text_eq(extra[f], want[f], what + ": materialised span " + f)
    same(len(ids), sum(len(rows) for _, _, rows in layers), "distinct identifiers")


OPTIONS = [(v, s, d) for v in (False, True) for s in (False, True) for d in ("", "d1")]


def export(spec, opts, how="bulk", full=True):
    import xml.etree.ElementTree as ET
    from xml.dom import minidom
    from docria.codec import XmlCodec
    doc = docs.build(spec, how)
    out = None
    for verbose, spans, docid in opts:
        core.step()
        kw = dict(verbose=verbose, verbose_node_spans=spans)
        if docid:
            kw["document_id"] = docid
        s = XmlCodec.encode_utf8string(doc, **kw)
        ensure(isinstance(s, str), "export gives %r", type(s))
        root = ET.fromstring(s.encode("utf-8"))
        judge(root, spec, verbose, spans, docid)
        if full:
            judge(XmlCodec.encode_tree(doc, **kw).getroot(), spec, verbose, spans, docid)
        out = s
    docs.compare(doc, spec, "the document after the export", drop_empty=False)
    return core.h64(out)


def gen_specs():
    for gen in (lambda: docs.scalars(False), lambda: docs.properties(False), docs.byte_properties, docs.texts, docs.references, docs.arrays,
                docs.nodespans, lambda: docs.sizes(False), docs.embedded, docs.mixed):
        yield from gen()


def run_specs(spec):
    big = sum(len(t) for _, t in spec[1]) + sum(len(r) for _, _, r in spec[2]) > 2000
    return export(spec, OPTIONS if core.thorough() or not big else OPTIONS[:1] + OPTIONS[-1:], full=not big)


CHARS = ["a", "<", ">", "&", "'", '"', "\n", "\t", "\r", "\r\n", " ", "\x00", "\x08", "\x0b", "\x1f", "\x7f", "\x85", "\u2028", "\ud7ff", "\ue000",
         "\ufffd", "\ufffe", "\uffff", "\U00010000", "\U0001F600", "\U0010FFFF", "&amp;", "]]>", "<!--", "&#0;", "%s", "{}"]


def gen_strings():
    n = 3 if core.thorough() else 2
    for k in range(1, n + 1):
        for c in itertools.product(CHARS, repeat=k):
            yield "".join(c)


def run_strings(s):
    """One hostile string in every place a document has for strings."""
    n = len(s)
    spec = ({s: s, "k": "a" + s}, (("main", s + "x" + s), (s + "t", s)),
            ((s + "l", (("f", ("str", s)), ("g", ("span", "main")), ("r", ("ref", s + "l")), ("h", ("span", s + "t")), ("n", ("nspan", s + "l"))),
              ({"f": s, "g": ("span", "main", 0, n), "r": ("ref", s + "l", 1), "h": ("span", s + "t", 0, n)},
               {"f": s + s, "g": ("span", "main", n, n + 1), "n": ("nspan", s + "l", 0, 2)},
               {"f": "plain", "g": ("span", "main", n + 1, n + 1 + n)})),))
    return export(spec, [(False, False, ""), (True, True, "d")])


def gen_gaps():
    for s in docs.mixed():
        yield s
    for g in (docs.references, docs.nodespans):
        for i, s in enumerate(g()):
            if core.thorough() or i % 3 == 0:
                yield s


def run_gaps(spec):
    """The same documents after edits that left gaps or reordered the layers."""
    export(spec, OPTIONS[:1], "holes", False)
    return export(spec, OPTIONS[-1:], "sorted", False)


def gen_chars():
    """Every code point at the edges of the XML character classes, and all below U+0100."""
    edge = list(range(0x100)) + [0x2028, 0x2029, 0xFEFF]
    for p in range(17):
        edge += [p * 0x10000 + x for x in (0, 1, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF)]
    for c in sorted(set(edge)):
        if not 0xD800 <= c < 0xE000:
            yield c


def run_chars(c):
    ch = chr(c)
    spec = ({"k": ch}, (("main", "a" + ch + "b"),), (("l", (("f", ("str", None)), ("g", ("span", "main"))),
                                                     ({"f": ch}, {"f": "x" + ch + "y", "g": ("span", "main", 1, 2)}, {"f": "z", "g": ("span", "main", 2, 3)})),))
    return export(spec, OPTIONS)


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "specs", gen_specs, run_specs, bound="bounded document spaces x all 8 option combinations")
    core.enumerate_cases(rep, "strings", gen_strings, run_strings, bound="all sequences of up to %d of %d hostile strings" % (3 if t else 2, len(CHARS)))
    core.enumerate_cases(rep, "characters", gen_chars, run_chars, bound="code points at class edges and all below U+0100")
    core.enumerate_cases(rep, "edited", gen_gaps, run_gaps, bound="documents with gaps and after sorting")
