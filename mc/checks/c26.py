"""C26: every truncation of an encoded document is refused, lazily and eagerly."""
import io
import itertools
import json
import pickle
from mc import core, docs
from mc.core import same, ensure, refused, short
from mc.checks.c12 import project, unordered

LEVEL = "fault_enumeration"
RULE = "every byte prefix of every encoding of a bounded space of documents, and every one-byte change of the header, is given to every way " \
       "of decoding; each must raise, except that sections asked for alone may be returned if they are the complete originals; " \
       "distinct_nontrivial counts distinct (document, prefix length) pairs"
DEADLINE = {"quick": 300, "thorough": 820}

INNER = ({"i": 1}, (("main", "in"),), (("l", (("s", ("span", "main")),), ({"s": ("span", "main", 0, 2)},)),))
EVERY = ({"a": 1, "b": "é", "c": [None, {"x": 2.5}]}, (("main", "a\U0001F600bc"), ("alt", "")),
         (("m", (("i", ("i32", 7)), ("j", ("i64", None)), ("f", ("f64", None)), ("b", ("bool", None)), ("s", ("str", "d")), ("y", ("bin",)),
                 ("t", ("span", "main")), ("r", ("ref", "k")), ("a", ("refs", "m")), ("n", ("nspan", "k")), ("e", ("ext", "blob")), ("d", ("ext", "doc"))),
           ({"i": -7, "j": 1 << 40, "f": 2.5, "b": True, "s": "é", "y": b"\x00\xff", "t": ("span", "main", 1, 3), "r": ("ref", "k", 1),
             "a": ("refs", "m", (1, 0)), "n": ("nspan", "k", 0, 1), "e": ("ext", "blob", b"DM_1"), "d": ("doc", INNER)}, {})),
          ("k", (("v", ("str", None)),), ({"v": "x"}, {"v": "y" * 40})),
          ("z", (), ({}, {}))))


def specs():
    t = core.thorough()
    yield ({}, (), ())
    yield EVERY
    yield ({"k": list(range(20))}, (), ())
    yield ({}, (("main", ""),), ())
    yield ({}, (("main", "x" * 70), ("alt", "\U0001F600" * 9)), ())
    yield ({}, (), (("z", (), ()),))
    yield ({}, (), (("z", (), ({}, {}, {})),))
    yield ({}, (), tuple(("l%d" % i, (("v", ("i32", None)),), ({"v": i},)) for i in range(17)))
    yield ({}, (), (("a", (("v", ("i32", None)), ("w", ("str", None))), tuple({"v": i * 1000, "w": "s" * i} for i in range(20))), ("b", (), ())))
    for g in (docs.texts, docs.references, docs.arrays, docs.nodespans, docs.embedded, docs.byte_properties, docs.names,
              lambda: docs.properties(False), docs.mixed, lambda: docs.scalars(False)):
        step = 1 if g in (docs.embedded, docs.names) or t else 3 if g in (docs.arrays, docs.byte_properties) else 11 if g != docs.mixed else 61
        for i, s in enumerate(g()):
            if i % step == 0:
                yield s



def accessors(d, spec, full):
    """Partial access: exactly the original section, or an error."""
    props, texts, layers = spec
    names = [l[0] for l in layers]

    def layer_doc(*some):
        def read():
            doc = d.document(*some)
            same(unordered(docs.observed(doc, True)), unordered(docs.expected(project(spec, some), True)), "layers %s of a truncated encoding" % (some,))
        return read

    def get_props(*some):
        def read():
            same(docs.canon(d.properties(*some)), docs.canon({a: b for a, b in props.items() if not some or a in some}), "properties of a truncated encoding")
        return read

    def get_texts(*some):
        def read():
            same({a: "".join(b) for a, b in d.texts(*some).items()}, {a: b for a, b in texts if not some or a in some}, "texts of a truncated encoding")
        return read

    def schema():
        types, sch = d.schema()
        same(list(types), names, "layers of a truncated encoding")
        for name, fields, _ in layers:
            same([(f, t.typename, t.options) for f, t in sch[name]],
                 [(f, docs.make_type(t).typename, docs.make_type(t).options) for f, t in fields], "schema of a truncated encoding")
    out = [get_props(), get_texts(), schema]
    out += [get_props(k) for k in list(props)[:2]] + [get_texts(k) for k, _ in texts[:2]]
    if len(names) > 1:
        out += [layer_doc(names[0]), layer_doc(names[-1])]
    return out


def gen_prefix():
    return specs()


def run_prefix(spec):
    from docria.codec import MsgpackCodec, MsgpackDocument
    data = MsgpackCodec.encode(docs.build(spec))
    if len(data) > 20000:
        return None
    docs.compare(MsgpackCodec.decode(data), spec, "the whole encoding")
    docs.compare(MsgpackDocument(data).document(), spec, "the whole encoding, lazily")
    cuts = range(len(data)) if len(data) <= (6000 if core.thorough() else 1500) else \
        sorted(set(range(300)) | set(range(len(data) - 300, len(data))) | set(range(0, len(data), len(data) // 200)))
    for n in cuts:
        p = data[:n]
        what = "%d of %d bytes" % (n, len(data))
        core.step(3)
        refused(lambda: MsgpackCodec.decode(p), "decoding " + what)
        refused(lambda: MsgpackCodec.decode(io.BytesIO(p)), "decoding a stream of " + what)
        if n < 4:
            refused(lambda: MsgpackDocument(p), "a lazy document of " + what)
            refused(lambda: MsgpackDocument(io.BytesIO(p)), "a lazy document of a stream of " + what)
            continue
        try:
            d = MsgpackDocument(p)
        except Exception:
            continue
        refused(lambda: d.document(), "lazy decoding of " + what)
        for read in accessors(d, spec, False):
            core.step()
            try:
                read()
            except core.Violation:
                raise
            except Exception:
                pass
        refused(lambda: d.document(), "lazy decoding after partial access of " + what)
        if n % 5 == 0:
            refused(lambda: MsgpackDocument(io.BytesIO(p)).document(), "lazy decoding of a stream of " + what)
            refused(lambda: pickle.loads(pickle.dumps(d)).document(), "decoding a pickled lazy document of " + what)
            d2 = MsgpackDocument(p)
            for read in accessors(d2, spec, False)[::-1]:
                try:
                    read()
                except core.Violation:
                    raise
                except Exception:
                    pass
            refused(lambda: d2.document(), "lazy decoding after partial access in reverse of " + what)
    return core.h64((data, len(data)))


def gen_json():
    for s in specs():
        if not docs.has_bytes(s):
            yield s


def run_json(spec):
    from docria.codec import JsonCodec
    text = JsonCodec.encode(docs.build(spec))
    docs.compare(JsonCodec.decode(text), spec, "the whole JSON text")
    if len(text) > 100000:
        return None
    for n in range(len(text)) if len(text) < 3000 else range(0, len(text), len(text) // 500):
        core.step()
        refused(lambda: JsonCodec.decode(text[:n]), "decoding %d of %d characters of JSON" % (n, len(text)))
        if n % 3 == 0:
            refused(lambda: JsonCodec.decode(text[:n].encode()), "decoding %d of %d bytes of JSON" % (n, len(text)))
    return core.h64(text)


def gen_header():
    for pos in range(4):
        for b in range(256):
            if b != b"DM_1"[pos]:
                yield pos, b
    for junk in (b"", b"D", b"DM_", b"DM_2", b"dm_1", b"\x00" * 8, b"{}", b"DM10", b"DMf1", b"\xffDM_1", b" DM_1", b"MD_1"):
        yield "junk", junk
    yield "shift", 1


def run_header(case):
    from docria.codec import MsgpackCodec, MsgpackDocument
    for spec in (EVERY, ({}, (), ()), ({"a": 1}, (("main", "abc"),), ())):
        data = MsgpackCodec.encode(docs.build(spec))
        if case[0] == "junk":
            variants = [case[1], case[1] + data, case[1] + data[4:]]
            variants = [v for v in variants if v[:4] != b"DM_1"]
        elif case[0] == "shift":
            variants = [data[i:] for i in range(1, len(data))]
            variants = [v for v in variants if v[:4] != b"DM_1"]
        else:
            v = bytearray(data)
            v[case[0]] = case[1]
            variants = [bytes(v)]
        for v in variants:
            core.step(4)
            what = "input starting with %r" % v[:6]
            refused(lambda: MsgpackCodec.decode(v), "decoding " + what)
            refused(lambda: MsgpackCodec.decode(io.BytesIO(v)), "decoding a stream of " + what)
            refused(lambda: MsgpackDocument(v).document(), "lazy decoding of " + what)
            refused(lambda: MsgpackDocument(io.BytesIO(v)).properties(), "lazy access to " + what)
    return case


def gen_json_header():
    for h in ("", "DM1", "DM_1", "DM11", "dm10", "DM100", "DM 10", "DM1O", "props"):
        yield ("key", h)
    for v in ("[]", "1", '"DM10"', "null", "true", "{}", '{"a": {"DM10": {}}}', '["DM10"]', '[{"DM10": {}}]', "", " ", "DM10", '{"DM10": null}', '{"DM10": []}', '{"DM10": {}}',
              '{"DM10": 1}', '{"DM10": "x"}'):
        yield ("text", v)
    for k in ("props", "texts", "num_nodes", "types", "schema"):
        yield ("without", k)


def run_json_header(case):
    from docria.codec import JsonCodec
    spec = ({"a": 1}, (("main", "abc"),), (("l", (("v", ("i32", None)),), ({"v": 1},)),))
    obj = json.loads(JsonCodec.encode(docs.build(spec)))
    if case[0] == "text":
        text = case[1]
    elif case[0] == "key":
        text = json.dumps({case[1]: obj[next(iter(obj))]})
    else:
        del obj[next(iter(obj))][case[1]]
        text = json.dumps(obj)
    refused(lambda: JsonCodec.decode(text), "decoding JSON %s" % short(text))
    return case



def run_embedded(spec):
    """A truncated document inside a whole one (extension of type doc) is refused with it."""
    from docria.codec import MsgpackCodec, MsgpackDocument
    from docria.model import Document, DataTypes as T, ExtData
    inner = MsgpackCodec.encode(docs.build(spec))
    for n in range(0, len(inner), 1 if len(inner) < 300 else 7):
        core.step(2)
        doc = Document()
        layer = doc.add_layer("l", d=T.ext("doc"))
        try:
            layer.add(d=ExtData("doc", inner[:n]))
            data = MsgpackCodec.encode(doc)
        except Exception:
            continue
        for what, fn in (("decoding", lambda: MsgpackCodec.decode(data)), ("lazy decoding", lambda: MsgpackDocument(data).document())):
            try:
                back = fn()
                v = back["l"].first()["d"]
                v = v.decode() if isinstance(v, ExtData) else v
            except Exception:
                continue
            raise core.Violation("%s a document with an embedded one of %d of %d bytes returned %s" % (what, n, len(inner), short(v)))
    return core.h64(inner)


def gen_embedded():
    for i, s in enumerate(specs()):
        if i < 9 or i % 40 == 0:
            yield s


def main(rep):
    t = core.thorough()
    core.enumerate_cases(rep, "prefixes", gen_prefix, run_prefix, bound="every prefix, all at once, from bytes, streams, pickles and after partial access")
    core.enumerate_cases(rep, "JSON prefixes", gen_json, run_json, bound="every prefix of every JSON text")
    core.enumerate_cases(rep, "header", gen_header, run_header, bound="every one-byte change of the header and shifted inputs")
    core.enumerate_cases(rep, "JSON header", gen_json_header, run_json_header, bound="wrong keys, shapes and missing sections")
    core.enumerate_cases(rep, "embedded", gen_embedded, run_embedded, bound="every prefix of documents embedded in another")
