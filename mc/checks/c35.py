"""C35: Java documents read section by section, in any order, truncated or not."""
import itertools
import zlib
from mc import core, docs, java
from mc.core import ensure, same, short, Violation
from mc.checks.c31 import expected, check_dump, plain

LEVEL = "exploration"
RULE = "every document spec of the bounded spaces x every order of two and three questions to one lazy document; all pairs of property and other sections; every " \
       "prefix of encodings and of compressed data, asked and asked again; oracle: the spec, and an independent sectioning of the encoded bytes"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS
QUERIES = "pPsStldD"
NAMES = {"p": "properties()", "P": "propertyCompartment()", "s": "schema()", "S": "schemaCompartment()", "t": "textCompartment()", "l": "layersCompartment()",
         "d": "document()", "D": "data()", "c": "MsgpackCodec.decode"}


def sections(data):
    """Properties, schema, texts and layers of an encoded document, as ranges."""
    import msgpack
    at, cut = 4, [4]

    def one():
        nonlocal at
        u = msgpack.Unpacker(raw=False)
        u.feed(data[at:])
        v = u.unpack()
        at += u.tell()
        return v

    def block():
        nonlocal at
        n = one()
        at += n
    block()
    cut.append(at)
    layers = one()
    for _ in layers:
        for _ in range(one()):
            one()
            extended = one()
            one()
            if extended:
                one()
    cut.append(at)
    block()
    cut.append(at)
    for _ in layers:
        block()
    cut.append(at)
    same(cut[-1], len(data), "length of the encoding")
    return [data[a:b] for a, b in zip(cut, cut[1:])]


def wanted(spec, data):
    exp = expected(spec)
    if exp is None:
        return None
    p, s, t, l = sections(data)
    return {"p": exp["props"], "P": p, "s": {k: v[0] for k, v in exp["layers"].items()}, "S": s, "t": t, "l": l, "d": exp, "c": exp, "D": data}


def agree(q, got, want, what):
    if q in "dc":
        ensure(got != "error", "%s: refused", what)
        check_dump(got, want[q], what)
    elif q == "p" and got != "error":
        check_dump({"props": got, "texts": {}, "layers": {}}, {"props": want[q], "texts": {}, "layers": {}}, what)
    else:
        same(got, want[q], what)


def gen():
    for spec in docs.all_specs(core.thorough()):
        yield spec


ORDERS = ["".join(p) for p in itertools.product(QUERIES, repeat=2)]
DEEP = ["".join(p) for p in itertools.product("pPsStld", repeat=3)]


def encoding(spec):
    from docria.codec import MsgpackCodec
    return MsgpackCodec.encode(docs.build(spec))


def run(spec):
    data = encoding(spec)
    want = wanted(spec, data)
    if want is None:
        return None
    orders = ORDERS if len(data) < 3000 else ORDERS[::7]
    if len(data) < (400 if core.thorough() else 90):
        orders = orders + DEEP
    core.step(sum(map(len, orders)))
    for q, answers in java.good(java.script([[None, "raw", "orders", data, orders]])[0]).items():
        for answer, order in answers:
            agree(q, answer, want, "%s of a document asked %s" % (NAMES[q], order))
    return core.h64(spec)


SAMPLE = None


def sample():
    """Small documents with every construct."""
    global SAMPLE
    if SAMPLE is None:
        SAMPLE = [({}, (), ()), ({"a": 1}, (), ()), ({}, (("main", "ab\U0001F600"),), ()), ({}, (), (("l", (), ({}, {})),)),
                  ({"title": "x" * 40, "b": b"\x00\xff"}, (("main", "abc"), ("t", "")), (("l", (("f", ("span", "main")), ("i", ("i32", None))), ({"f": ("span", "main", 0, 2), "i": 5}, {})),)),
                  ({"n": 1 << 40, "f": 0.5, "z": True}, (("main", "abc"),), (("a", (("r", ("ref", "b")),), ({"r": ("ref", "b", 1)},)), ("b", (("s", ("str", None)), ("x", ("ext", "t"))), ({"s": "\u00e5" * 50}, {"x": ("ext", "t", b"zz")})))),
                  ({}, (("main", "y" * 300),), (("a", (("d", ("str", "none")), ("m", ("refs", "a")), ("n", ("nspan", "a"))), ({"d": "q", "m": ("refs", "a", (0, 1))}, {"n": ("nspan", "a", 0, 1)})),)),
                  ({"k%d" % i: i for i in range(20)}, (), tuple(("l%d" % i, (("i", ("i64", None)),), ({"i": i},)) for i in range(17)))]
    return SAMPLE


def gen_mix():
    for a, b in itertools.product(range(len(sample())), repeat=2):
        yield a, b


def run_mix(case):
    """Properties of one document with the other sections of another."""
    a, b = (sample()[k] for k in case)
    da, db = encoding(a), encoding(b)
    mixed = (a[0], b[1], b[2])
    pa, rest = sections(da)[0], sections(db)[1:]
    want = wanted(mixed, b"DM_1" + pa + b"".join(rest))
    out = java.good(java.script([[None, "raw", "combine", [da, db], [0, 1, 1, 1]]])[0])
    core.step(len(out))
    for q, got in zip(QUERIES, out):
        agree(q, got, want, "%s of a document made of the properties of one and the other sections of another" % NAMES[q])
    schema, types, columns, props = out[len(QUERIES):]
    same(schema, want["s"], "parseSchemaCompartment")
    same(sorted(types), sorted(want["s"]), "names of layers from parseSchemaCompartment")
    same({k: sorted(v) for k, v in columns.items()}, {k: sorted(v) for k, v in want["s"].items()}, "columns from parseSchemaCompartment")
    same(props, want["p"], "parsePropertyCompartment")
    from docria.codec import MsgpackCodec
    docs.compare(MsgpackCodec.decode(out[QUERIES.index("D")]), mixed, "the same, decoded by Python")
    return core.h64(case)


def gen_cut():
    seen = 0
    limit = 3000 if core.thorough() else 450
    for k, spec in enumerate(sample()):
        data = encoding(spec)
        for start in range(0, len(data), 40):
            yield spec, start, min(len(data), start + 40)
    for spec in docs.all_specs(False):
        if seen % (3 if core.thorough() else 12) == 0:
            data = encoding(spec)
            if len(data) <= limit and expected(spec) is not None:
                yield spec, 0, len(data)
        seen += 1


CUTS = ["pp", "PP", "ss", "SS", "tt", "ll", "dd", "pd", "ld", "dl", "lp", "lt", "slPl"]


def run_cut(case):
    """A prefix is refused, or the section asked for is complete; the second answer is as the first."""
    spec, start, stop = case
    data = encoding(spec)
    want = wanted(spec, data)
    out = java.good(java.script([[None, "raw", "prefixes", data, list(range(start, stop)), CUTS]])[0])
    core.step((stop - start) * len(CUTS))
    cut = [4]
    for part in sections(data):
        cut.append(cut[-1] + len(part))
    ends = {"p": cut[1], "P": cut[1], "s": cut[2], "S": cut[2], "t": cut[3], "l": cut[4], "d": cut[4], "c": cut[4]}
    for q, answers in out.items():
        for row in answers:
            answer, order, n = row
            what = "%s of the first %d of %d bytes%s" % (NAMES[q], n, len(data), order and ", asked " + order)
            if answer != "error":
                ensure(n >= ends[q], "%s: answered %s although the section is not complete", what, short(answer))
                agree(q, answer, want, what)
    return core.h64(case)


def gen_deflate():
    from mc.frame import pattern
    for n in list(range(0, 40)) + [k * 1024 + d for k in (1, 2, 3, 5) for d in range(-3, 4)] + [65535, 65536, 100000]:
        for kind in ("zero", "pattern", "mixed"):
            yield n, kind


def run_deflate(case):
    from mc.frame import pattern
    n, kind = case
    data = b"\0" * n if kind == "zero" else pattern(n) if kind == "pattern" else bytes((k * k * 7 + k // 3) & 0xff for k in range(n))
    cuts = list(range(0, 300)) if n < 2000 else sorted(set(range(0, 3000, 97)) | set(range(n - 60, n)) | {1 << 30})
    for level in (0, 1, 9):
        packed, accepted, theirs = java.good(java.script([[None, "raw", "deflate", data, zlib.compress(data, level), cuts if level == 9 else [0]]])[0])
        core.step(len(cuts) if level == 9 else 1)
        what = "%d bytes (%s)" % (n, kind)
        ensure(accepted is not None, "%s: decompressing what was compressed gave something else", what)
        same(accepted, [], what + ": prefixes of the compressed data that were not refused")
        same(zlib.decompress(packed) == data, True, what + ": decompressed by zlib")
        same(theirs == data, True, what + ": compressed by zlib at level %d, decompressed by Java" % level)
    return case


def main(rep):
    if not java.available(rep) or not java.compile_java(rep):
        return
    core.enumerate_cases(rep, "sections", gen, run, bound="bounded document spaces, all orders of two questions; of three for small documents")
    core.enumerate_cases(rep, "combined", gen_mix, run_mix, bound="all pairs of %d documents" % len(sample()))
    core.enumerate_cases(rep, "truncated", gen_cut, run_cut, bound="every prefix of small documents, each question asked twice")
    core.enumerate_cases(rep, "deflate", gen_deflate, run_deflate, bound="sizes around the buffer sizes; prefixes of compressed data")
