"""C06: encoding is a deterministic observation."""
import itertools
import os
import pickle
import subprocess
import sys
from mc import core, docs
from mc.core import same, ensure

LEVEL = "exploration"
RULE = "every document spec of the bounded spaces in mc/docs.py, built straight, with gaps and sorted, encoded by every " \
       "codec in every order; non-trivial: the document has content.  Hash seeds: the same bytes in processes with " \
       "different PYTHONHASHSEED"
DEADLINE = {"quick": 240, "thorough": 800}


def xml_safe(spec):
    import re
    ok = re.compile(r"^[A-Za-z_][A-Za-z0-9_.-]*$")
    return all(ok.match(f) for _, fields, _ in spec[2] for f, _ in fields) and not any(not isinstance(k, str) for k in spec[0])


def formats(spec):
    from docria.codec import MsgpackCodec, JsonCodec, XmlCodec
    out = [("msgpack", MsgpackCodec.encode), ("pickle", lambda d: repr(docs.observed(pickle.loads(pickle.dumps(d)), True)))]
    if not docs.has_bytes(spec):
        out.append(("json", JsonCodec.encode))
        out.append(("json-object", lambda d: repr(JsonCodec.encode_object(d))))
    if xml_safe(spec):
        out.append(("xml", XmlCodec.encode_utf8string))
        out.append(("xml-verbose", lambda d: XmlCodec.encode_utf8string(d, verbose=True, verbose_node_spans=True)))
    return out


def gen():
    for spec in docs.all_specs(core.thorough()):
        for how in ("bulk", "holes", "sorted"):
            if how != "bulk" and not spec[2]:
                continue
            if how != "holes" and sum(len(rows) for _, _, rows in spec[2]) > 40:
                continue  # large layers: built with gaps and compared with one built straight
            yield spec, how


def run(case):
    spec, how = case
    from docria.codec import MsgpackCodec, JsonCodec
    doc = docs.build(spec, how)
    before = docs.snapshot(doc)
    fmts = formats(spec)
    first = {}
    for rnd in range(2):
        for name, fn in (fmts if rnd == 0 else fmts[::-1]):
            data = fn(doc)
            same(docs.snapshot(doc), before, "the document after encoding as %s" % name)
            if name in first:
                ensure(data == first[name], "%s differs when encoded again: %s, then %s", name, core.short(first[name]), core.short(data))
            first[name] = data
    plain = docs.build(spec)
    for name, fn in fmts:
        ensure(fn(plain) == first[name], "%s differs between equal documents (%s): %s, %s", name, how, core.short(first[name]), core.short(fn(plain)))
    back = MsgpackCodec.decode(first["msgpack"])
    if any(isinstance(v, tuple) and v[0] == "refs" and not v[2] for _, _, rows in spec[2] for d in rows for v in d.values()):
        fmts = [f for f in fmts if not f[0].startswith("xml")]  # an empty array may come back unset
    for name, fn in fmts:
        ensure(fn(back) == first[name], "%s of the decoded document differs: %s, then %s", name, core.short(first[name]), core.short(fn(back)))
    if "json" in first:
        jback = JsonCodec.decode(first["json"])
        for name, fn in fmts:
            ensure(fn(jback) == first[name], "%s of the document decoded from JSON differs: %s, then %s", name, core.short(first[name]), core.short(fn(jback)))
    return core.h64((how, first["msgpack"]))


# -- orders and refusals

FULL = ({"a": [1, {"b": 2.5}], "c": None}, (("main", "a\U0001F600bc"), ("alt", "xyz")),
        (("m", (("i", ("i32", 3)), ("t", ("span", "main")), ("u", ("span", "alt")), ("r", ("ref", "k")), ("a", ("refs", "m")),
                ("n", ("nspan", "k"))),
          ({"i": 1, "t": ("span", "main", 1, 3), "r": ("ref", "k", 1), "a": ("refs", "m", (1, 0, 1)), "n": ("nspan", "k", 0, 1)},
           {"u": ("span", "alt", 0, 2), "t": ("span", "main", 0, 1)}, {"i": 2, "t": ("span", "main", 2, 2)})),
         ("k", (("f", ("f64", None)), ("b", ("bool", True)), ("s", ("str", ""))), ({"f": 0.5, "b": False}, {"s": "x"}))))
CLEAN = FULL


def gen_orders():
    names = [n for n, _ in formats(FULL)]
    for n in range(1, 5 if core.thorough() else 4):
        for order in itertools.product(names, repeat=n):
            for how in ("bulk", "holes", "sorted"):
                yield how, order


def run_orders(case):
    how, order = case
    doc, other = docs.build(FULL, how), docs.build(FULL)
    f = dict(formats(FULL))
    for name in order:
        before = docs.snapshot(doc)
        data = f[name](doc)
        same(docs.snapshot(doc), before, "the document after %s in %s" % (name, order))
        f[name](docs.build(docs_other()))  # another document in between
        ensure(f[name](other) == data, "%s depends on what was encoded before (%s)", name, order)
        core.step()
    return (how, order)


def docs_other():
    return ({"z": 1}, (("main", "other text"),), (("m", (("t", ("span", "main")),), ({"t": ("span", "main", 2, 7)},) * 2),))


EDITS = ["add", "add2", "remove-first", "remove-last", "sort", "retain", "set", "unset", "move-span", "newtext", "newlayer", "dropfield",
         "prop"]


def gen_edits():
    for n in range(0, 4 if core.thorough() else 3):
        for edits in itertools.product(EDITS, repeat=n):
            for how in ("bulk", "holes"):
                yield how, edits


def edit(doc, e, i):
    from docria.model import DataTypes as T
    m = doc["m"]
    if e == "add":
        m.add(i=40 + i, t=doc.texts["main"][0:2])
    elif e == "add2":
        doc["k"].add(f=float(i))
    elif e == "remove-first" and len(m):
        x = m.first()
        for n in m:
            n.pop("a", None)
        m.remove(x)
    elif e == "remove-last" and len(m):
        for n in m:
            n.pop("a", None)
        m.remove(m.last())
    elif e == "sort":
        m.sort(lambda n: -n.get("i", 0))
    elif e == "retain" and len(m):
        for n in m:
            n.pop("a", None)
        m.retain([m.last()])
    elif e == "set" and len(m):
        m.first()["i"] = 99 + i
    elif e == "unset" and len(m):
        m.last().pop("t", None)
    elif e == "move-span" and len(m):
        m.last()["t"] = doc.texts["main"][3:4]
    elif e == "newtext":
        doc.add_text("extra%d" % i, "q" * i)
    elif e == "newlayer":
        doc.add_layer("x%d" % i, r=T.noderef("m"))
    elif e == "dropfield":
        m.remove_field("u")
    elif e == "prop":
        doc.props["p%d" % i] = i


def run_edits(case):
    """Encoding between edits changes nothing in what comes out in the end."""
    how, edits = case
    quiet, watched = docs.build(FULL, how), docs.build(FULL, how)
    fmts = formats(FULL)
    for i, e in enumerate(edits):
        edit(quiet, e, i)
        for name, fn in fmts:
            before = docs.snapshot(watched)
            fn(watched)
            same(docs.snapshot(watched), before, "the document after %s, before %s" % (name, e))
        edit(watched, e, i)
        core.step()
    for name, fn in fmts:
        a, b = fn(quiet), fn(watched)
        ensure(a == b, "%s after %s depends on whether it was encoded in between: %s, %s", name, edits, core.short(a), core.short(b))
    same(docs.observed(quiet), docs.observed(watched), "documents after %s" % (edits,))
    return core.h64((how, fmts[0][1](quiet)))


# -- refused encodings leave the document as it was too

def refused_specs():
    for which in ("value", "extra", "dangling", "props", "missing-layer", "missing-text"):
        for how in ("bulk", "holes", "sorted"):
            yield which, how


def run_refused(case):
    which, how = case
    from docria.model import DataTypes as T
    doc = docs.build(FULL, how)
    m = doc["m"]
    if which == "value":
        m.last()["i"] = "no"
    elif which == "extra":
        m.last()["zz"] = 1
    elif which == "dangling":
        x = doc["k"].last()
        doc["k"].remove(x)
    elif which == "props":
        doc.props["bad"] = object()
    elif which == "missing-layer":
        m.add_field("w", T.noderef("nowhere"))
    elif which == "missing-text":
        m.add_field("w", T.textspan("nowhere"))
    before = snapshot_weak(doc)
    for name, fn in formats(FULL):
        if which == "props" and (name.startswith("xml") or name == "json-object"):
            continue
        core.refused(lambda: fn(doc), "%s of a document with %s" % (name, which))
        same(snapshot_weak(doc), before, "the document after refused %s" % name)
    return case


def snapshot_weak(doc):
    return tuple((name, id(l), len(l), tuple(id(n) for n in l), tuple(l.schema.fields),
                  tuple(tuple((f, id(v)) for f, v in n.items()) for n in l)) for name, l in doc.layers.items())


# -- hash seeds

def digests(stripe, n):
    out = []
    for i, (spec, how) in enumerate(gen()):
        if i % n == stripe:
            doc = docs.build(spec, how)
            out.append(format(core.h64([(name, fn(doc)) for name, fn in formats(spec)]), "016x"))
    return out


STRIPES = 48


def gen_seeds():
    for stripe in range(STRIPES):
        yield stripe


def run_seeds(stripe):
    got = {}
    for seed in ("0", "1", "42"):
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONPATH=core.ROOT)
        code = "import sys; from mc import core; core.SCRATCH=%r; core.bootstrap(); from mc.checks import c06; " \
               "print('\\n'.join(c06.digests(%d, %d)))" % (core.SCRATCH, stripe, STRIPES)
        r = subprocess.run([sys.executable, "-c", code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=core.ROOT)
        ensure(r.returncode == 0, "encoding fails under PYTHONHASHSEED=%s: %s", seed, r.stderr.decode()[-1500:])
        got[seed] = r.stdout.decode().split()
    ensure(len(got["0"]) > 0, "nothing compared")
    for seed in ("1", "42"):
        same(len(got[seed]), len(got["0"]), "number of documents")
        for k, (a, b) in enumerate(zip(got["0"], got[seed])):
            ensure(a == b, "document %d is encoded differently under PYTHONHASHSEED=0 and %s", stripe + k * STRIPES, seed)
    return core.h64(got["0"])


def main(rep):
    core.enumerate_cases(rep, "specs", gen, run, bound="bounded document spaces of mc/docs.py, three ways of building")
    core.enumerate_cases(rep, "orders", gen_orders, run_orders, bound="all sequences of up to %d encodings" % (4 if core.thorough() else 3))
    core.enumerate_cases(rep, "between-edits", gen_edits, run_edits, bound="all sequences of up to %d edits" % (3 if core.thorough() else 2))
    core.enumerate_cases(rep, "refused", refused_specs, run_refused, bound="6 reasons to refuse")
    core.enumerate_cases(rep, "hash-seeds", gen_seeds, run_seeds, bound="3 hash seeds, all documents of the first part")
