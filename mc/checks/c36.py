"""C36: Java values, node builders and printing."""
import base64
import itertools
import math
import struct
from mc import core, docs, java
from mc.core import ensure, same, short, Violation
from mc.java import S, ref

LEVEL = "model_checking"
RULE = "every value of a bounded set x every conversion, visitor and pair for equality; every field type x every kind of value through a node builder; every set of " \
       "removals around printed nodes and node spans; breadth-first search over sequences of edits of single nodes, generic and application classes"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS


def bits(f):
    return struct.unpack(">q", struct.pack(">d", f))[0]


def unbits(i):
    return struct.unpack(">d", struct.pack(">q", i))[0]


INTS = [0, 1, -1, 2, 7, 127, 128, 255, 256, 65535, (1 << 31) - 1, -(1 << 31), 1000000007]
LONGS = INTS + [1 << 31, -(1 << 31) - 1, 1 << 40, (1 << 63) - 1, -(1 << 63), (1 << 53) + 1]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.1, 1.5, -2.7, 1e-3, 1e10, 1e300, -1e300, 5e-324, float("inf"), float("-inf"), float("nan"), 123456789.0, 2147483647.0, 1e7]
STRINGS = ["", "a", "true", "false", "TRUE", "0", "1", "-5", "12345678901", "2.5", "1e3", "\u00e5\U0001F600", "x" * 300]
BYTES = [b"", b"\0", b"ab", b"\xff\xfe\x00", bytes(range(256))]

SCALARS = [["i", v] for v in INTS] + [["l", v] for v in LONGS] + [["d", bits(v)] for v in FLOATS] + [["z", True], ["z", False]] + \
          [["s", v] for v in STRINGS] + [["b", v] for v in BYTES] + [["null"]]
OTHERS = [["x", "t", b"ab"], ["x", "", b""], ["x", "\u00e5", b"\xff"], ["span", "main", 0, 0], ["span", "main", 1, 4], ["span", "main", 0, 6], ["span", "main", 6, 6],
          ["node", "t", 0], ["node", "t", 2], ["nodes", "t", [0]], ["nodes", "t", [2, 0]], ["nodes", "t", [1, 1]], ["nspan", "t", 0, 0], ["nspan", "t", 0, 2], ["nspan", "t", 1, 2]]
ACCESS = ["stringValue", "boolValue", "intValue", "longValue", "doubleValue", "binaryValue", "nodeValue", "nodeArrayValue", "spanValue", "nodeSpanValue", "type"]
CLASS = {"i": "IntValue", "l": "LongValue", "d": "DoubleValue", "z": "BoolValue", "s": "StringValue", "b": "BinaryValue", "null": "NullValue", "x": "ExtensionValue", "span": "Span",
         "node": "Node", "nodes": "NodeArrayValue", "nspan": "NodeSpan", "doc": "DocumentValue"}
TYPE = {"i": "i32", "l": "i64", "d": "f64", "z": "i1", "s": "str", "b": "bin", "null": "nil", "x": "ext", "span": "span", "node": "noderef", "nodes": "noderef_array",
        "nspan": "nodespan", "doc": "ext"}
FAIL = ("fails",)


def type_of(v):
    k = v[0]
    args = {"x": lambda: {"type": ["s", v[1]]}, "doc": lambda: {"type": ["s", "doc"]}, "span": lambda: {"context": ["s", v[1]]}, "node": lambda: {"layer": ["s", v[1]]},
            "nodes": lambda: {"layer": ["s", v[1]]}, "nspan": lambda: {"layer": ["s", v[1]]}}.get(k, dict)()
    return [TYPE[k], args]


def within(x, n):
    return -(1 << n - 1) <= x < 1 << n - 1


def conversions(v):
    """Accessor -> what it must give; accessors without an entry are not judged."""
    k = v[0]
    w = {"type": type_of(v)}
    if k in "ild":
        x = unbits(v[1]) if k == "d" else v[1]
        if k == "d":
            if x == 0 or abs(x) > 1e-9:
                w["boolValue"] = x != 0
            if math.isfinite(x):
                if within(int(x), 32):
                    w["intValue"] = int(x)
                if within(int(x), 64):
                    w["longValue"] = int(x)
            w["doubleValue"] = v[1]
        else:
            w["stringValue"] = str(x)
            w["boolValue"] = x != 0
            w["longValue"] = x
            if within(x, 32):
                w["intValue"] = x
            w["doubleValue"] = bits(float(x))
    elif k == "z":
        w.update(stringValue="true" if v[1] else "false", boolValue=v[1], intValue=int(v[1]), longValue=int(v[1]), doubleValue=bits(float(v[1])))
    elif k == "s":
        w["stringValue"] = v[1]
        if v[1].lower() in ("true", "false"):
            w["boolValue"] = v[1].lower() == "true"
        try:
            x = int(v[1])
            w["intValue"] = x if within(x, 32) else FAIL
            w["longValue"] = x if within(x, 64) else FAIL
        except ValueError:
            w["intValue"] = w["longValue"] = FAIL
        try:
            w["doubleValue"] = bits(float(v[1]))
        except ValueError:
            w["doubleValue"] = FAIL
    elif k == "b":
        w.update(stringValue=base64.b64encode(v[1]).decode(), binaryValue=v[1])
    elif k == "x":
        w.update(stringValue=v[1] + ":" + base64.b64encode(v[2]).decode(), binaryValue=v[2])
    elif k == "null":
        w.update(stringValue="", boolValue=False, intValue=0, longValue=0, doubleValue=bits(0.0), binaryValue=b"", nodeArrayValue=[])
    elif k == "span":
        w.update(stringValue="abcdef"[v[2]:v[3]], spanValue=[v[2], v[3]])
    elif k == "node":
        w.update(nodeValue="node %d" % v[2], stringValue="t#%d" % v[2])
    elif k == "nodes":
        w.update(nodeArrayValue=v[2], nodeValue="node %d" % v[2][0] if len(v[2]) == 1 else FAIL, stringValue="t[%s]" % ",".join(map(str, v[2])))
    elif k == "nspan":
        w.update(nodeArrayValue=list(range(v[2], v[3] + 1)), nodeSpanValue=[v[2], v[3]])
    for a in ("nodeValue", "spanValue", "nodeSpanValue") + (("nodeArrayValue",) if k not in ("node",) else ()) + (("binaryValue",) if k not in ("doc",) else ()):
        w.setdefault(a, FAIL)
    return w


def gen_conv():
    for v in SCALARS + OTHERS:
        yield (v, v)
        if v[0] in ("i", "l", "d", "z", "s", "b"):
            yield (v, ["object", v])
    for v in (["span", "main", 1, 2], ["node", "t", 1], ["nspan", "t", 0, 1], ["nodes", "t", [1]], ["nodes", "t", [0, 2]], ["nodes", "t", [2, 0]], ["nodes", "t", [1, 1]], ["nodes", "t", [0, 1, 0]]):
        yield (v, ["object", v])
    for f in (0.0, 1.0, -1.5, 0.25, 3.0 * (1 << 33)):
        yield (["d", bits(f)], ["d32", bits(f)])


def run_conv(case):
    v, how = case
    row = java.good(java.script([[None, "raw", "conversions", [how]]])[0])[0]
    what = "Java value %s" % (short(how),)
    want = conversions(v)
    for name, (state, got) in zip(ACCESS, row):
        if name not in want:
            continue
        core.step()
        if want[name] is FAIL:
            ensure(state == "e", "%s: %s gave %s instead of failing", what, name, short(got))
        else:
            ensure(state == "v", "%s: %s failed with %s", what, name, got)
            same(got, want[name], "%s: %s" % (what, name))
    if v[0] == "d" and how[0] != "null":
        state, got = row[0]
        ensure(state == "v", "%s: stringValue failed", what)
        back = float(got)
        ensure(bits(back) == v[1] or back != back and unbits(v[1]) != unbits(v[1]), "%s: stringValue is %s", what, got)
    seen, general = row[11]
    same(seen, [CLASS[v[0]]], what + ": visits")
    same(general, [True], what + ": a visitor of all values is given the value itself")
    same(row[12], True, what + ": equality to itself and its hash code")
    if v[0] in ("i", "l", "d", "z", "s", "b", "null"):
        same(row[13:15], [True, True], what + ": equality and hash code of a value made again")
    same(row[15], ["v", True], what + ": toString")
    return core.h64(how)


def gen_equal():
    for v in SCALARS:
        yield v


def run_equal(v):
    out = java.good(java.script([[None, "raw", "equalities", [v] + SCALARS]])[0])
    core.step(len(SCALARS))
    for w, (ab, ba, hashes, null, other) in zip(SCALARS, out[1:]):
        what = "%s and %s" % (short(v), short(w))
        same((null, other), (False, False), "%s: equality to null and to a string" % short(v))
        if v[0] == w[0] == "d" and unbits(v[1]) == unbits(w[1]) and v[1] != w[1]:
            continue
        same((ab, ba), (v == w, v == w), what + ": equality")
        ensure(hashes or v != w, "%s: equal values with different hash codes", what)
    return core.h64(v)


TYPES = [["i32"], ["i64"], ["f64"], ["i1"], ["str"], ["bin"], ["i32", ["i", 5]], ["i64", ["l", 1 << 40]], ["f64", ["d", bits(0.5)]], ["i1", ["z", True]], ["str", ["s", "x"]], ["str", ["s", ""]],
         ["span", "main"], ["span", "other"], ["ext", "t"], ["ext", "u"], ["ext", "doc"], ["noderef", "t"], ["noderef", "other"], ["noderef_array", "t"], ["nodespan", "t"], ["nodespan", "other"]]
ARG = {"span": "context", "ext": "type", "noderef": "layer", "noderef_array": "layer", "nodespan": "layer"}
KINDS = [["i", 3], ["l", 3], ["d", bits(2.0)], ["z", False], ["s", "q"], ["b", b"z"], ["x", "t", b"1"], ["x", "u", b"1"], ["x", "doc", b"1"], ["span", "main", 0, 2], ["span", "other", 0, 2], ["node", "t", 1],
         ["node", "other", 1], ["nodes", "t", [1, 0]], ["nodes", "other", [1]], ["nspan", "t", 0, 1], ["nspan", "other", 1, 1]]


def gen_taken():
    for t in TYPES:
        for own in (False, True):
            yield t, own


def run_taken(case):
    t, own = case
    out = java.good(java.script([[None, "raw", "taken", [[t, v, own] for v in KINDS]]])[0])
    for v, (put, unknown, again, has, is_it, other, added) in zip(KINDS, out):
        core.step(4)
        fits = type_of(v) == [t[0], {ARG[t[0]]: ["s", t[1]]} if t[0] in ARG else {}]
        what = "a node builder given %s for a field of type %s" % (v, t)
        if fits:
            same(put, ["v", True], what)
            same(again[0], "e", what + " again")
        else:
            same(put[0], "e", what)
        same(unknown[0], "e", "a node builder given a field there is not")
        same((has, is_it, other, added), (["v", fits], ["v", fits], ["v", False], ["v", True]), what + ": the node has the field, with this value; has another; was added")
    return core.h64(case)


def gen_prints():
    spans = [None, [0, 2], [3, 5], [6, 9]]
    for kind in ("span", "none", "str"):
        for own in ([1, 2, 3], [1, 0, 3], [0, 2, 3], [1, 2, 0], [0, 0, 0]) if kind != "none" else ([0, 0, 0],):
            for i in range(3):
                for j in range(i, 3):
                    yield kind, tuple(own), i, j


REMOVALS = [list(r) for n in range(4) for r in itertools.permutations([0, 1, 2, "own"], n)] + [[x] for x in ("layer", "text", "field", "clear")] + \
           [[0, "layer"], ["layer", 1], ["own", "layer"], ["field", 0], ["clear", "own"], [1, "clear"], [2, "text"], ["text", "layer"]]


def run_prints(case):
    kind, own, i, j = case
    spans = [None, [0, 2], [3, 5], [6, 9]]
    toks = [spans[k] for k in own]
    removals = [r for r in REMOVALS if not ("field" in r and kind == "none")]
    out = java.good(java.script([[None, "raw", "prints", [[toks, [i, j], r, kind] for r in removals]]])[0])
    for r, (first, after, *prints) in zip(removals, out):
        core.step(len(prints) + 2)
        what = "node span %d-%d of tokens %s (%s)" % (i, j, toks, kind)
        same(first[0], "v", what + ": its string")
        if kind == "span" and toks[i] and toks[j]:
            same(first[1], "abcdefghij"[toks[i][0]:toks[j][1]], what + ": its string")
        what += " after removing %s" % (r,)
        ensure(after[0] == "v", "%s: its string failed with %s", what, after[1])
        gone = {x for x in r if isinstance(x, int)} | ({0, 1, 2} if "clear" in r else set())
        if i not in gone and j not in gone and kind == "span" and toks[i] and toks[j] and not {"text", "field", "layer"} & set(r):
            same(after[1], first[1], what + ": its string")
        for p in prints:
            ensure(p[0] == "v", "%s: a node cannot be printed: %s", what, p[1])
        ensure(" = " in prints[0][1] and "r = " in prints[0][1] or "layer" in r, "%s: the node prints as %s", what, prints[0][1])
        ensure("k = " in prints[1][1], "%s: a token prints as %s", what, prints[1][1])
    return core.h64(case)


PUTS = [("i", 5), ("i", 0), ("l", 1 << 40), ("d", 0.5), ("s", "q"), ("s", ""), ("z", True), ("z", False), ("b", b"\0z")]


class State:
    """One node, generic or of an application's class; fields f and v live in the object of the latter, g and q never do."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.s = s = S()
        self.model = {}
        s.new("doc", "Document")
        s.raw("build", {}, {}, [["l", [["f", ["i32"]], ["g", ["i32"]], ["v", ["str"]]], []]] if cfg == "plain" else [["l", [["f", ["i32"]], ["g", ["i32"]], ["v", ["str"]]], []]],
              *([] if cfg == "plain" else ["concrete"]), to="doc")
        s.call("doc", "layer", "l", to="layer")
        s.static("Node", "builder", ref("layer"), to="b")
        if cfg == "built":
            s.call("b", "put", "f", 9)
            s.call("b", "put", "g", 8)
            self.model = {"f": ("i", 9), "g": ("i", 8)}
        s.call("b", "build", to="n")
        s.call("layer", "add", ref("n"))

    def ops(self):
        for f in ("f", "g", "v"):
            for k in range(len(PUTS)) if f == "f" else (1, 2, 4):
                yield ("put", f, k)
            if self.cfg == "plain" or f == "g":
                yield ("remove", f)
        yield ("put", "q", 3)

    def apply(self, op):
        core.step()
        s, kind, f = self.s, op[0], op[1]
        if kind == "put":
            t, v = PUTS[op[2]]
            s.call("n", "put", f, {"l": v} if t == "l" else v)
            self.model[f] = (t, v)
        else:
            s.call("n", "remove", f)
            self.model.pop(f, None)

    def key(self):
        return repr(sorted(self.model.items()))

    def observe(self):
        s = S()
        s.ops = list(self.s.ops)
        n = len(s.ops)
        s.help("nothing", to="nil")
        fields = ("f", "g", "q", "v", "nosuch")
        for f in fields:
            s.call("n", "has", f)
            s.raw("get", "n", f)
            s.call("n", "getString", f)
            s.call("n", "getBool", f)
            s.call("n", "getInt", f)
            s.call("n", "getLong", f)
            s.call("n", "getDouble", f)
        s.raw("each", "n")
        s.call("n", "toString")
        res = java.script(s.ops)
        for op, r in zip(s.ops[:n], res):
            java.good(r, op)
        at = n + 1
        for f in fields:
            has, got, *more = res[at:at + 7]
            at += 7
            v = self.model.get(f)
            v = None if v is None else [v[0], bits(v[1]) if v[0] == "d" else v[1]]
            what = "field %s of a node (%s) with %s" % (f, self.cfg, self.model)
            same(java.good(has), v is not None, what + ": has")
            same(java.good(got), [v, v if v is not None else ["s", "default"]], what + ": get, and get with a default")
            want = conversions(v if v is not None else ["null"])
            for name, r in zip(ACCESS, more):
                if name in want:
                    if want[name] is FAIL:
                        ensure(isinstance(r, java.JavaError), "%s: %s gave %s", what, name, r)
                    else:
                        r = java.good(r)
                        same(bits(r) if name == "doubleValue" else r, want[name], what + ": " + name)
        same(dict(java.good(res[at])), {f: [t, bits(v) if t == "d" else v] for f, (t, v) in self.model.items()}, "forEach of a node (%s)" % self.cfg)
        same(len(res[at]), len(self.model), "calls by forEach of a node (%s)" % self.cfg)
        java.good(res[at + 1])


def main(rep):
    if not java.available(rep) or not java.compile_java(rep):
        return
    core.enumerate_cases(rep, "conversions", gen_conv, run_conv, bound="%d values, made by every factory" % len(SCALARS + OTHERS))
    core.enumerate_cases(rep, "equality", gen_equal, run_equal, bound="all pairs of %d scalars" % len(SCALARS))
    core.enumerate_cases(rep, "builders", gen_taken, run_taken, bound="all pairs of %d field types and %d kinds of value" % (len(TYPES), len(KINDS)))
    core.enumerate_cases(rep, "printing", gen_prints, run_prints, bound="all sequences of up to 3 removals around nodes and node spans")
    depth = 6 if core.thorough() else 4
    core.search(rep, "nodes", State, ["plain", "concrete", "built"], depth, bound="all sequences of up to %d edits" % depth)
