"""C27: the data frame of a layer mirrors it after any edit history, for every selection and option."""
import itertools
from mc import core, docs
from mc.core import same, identical, ensure, refused, digest

LEVEL = "model_checking"
RULE = "all edit histories up to the depth, merged when model and real object graph coincide; after each step the data frames of all " \
       "selections and options are compared with the model row by row"
DEADLINE = {"quick": 240, "thorough": 820}

TEXT = "ab\U0001F600 cd"
ROWS = [{"k": 3, "s": "x", "t": (0, 2)}, {}, {"k": -1, "t": (2, 2), "r": 0}, {"s": "", "b": True, "f": 0.5}, {"k": 1 << 30, "y": b"\x00", "r": 0, "m": (0,), "n": (0, 0)},
        {"f": 0.0, "k": 0, "b": False, "u": (1, 6)}]


class Frame:
    def __init__(self, cfg):
        from docria.model import Document, DataTypes as T, Node, NodeSpan
        from docria.codec import MsgpackCodec
        self.T, self.Node, self.NodeSpan, self.M = T, Node, NodeSpan, MsgpackCodec
        self.doc = Document()
        self.doc.maintext = TEXT
        self.types = dict(k=T.int32(None), s=T.string(None), t=T.span("main"), u=T.span("main"), r=T.noderef("l"), m=T.noderef_many("l"), n=T.nodespan("o"),
                          b=T.bool(None), f=T.float64(None), y=T.binary)
        self.fields = list(self.types)
        self.layer = self.doc.add_layer("l", **self.types)
        self.other = self.doc.add_layer("o", z=T.int32(5))
        self.onode = self.other.add()
        self.nodes, self.rows, self.order = [], [], []
        if cfg[0] == "bulk":
            for i in range(cfg[1]):
                self.add(i)
            if len(cfg) > 2:
                self.remove([self.order[i] for i in cfg[2]])
        if cfg[0] == "decoded":
            for i in range(cfg[1]):
                self.add(i)
            self.doc = self.M.decode(self.M.encode(self.doc))
            self.layer, self.other = self.doc["l"], self.doc["o"]
            self.onode = self.other.first()
            new = list(self.layer)
            for i, n in enumerate(new):
                for f in n:
                    if f in ("r", "m", "n", "t", "u"):
                        self.rows[i][f] = n[f]
            self.nodes = new

    def real(self, f, v):
        if f in ("t", "u"):
            return self.doc.maintext[v[0]:v[1]]
        if f in ("r", "m"):
            n = self.nodes[self.order[0]] if self.order else None
            return n if f == "r" else [n] * len(v) if n is not None else None
        if f == "n":
            return self.NodeSpan(self.onode, self.onode)
        return v

    def add(self, i):
        row = {f: self.real(f, v) for f, v in ROWS[i % len(ROWS)].items() if f in self.fields}
        row = {f: v for f, v in row.items() if v is not None}
        self.nodes.append(self.layer.add(**row))
        if "new" in self.fields:
            row["new"] = 9
        self.rows.append(row)
        self.order.append(len(self.nodes) - 1)

    def remove(self, labels):
        self.layer.remove([self.nodes[l] for l in labels])
        self.order = [l for l in self.order if l not in labels]

    def ops(self):
        n = len(self.order)
        out = [("add", i) for i in range(len(ROWS))] + [("compact",), ("encode",)]
        if n:
            out += [("remove", i) for i in sorted({0, n // 2, n - 1})]
            out += [("sort", "label"), ("sort", "-label"), ("retain", "tail"), ("retain", "evens"), ("set", 0), ("set", n - 1), ("unset", n // 2)]
        if "new" not in self.fields:
            out += [("field", True), ("field", False)]
        for f in ("k", "t", "new"):
            if f in self.fields:
                out.append(("unfield", f))
        return out

    def apply(self, op):
        name = op[0]
        if name == "add":
            self.add(op[1])
        elif name == "compact":
            self.layer.compact()
        elif name == "encode":
            try:
                self.M.encode(self.doc)
            except Exception:   # references to removed nodes: see C05
                pass
        elif name == "remove":
            self.layer.remove(self.nodes[self.order.pop(op[1])])
        elif name == "sort":
            s = 1 if op[1] == "label" else -1
            rank = {id(n): s * i for i, n in enumerate(self.nodes)}
            self.layer.sort(lambda n: rank[id(n)])
            self.order.sort(key=lambda l: s * l)
        elif name == "retain":
            self.order = self.order[len(self.order) // 2:] if op[1] == "tail" else self.order[::2]
            self.layer.retain([self.nodes[l] for l in self.order])
        elif name == "set":
            l = self.order[op[1]]
            for f, v in (("s", "set"), ("k", 77), ("t", self.doc.maintext[1:4])):
                if f in self.fields:
                    self.nodes[l][f] = v
                    self.rows[l][f] = v
        elif name == "unset":
            l = self.order[op[1]]
            for f in ("k", "s", "t"):
                if self.rows[l].pop(f, None) is not None:
                    del self.nodes[l][f]
        elif name == "field":
            self.layer.add_field("new", self.T.int32(9), init_with_default=op[1])
            self.fields.append("new")
            if op[1]:
                for l in self.order:
                    self.rows[l]["new"] = 9
        elif name == "unfield":
            self.layer.remove_field(op[1])
            self.fields.remove(op[1])
            for l in self.order:
                self.rows[l].pop(op[1], None)

    def check(self, what, fields, strings, ref, kw):
        df = self.layer.to_pandas(**kw)
        names = (self.fields if fields is None else list(fields)) + (["__ref"] if ref else [])
        same(list(df.columns), names, what + ": columns")
        same(len(df), len(self.order) if names else 0, what + ": number of rows")
        same(list(df.index), list(range(len(df))), what + ": row numbers")
        for f in names:
            col = df[f].tolist()
            for i, l in enumerate(self.order):
                got = col[i]
                if f == "__ref":
                    ensure(got is self.nodes[l], "%s: row %d refers to another node", what, i)
                    continue
                want = self.rows[l].get(f)
                if want is None:
                    ensure(got is None or got != got, "%s: row %d has %s=%r, which is unset", what, i, f, got)
                elif f in ("t", "u"):
                    if strings:
                        ensure(isinstance(got, str) and got == TEXT[want.start:want.stop], "%s: row %d has %s=%r, expected %r", what, i, f, got, str(want))
                    else:
                        ensure(type(got).__name__ == "TextSpan" and (got.start, got.stop) == (want.start, want.stop) and got is self.nodes[l][f],
                               "%s: row %d has %s=%r, expected %r", what, i, f, got, want)
                elif f in ("r", "n"):
                    ensure(got is want, "%s: row %d has another %s", what, i, f)
                elif f == "m":
                    identical(got, want, "%s: row %d, field m" % (what, i))
                else:
                    ensure(got == want and isinstance(got, str) == isinstance(want, str), "%s: row %d has %s=%r, expected %r", what, i, f, got, want)

    def observe(self):
        before = docs.snapshot(self.doc, self.nodes)
        self.check("frame", None, False, True, {})
        self.check("frame with strings", None, True, True, dict(materialize_spans=True))
        self.check("frame without references", None, False, False, dict(include_ref_field=False))
        self.check("frame with strings, without references", None, True, False, dict(materialize_spans=True, include_ref_field=False))
        f = self.fields
        for sel in ([f[0]], f[::-1], f[1:3], [x for x in f if x in ("u", "t")], [f[-1], f[0]]):
            for strings in (False, True):
                for ref in (False, True):
                    if sel:
                        self.check("frame of %s, strings %s, references %s" % (sel, strings, ref), sel, strings, ref,
                                   dict(fields=list(sel), materialize_spans=strings, include_ref_field=ref))
        self.check("frame of no fields", [], False, True, dict(fields=[]))
        refused(lambda: self.layer.to_pandas(fields=["nothing"]), "a frame of an unknown field")
        refused(lambda: self.layer.to_pandas(fields=[f[0], "nothing"], materialize_spans=True), "a frame of an unknown field")
        same(docs.snapshot(self.doc, self.nodes), before, "the document after the export")

    def key(self):
        return tuple(self.order), tuple(self.fields), digest(self.doc, self.nodes)


def gen_selections():
    for fields in itertools.chain.from_iterable(itertools.permutations(["k", "s", "t", "u", "r", "new"], n) for n in range(1, 5 if core.thorough() else 4)):
        yield fields


def run_selections(fields):
    for cfg in (("bulk", 6), ("bulk", 8, (1, 3)), ("bulk", 0), ("decoded", 6)):
        s = Frame(cfg)
        s.apply(("field", True))
        for strings in (False, True):
            for ref in (False, True):
                core.step()
                s.check("frame of %s, strings %s, references %s" % (fields, strings, ref), fields, strings, ref,
                        dict(fields=fields, materialize_spans=strings, include_ref_field=ref))
    return fields


def gen_sizes():
    for n in list(range(14, 40)) + [64, 100, 257]:
        for k in sorted({0, 1, n // 5, n // 4, n // 4 + 1, n // 2, n - 1, n}):
            for how in ("prefix", "stride", "suffix"):
                yield n, k, how


def run_sizes(case):
    n, k, how = case
    s = Frame(("bulk", n))
    o = s.order
    s.remove({"prefix": o[:k], "suffix": o[n - k:], "stride": [o[(i * n) // k] for i in range(k)] if k else []}[how])
    s.observe()
    s.add(1)
    s.observe()
    return case


def main(rep):
    import pandas  # noqa: before the workers fork
    t = core.thorough()
    core.enumerate_cases(rep, "selections", gen_selections, run_selections, bound="all selections of up to %d of 6 fields in every order x options x 4 layers" % (4 if t else 3))
    core.enumerate_cases(rep, "sizes", gen_sizes, run_sizes, bound="layers to 257 nodes with holes around the compaction threshold")
    core.search(rep, "histories", Frame, [("bulk", 0), ("bulk", 3), ("bulk", 6, (1, 2)), ("decoded", 6)], 4 if t else 3, bound="4 start layers, up to 20 operations x 26 frames")
