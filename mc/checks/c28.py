"""C28: the Java boundary streams write and read what the Python ones do."""
import hashlib
import io
import itertools
import os
import select
import shutil
import subprocess
from mc import core, frame
from mc.core import same, ensure, Violation

LEVEL = "model_checking"
RULE = "all sequences of write and split calls, and of reads, bulk reads and skips, over sizes at and around the segment edges, executed by the " \
       "compiled Java classes; oracle: the ten line framing function and the real Python writer, byte for byte; states: distinct streams or " \
       "outcomes, transitions: operations executed in Java"
DEADLINE = {"quick": 300, "thorough": 820}

JAVA = None   # process of this worker
CLASSES = None


def compile_java():
    global CLASSES
    out = os.path.join(core.SCRATCH, "java")
    os.makedirs(out, exist_ok=True)
    src = os.path.join(core.SRC, "java", "core", "src", "main", "java")
    io_dir = os.path.join(src, "se", "lth", "cs", "docria", "io")
    here = os.path.join(core.ROOT, "mc", "java", "Driver.java")
    p = subprocess.run(["javac", "-nowarn", "-encoding", "UTF-8", "-d", out, "-sourcepath", src, here, os.path.join(io_dir, "BoundaryWriter.java"),
                        os.path.join(io_dir, "BoundaryReader.java")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, TMPDIR=core.SCRATCH))
    if p.returncode:
        return p.stdout
    CLASSES = out
    return None


class Java:
    def __init__(self):
        import resource

        def limits():
            try:
                resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
            except Exception:
                pass
        self.p = subprocess.Popen(["java", "-Xmx300m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData", "-XX:ReservedCodeCacheSize=32m",
                                   "-XX:CompressedClassSpaceSize=32m", "-cp", CLASSES, "Driver"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, preexec_fn=limits, bufsize=0)
        self.buf = b""
        self.loaded = None

    def ask(self, line, blob=b""):
        self.p.stdin.write(line.encode() + b"\n" + blob)
        while b"\n" not in self.buf:
            ready, _, _ = select.select([self.p.stdout], [], [], 60)
            if not ready:
                self.p.kill()
                drop()
                raise Violation("Java did not answer within 60 s: %s" % core.short(line))
            got = self.p.stdout.read(1 << 16)
            if not got:
                drop()
                raise Violation("the Java process ended: %s" % core.short(line))
            self.buf += got
        out, self.buf = self.buf.split(b"\n", 1)
        out = out.decode()
        if out.startswith("E "):
            raise Violation("%s: Java raised %s" % (core.short(line), out[2:]))
        return out

    def load(self, raw):
        key = hashlib.md5(raw).digest()
        if self.loaded != key:
            self.ask("L %d" % len(raw), raw)
            self.loaded = key


def drop():
    global JAVA
    JAVA = None


def java():
    global JAVA
    if JAVA is None:
        JAVA = Java()
    return JAVA


def model_ops(ops):
    out, pos = [], 0
    total = sum(int(o[1:]) for o in ops if o[0] in "bhwo")
    data = frame.pattern(total)
    for o in ops:
        if o == "s":
            out.append(("s",))
        elif o[0] in "bhwo":
            n = int(o[1:])
            out.append(("w", data[pos:pos + n]))
            pos += n
    return out


PY = {}


def python_stream(boundary, mops):
    from docria.collection import _BoundaryWriter
    f = io.BytesIO()
    w = _BoundaryWriter(f, boundary=boundary)
    for op in mops:
        w.split() if op[0] == "s" else w.write(op[1])
    return f.getvalue()


def check_write(boundary, ops):
    core.step(len(ops))
    mops = model_ops(ops)
    want = frame.frame(boundary, mops)
    line = " ".join(["W", str(boundary)] + list(ops))
    got = java().ask(line).split(" ")
    if (int(got[1]), got[2]) != (len(want), hashlib.md5(want).hexdigest()):
        raw = bytes.fromhex(java().ask("X" + line[1:])[2:])
        k = next((i for i, (a, b) in enumerate(zip(raw, want)) if a != b), min(len(raw), len(want)))
        raise Violation("%s: the Java stream differs at byte %d (length %d, expected %d): got %s, expected %s" %
                        (core.short(line), k, len(raw), len(want), raw[k:k + 12].hex(), want[k:k + 12].hex()))
    ensure(python_stream(boundary, mops) == want, "%s: the Python stream differs from the reference", line)
    return got[2]


def around(B):
    return [0, 1, 2, 3, 4, 5, B - 8, B - 6, B - 5, B - 4, B - 3, B - 2, B - 1, B, B + 1, B + 3, B + 4, 2 * B - 9, 2 * B - 5, 2 * B - 4, 2 * B]


def gen_writes():
    t = core.thorough()
    S = around(4096)
    for n in (1, 2, 3):
        for sizes in itertools.product(S if n < 3 or t else S[:1] + S[1:20:3] + S[10:13], repeat=n):
            kinds = itertools.product("bwo", repeat=n) if n < 3 else (("b", "w", "o"), ("w", "b", "w"), ("o", "w", "b"), ("w", "w", "w"), ("b", "b", "b"))
            for kind in kinds:
                for splits in itertools.product((0, 1), repeat=n) if n < 3 else ((0, 0, 0), (0, 1, 0), (1, 1, 1), (0, 0, 1)):
                    ops = []
                    for s, k, z in zip(splits, kind, sizes):
                        ops += ["s"] * s + ["%s%d" % (k, z)]
                    yield tuple(ops)


def run_writes(ops):
    return check_write(12, ops)


def gen_cut():
    """Every way to cross an edge: position of the cut x kind of call on both sides x split."""
    for total in (4096, 4100, 8187, 8190):
        for i in range(max(0, total - 4110) if total < 5000 else 4080, total + 1, 1 if core.thorough() else 1):
            if core.thorough() or i > total - 60 or 4085 <= i <= 4100:
                yield total, i


def run_cut(case):
    total, i = case
    out = []
    for a in "bhwo":
        for b in "bwo":
            for s in ([], ["s"], ["s", "f", "s"]):
                out.append(check_write(12, ["%s%d" % (a, i)] + s + ["%s%d" % (b, total - i), "w3", "s", "b2"]))
    return core.h64(out)


def gen_small():
    for start in (4085, 8177, 12269):
        for n in range(1, 5):
            for h in itertools.product(("b1", "b3", "w1", "w2", "o5", "s", "w0"), repeat=n + 1):
                yield start, h


def run_small(case):
    start, h = case
    return check_write(12, ["w%d" % start] + list(h) + list(h) + ["s"] + list(h))


def gen_sizes():
    for b in range(-2, 40):
        yield b


def run_sizes(b):
    if b == -1:
        # the default boundary
        line = "W -1 w300000 s b5 w300000"
        want = frame.frame(18, model_ops(line.split(" ")[2:]))
        same(java().ask(line), "W %d %s" % (len(want), hashlib.md5(want).hexdigest()), "stream with the default boundary")
        return b
    if not 12 <= b <= 30:
        if b >= 0:
            for line in ("W %d w1" % b, "B %d" % b):
                try:
                    java().ask(line)
                except Violation as v:
                    if "Java raised" in v.message:
                        continue
                    raise
                raise Violation("boundary size %d is not refused by Java (%s)" % (b, line[0]))
            java().load(bytes([b]) + b"abc")
            try:
                java().ask("R x 0 b1")
            except Violation as v:
                if "Java raised" in v.message:
                    return b
                raise
            raise Violation("a stream with boundary size %d is not refused by the Java reader" % b)
        return None
    same(java().ask("B %d" % b), "B %d" % b, "boundary size read")
    B = 1 << b
    if b <= (21 if core.thorough() else 18):
        for ops in (["w%d" % (B // 2), "s", "w%d" % (2 * B)], ["b%d" % (B - 2), "s", "b3", "w%d" % B, "s", "o%d" % B, "b9"],
                    ["w%d" % (B - 1), "s", "w%d" % (B - 4), "b1"]):
            check_write(b, ops)
        data = frame.pattern(2 * B + 50)
        check_read(frame.frame(b, [("w", data)]), data, 0, ("r%d" % (B - 2), "b4", "k%d" % (B - 10), "o20", "A"))
    else:
        check_write(b, ["w3", "s", "b4"])
        check_read(frame.frame(b, [("w", b"abcdefg")]), b"abcdefg", 0, ("b2", "k1", "r9", "b1"))
    return b


# -- reading

def check_read(raw, data, most, ops):
    core.step(len(ops))
    j = java()
    j.load(raw)
    line = "R x %d %s" % (most, " ".join(ops))
    ans = j.ask(line).split(" ")[1:]
    what = "%s of %d bytes" % (core.short(" ".join(ops)), len(data))
    if most:
        what += ", at most %d bytes at once" % most
    same(len(ans), len(ops), what + ": answers")
    pos, total = 0, len(data)
    for op, a in zip(ops, ans):
        n = int(op[1:]) if len(op) > 1 else 0
        if op[0] == "a":
            c = int(a[1:])
            ensure(c >= 0, "%s: available() gives %d", what, c)   # only an estimate
            continue
        if op[0] == "k":
            c = int(a[1:])
            ensure(0 <= c <= min(n, total - pos), "%s: skipped %d of %d bytes left", what, c, total - pos)
            pos += c
            continue
        c, digest = a[1:].split(":")
        c = int(c)
        if op[0] in "A":
            same(c, total - pos, what + ": readAllBytes")
        elif op[0] in "bN":
            want = min(n, total - pos)
            same(c, -1 if op[0] == "b" and want == 0 and n else want, "%s: %s at %d" % (what, op, pos))
        elif n and pos < total:
            ensure(1 <= c <= min(n, total - pos), "%s: %s at %d returned %d with %d bytes left", what, op, pos, c, total - pos)
        elif n:
            same(c, -1, "%s: %s at the end" % (what, op))
        else:
            ensure(c == 0 or c == -1 and pos == total, "%s: reading nothing returned %d", what, c)
        if c > 0:
            ensure(digest == hashlib.md5(data[pos:pos + c]).hexdigest(), "%s: %s at %d returned other bytes than were written", what, op, pos)
            pos += c
    return tuple(ans)


TOTALS = [0, 1, 4094, 4095, 4096, 4099, 8186, 8187, 8188, 12279, 12500]


def gen_reads():
    t = core.thorough()
    for total in TOTALS:
        sizes = [0, 1, 4, 4091, 4092, 4095, 4096] if t else [1, 4, 4092, 4095]
        ops = ["%s%d" % (k, n) for k in "bok" for n in sizes if not (k == "b" and n == 0)] + ["r0", "r8187", "a", "k8190"]
        for h in itertools.product(ops, repeat=3):
            yield total, 0, h
    for most in (1, 3, 5, 1000):
        for total in (4097, 8188):
            ops = ["%s%d" % (k, n) for k in "bork" for n in (1, 4, 4092, 4095)] + ["N5000"]
            for h in itertools.product(ops, repeat=3 if t else 2):
                yield total, most, h


def run_reads(case):
    total, most, h = case
    data = frame.pattern(total)
    raw = frame.frame(12, [("w", data)])
    # no short readAllBytes: it is built on bulk reads, which then stop early only at the end
    return core.h64((case, check_read(raw, data, most, h + ("b5", "o7", "A", "b1", "r3", "k4", "a"))))


def gen_every():
    for total in (4095, 4097, 8187, 8191, 12500):
        for lo in range(0, total + 1, 100):
            yield total, lo


def run_every(case):
    """Skip or read to every offset, then read across what follows."""
    total, lo = case
    data = frame.pattern(total)
    raw = frame.frame(12, [("w", data[:total // 2]), ("s",), ("w", data[total // 2:])])
    for off in range(lo, min(lo + 100, total + 1)):
        for first in ("k%d", "o%d", "b%d"):
            for then in (("b1", "b5"), ("r2", "r4096"), ("k1", "o4092"), ("a", "k4093", "b1")):
                check_read(raw, data, 0, (first % off,) + then + ("b1",))
    return case


def gen_lengths():
    for b in (12, 13, 30):
        B = 1 << b
        marks = [0, 1, 2, 3]
        points = sorted({k * B + d for k in marks for d in (-3, -2, -1, 0, 4, 5, 6, B // 2) if k * B + d >= 1 and (k or d > 0)} - {0})
        for x in points:
            for y in points:
                if x <= y:
                    yield b, x, y


def run_lengths(case):
    """Number of data bytes between two positions in the stream, neither of them inside a marker."""
    b, x, y = case
    B = 1 << b
    before = lambda p: p - 1 - 4 * ((p - 1) // B) if p % B or p < B else p - 1 - 4 * (p // B - 1)
    if any(p >= B and 0 < p % B < 4 for p in (x, y)):
        return None
    core.step()
    # a position on an edge lies in front of its marker; one behind the marker denotes the same place in the data
    want = before(y) - before(x)
    same(java().ask("C %d %d %d" % case), "C %d" % want, "data between positions %d and %d with boundary %d" % (x, y, b))
    return case


def main(rep):
    if not shutil.which("javac") or not shutil.which("java"):
        print("no Java compiler: nothing explored")
        rep.exhaustive = False
        return
    err = compile_java()
    if err is not None:
        rep.add_violation("compile", {}, "the Java boundary streams do not compile:\n" + err[-2000:], None)
        return
    t = core.thorough()
    core.enumerate_cases(rep, "writes", gen_writes, run_writes, bound="all sequences of up to 3 writes of 21 sizes, kinds of call and splits")
    core.enumerate_cases(rep, "one-cut", gen_cut, run_cut, bound="cut around the edges of 4 lengths x kinds of call x splits")
    core.enumerate_cases(rep, "small-writes", gen_small, run_small, bound="all sequences of up to 5 small calls across 3 edges")
    core.enumerate_cases(rep, "reads", gen_reads, run_reads, bound="all sequences of 3 reads, bulk reads and skips of 11 streams, short reads")
    core.enumerate_cases(rep, "every-offset", gen_every, run_every, bound="every offset of 5 streams x ways to get there and on")
    core.enumerate_cases(rep, "boundary-sizes", gen_sizes, run_sizes, bound="all values from 0 to 39 and the default")
    core.enumerate_cases(rep, "lengths", gen_lengths, run_lengths, bound="positions around 3 edges, 3 boundary sizes")
