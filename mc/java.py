"""The Java classes of docria, compiled from the tree under test against stand-ins for msgpack-core, fastutil and Hadoop, driven by scripts.

The stand-ins (mc/java/stubs) implement the documented behaviour of the library calls; nothing of docria is in them.
"""
import marshal
import os
import re
import select
import shutil
import struct
import subprocess
import time
from mc import core
from mc.core import Violation

CLASSES = None
PROCESS = None   # of this worker
CALLS = [0]
ASSUMPTIONS = ["msgpack-core, fastutil and Hadoop cannot be installed here: stand-ins in mc/java/stubs implement the documented behaviour of the "
               "calls docria makes (the repository's own JUnit tests pass on them); javac and java 17"]


def sources(*parts):
    out = []
    for d, _, fs in os.walk(os.path.join(*parts)):
        out += [os.path.join(d, f) for f in fs if f.endswith(".java")]
    return sorted(out)


def compile_java(rep=None, hadoop=False, points=False):
    """Compiles everything; a tree whose Java sources do not compile breaks the property, use of library calls the stand-ins lack gives no answer."""
    global CLASSES
    out = os.path.join(core.SCRATCH, "javac")
    os.makedirs(out, exist_ok=True)
    here = os.path.join(core.ROOT, "mc", "java")
    files = sources(here, "stubs") + sources(core.SRC, "java", "core", "src", "main") + sources(here, "bridge")
    if hadoop:
        files += sources(core.SRC, "java", "hadoop", "src", "main") + sources(here, "hadoop")
    listing = os.path.join(core.SCRATCH, "javac.files")
    with open(listing, "w") as f:
        f.write("".join('"%s"\n' % x for x in files))
    p = subprocess.run(["javac", "-nowarn", "-encoding", "UTF-8", "-d", out, "@" + listing], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, TMPDIR=core.SCRATCH))
    if p.returncode:
        print(p.stdout[-6000:])
        if re.search(r"org\.msgpack|it\.unimi|org\.apache|Message(Packer|Unpacker|BufferPacker|Pack)\b|Int\w+(Map|Set|List|Iterator)\b|Immutable\w+Value", p.stdout):
            raise SystemExit(2)
        if rep is not None:
            rep.add_violation("compile", {}, "the Java sources do not compile:\n" + p.stdout[-3000:], None)
        return False
    if points:
        instrument(out)
    CLASSES = out
    return True


def instrument(out):
    """Scheduling points in the classes of docria, between lines and between field accesses and calls."""
    asm = ["--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED", "--add-exports", "java.base/jdk.internal.org.objectweb.asm.tree=ALL-UNNAMED"]
    tool = os.path.join(core.SCRATCH, "tool")
    os.makedirs(tool, exist_ok=True)
    for cmd in (["javac", "-nowarn", "-d", tool] + asm + sources(core.ROOT, "mc", "java", "tool"),
                ["java"] + asm + ["-cp", tool, "Instrument", os.path.join(out, "se", "lth", "cs", "docria")]):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, TMPDIR=core.SCRATCH))
        if p.returncode:
            print(p.stdout[-3000:])
            raise SystemExit(2)


class JavaError(Exception):
    def __init__(self, cls, message):
        super().__init__("%s: %s" % (cls, message))
        self.cls = cls


class Ended(Violation):
    pass


class Process:
    def __init__(self):
        import resource

        def limits():
            try:
                resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
            except Exception:
                pass
        self.p = subprocess.Popen(["java", "-Xmx400m", "-Xss2m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-UsePerfData",
                                   "-XX:ReservedCodeCacheSize=48m", "-XX:CompressedClassSpaceSize=32m", "-cp", CLASSES, "Bridge"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits, bufsize=0)

    def read(self, n, what):
        out = b""
        begun, start, used, idle = time.time(), core.cpu_used(self.p.pid), None, time.time()
        while len(out) < n:
            ready, _, _ = select.select([self.p.stdout], [], [], 5)
            if not ready:
                now = core.cpu_used(self.p.pid)
                if now != used:
                    used, idle = now, time.time()
                # endless loop: a minute of processor time; deadlock: a minute without any; a busy machine gets longer
                if (now or 0) - (start or 0) < 6000 and time.time() - idle < 60 and time.time() - begun < 400:
                    continue
                self.p.kill()
                drop()
                raise Violation("Java did not answer: %s" % core.short(what, 1500))
            got = self.p.stdout.read(n - len(out))
            if not got:
                drop()
                self.p.wait()
                raise Ended("the Java process ended (%s): %s" % (self.p.returncode, core.short(what, 1500)))
            out += got
        return out

    def script(self, ops):
        frame = marshal.dumps(ops, 2)
        self.p.stdin.write(struct.pack(">i", len(frame)) + frame)
        n, = struct.unpack(">i", self.read(4, ops))
        out = marshal.loads(self.read(n, ops))
        CALLS[0] += len(ops)
        res = []
        for op, r in zip(ops, out):
            if r[0] == "e":
                if str(r[2]).startswith("script:"):
                    raise RuntimeError("bad script: %s in %s" % (r[2], op))
                res.append(JavaError(r[1], r[2]))
            else:
                res.append(r[1])
        return res


def drop():
    global PROCESS
    PROCESS = None


def script(ops):
    """Runs operations in the Java process of this worker; returns one result or JavaError per operation."""
    global PROCESS
    for again in (False, True):
        if PROCESS is None:
            PROCESS = Process()
        try:
            return PROCESS.script(ops)
        except (Ended, BrokenPipeError) as e:
            # Something from outside may have ended it; if it is the script, it does so again
            drop()
            if again:
                raise e if isinstance(e, Ended) else Ended("the Java process ended: %s" % core.short(ops, 1500))


def good(res, op=None):
    """The value of a result that must not be an error."""
    if isinstance(res, JavaError):
        raise Violation("Java raised %s%s" % (res, "" if op is None else " in %s" % core.short(op)))
    return res


def good_all(results):
    return [good(r) for r in results]


def available(rep):
    if shutil.which("javac") and shutil.which("java"):
        return True
    print("no Java compiler: nothing explored")
    rep.exhaustive = False
    return False


class S:
    """Builds a script."""

    def __init__(self):
        self.ops = []

    def new(self, reg, cls, *args):
        self.ops.append([reg, "new", cls] + list(args))
        return len(self.ops) - 1

    def call(self, target, method, *args, to=None):
        self.ops.append([to, "call", {"$": target}, method] + list(args))
        return len(self.ops) - 1

    def static(self, cls, method, *args, to=None):
        self.ops.append([to, "static", cls, method] + list(args))
        return len(self.ops) - 1

    def help(self, name, *args, to=None):
        self.ops.append([to, "help", name] + list(args))
        return len(self.ops) - 1

    def raw(self, name, *args, to=None):
        self.ops.append([to, "raw", name] + list(args))
        return len(self.ops) - 1

    def run(self):
        return script(self.ops)


def ref(name):
    return {"$": name}


def refs(names):
    return {"list": [ref(n) for n in names]}
