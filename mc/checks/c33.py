"""C33: threads that take or skip blocks of one Java reader get each block exactly once, under every interleaving."""
import itertools
from mc import coll, core, java
from mc.core import Violation, ensure, same, short
from mc.checks.c32 import Model, file

LEVEL = "exploration"
RULE = "threads of the real Java readers under a controlled scheduler that switches at every call into the msgpack stand-in and at every decompression; every " \
       "schedule up to a number of preemptions (depth-first, by re-execution); each distinct outcome must equal that of some order of the calls one after another"
DEADLINE = {"quick": 300, "thorough": 820}
ASSUMPTIONS = java.ASSUMPTIONS + ["threads are switched only at calls into msgpack and at decompression; code in between runs as one step"]


def gen():
    t = core.thorough()
    for kind in (1, 0):
        for codec, fn in (("none", None), ("zip", None), ("none", "none"), ("zip", "zip")):
            framed = codec == "zip"
            for layout in ((), (1,), (1, 1), (2, 1), (1, 1, 1), (1, 2, 1), (1, 0, 1), (0, 0, 1)):
                ops = "B" if 0 in layout else "BS"
                seqs = ["".join(s) for n in (1, 2) for s in itertools.product(ops, repeat=n)]
                for a, b in itertools.combinations_with_replacement(seqs, 2):
                    yield layout, codec, fn, framed, kind, (a, b), 3 if t else 2
                for trio in itertools.combinations_with_replacement([s for s in seqs if len(s) == 1 or t and len(set(s)) == 1], 3):
                    yield layout, codec, fn, framed, kind, trio, 2 if t else 1


def orders(counts):
    """All orders of the calls of threads with the given numbers of calls."""
    if not any(counts):
        yield ()
    for k, n in enumerate(counts):
        if n:
            for rest in orders(counts[:k] + (n - 1,) + counts[k + 1:]):
                yield (k,) + rest


def run(case):
    layout, codec, fn, framed, kind, programs, bound = case
    raw, blocks, ends = file(layout, codec, framed)
    res = java.script([[None, "raw", "explore", raw, kind, framed, fn, [list(p) for p in programs], bound]])[0]
    if isinstance(res, java.JavaError):
        raise Violation("exploring the threads %s failed: %s" % (programs, res))
    schedules, decisions, outcomes = res
    core.step(schedules)
    one = lambda i: coll.data(i) if kind == 1 else {k: str(v) for k, v in coll.spec(i)[0].items()}
    allowed = []
    for order in orders(tuple(len(p) for p in programs)):
        m = Model(blocks, ends)
        out = [[] for _ in programs]
        for k in order:
            got = m.do(("skipBlock",) if programs[k][len(out[k])] == "S" else ("nextBlock",))
            out[k].append(["v", [one(i) for i in got] if isinstance(got, list) else got])
        allowed.append(out)
    for outcome, schedule in outcomes:
        ensure(outcome != "deadlock", "threads %s wait for each other under the schedule %s", programs, schedule)
        if outcome not in allowed:
            raise Violation("threads %s (B nextBlock, S skipBlock) under the schedule %s got %s; no order of these calls gives that"
                            % (programs, schedule, short([[short(r[1], 60) if r[0] == "e" or not isinstance(r[1], list) else "block of %d, first %s" % (len(r[1]), short(r[1][:1], 60))
                                                           for r in t] for t in outcome], 700)))
    return core.h64(case)


def main(rep):
    if not java.available(rep) or not java.compile_java(rep):
        return
    core.enumerate_cases(rep, "threads", gen, run, bound="2 threads of up to 2 calls, all schedules with up to %d preemptions; 3 threads, up to %d" % ((3, 2) if core.thorough() else (2, 1)))
