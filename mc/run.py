"""Command line entry: run the check of one property."""
import sys
import os
import json
import importlib
import traceback


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    if a.tier:
        os.environ["VERIF_TIER"] = a.tier
    replay = None
    if a.replay:
        replay = json.load(open(a.replay))
        os.environ["VERIF_TIER"] = replay.get("tier", "quick")
    from mc import core
    core.make_scratch()
    try:
        try:
            core.bootstrap()
        except Exception:
            # the code under test does not even import: nothing holds
            rep = core.Report(a.prop, "other", "", 10)
            rep.add_violation("import", {}, "docria cannot be imported:\n" + traceback.format_exc(), None)
            return rep.finish()
        mod = importlib.import_module("mc.checks." + a.prop.lower())
        rep = core.Report(a.prop, mod.LEVEL, mod.RULE, getattr(mod, "DEADLINE", {"quick": 300, "thorough": 800})[core.TIER])
        rep.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        if replay is not None:
            return do_replay(core, mod, rep, replay)
        mod.main(rep)
        return rep.finish()
    finally:
        core.drop_scratch()


def do_replay(core, mod, rep, replay):
    part, case = replay["part"], replay["case"]
    hit = []

    def enumerate_cases(_rep, name, gen, run, workers=None, bound=""):
        if name != part or hit:
            return
        for i, c in enumerate(gen()):
            if i == case["index"]:
                print("case %d: %s" % (i, core.short(c, 3000)))
                hit.append(core.guarded(run, c)[1])
                return

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x

    def search(_rep, name, factory, configs, depth, max_states=None, bound=""):
        if name != part or hit:
            return

        def run():
            cfg = [c for c in configs if json.loads(json.dumps(c, default=repr)) == case["config"]][0]
            s = factory(cfg)
            s.observe()
            for op in case["history"]:
                print("  ", op)
                s.apply(tup(op))
                s.observe()
        hit.append(core.guarded(run)[1])

    core.enumerate_cases, core.search = enumerate_cases, search
    core.init_worker()
    mod.main(rep)
    if hit and hit[0]:
        print(hit[0][0])
        print("reproduced")
        return 1
    print("not reproduced" if hit else "part or case not found")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
