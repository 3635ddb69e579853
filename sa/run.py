#!/usr/bin/env python3
"""run.py <property id> : decide one property over /repo's current source."""
import importlib, os, sys, threading, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
threading.stack_size(1 << 29)


def main(pid):
    import extract
    from mir import World, AnchorError
    from report import Report
    from rules import RULES, Ctx
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(pid)
    try:
        if os.environ.get("SA_FACTS"):
            import json
            facts, info = json.load(open(os.environ["SA_FACTS"])), {"extract_s": 0}
        else:
            facts, info = extract.extract()
    except extract.ExtractError as e:
        # the tree does not build under the extractor: no verdict is possible
        print("ERROR: " + str(e))
        return 2
    w = World(facts)
    cx = Ctx(w, rep, tier)
    if pid not in RULES:
        print("unknown property", pid)
        return 2
    for f in RULES[pid]:
        try:
            f(cx)
        except AnchorError as e:
            # a renamed or restructured anchor is not evidence of a violation: say so, claim nothing
            rep.open("anchor", "%s:%s" % (f.__name__, str(e)[:160]), "", "a construct the rule is anchored on is missing or changed shape: %s" % e)
        except Exception as e:
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            rep.open("analysis", "%s:%s" % (f.__name__, type(e).__name__), "", "the rule could not analyse this source: %s" % str(e)[:300])
    info["user_functions"] = sum(1 for _ in w.user_fns())
    return rep.finish(tier, seed, info)


if __name__ == "__main__":
    box = {}

    def go():
        try:
            box["rc"] = main(sys.argv[1])
        except BaseException:
            traceback.print_exc()
            box["rc"] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(box.get("rc", 3))
