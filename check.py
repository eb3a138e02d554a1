#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current source by static analysis."""
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.setrecursionlimit(20000)


def generation(engine, pid, tier, spec, t0, why):
    """The obligations themselves could not be derived from the source: undecided as a whole, never an alarm."""
    res = [("generation of the obligations", engine.UNK, why, 0, [], "whole check")]
    return engine.finish(pid, tier, res, spec["rule"], spec["scope"], spec["level"], t0, spec["assumptions"])


def main():
    import engine
    import extract
    import interp
    import registry
    pid = sys.argv[1]
    if pid == "setup":
        print(extract.extract())
        for pip in (False, True):
            try:
                print(extract.extract_runner(pip))
            except extract.ExtractError as e:
                print("not available: %s" % str(e)[-300:])
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    spec = registry.CHECKS[pid]
    try:
        prog = engine.program() if spec.get("needs_mir", True) else None
    except extract.ExtractError as e:
        print("the source could not be extracted: %s" % e)
        return 2
    try:
        obs = spec["obligations"](prog, tier)
    except interp.Unsupported as e:
        return generation(engine, pid, tier, spec, t0, "unsupported: %s" % e)
    except (interp.PathCut, RecursionError) as e:
        return generation(engine, pid, tier, spec, t0, "bound reached: %s" % e)
    except engine.MissingAnchor as e:
        res = [("anchors", engine.BAD, "anchor missing: %s" % e, 0, [], "whole check")]
        return engine.finish(pid, tier, res, spec["rule"], spec["scope"], spec["level"], t0, spec["assumptions"])
    except Exception:
        return generation(engine, pid, tier, spec, t0, "analyser error: " + traceback.format_exc()[-1500:])
    res = engine.run(obs, budget=spec.get("budget", 700))
    return engine.finish(pid, tier, res, spec["rule"], spec["scope"], spec["level"], t0, spec["assumptions"], floor=spec.get("floor", 0))


if __name__ == "__main__":
    sys.exit(main())
