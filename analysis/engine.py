"""Runs the obligations of one property, writes its evidence and decides the exit status.

An obligation is (name, anchor, thunk): name identifies it stably (no line numbers), anchor says which source construct
it is about, thunk() returns Result. Results: OK, VIOLATION (the rule is broken on some abstract path) or UNDECIDED (the
analysis has no transfer function for something on the way; reported, never an alarm).
"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "analysis"))
import extract
import interp
import mir
import models


class Result:
    __slots__ = ("status", "detail", "paths", "visited", "where")

    def __init__(self, status, detail="", paths=0, visited=(), where=""):
        self.status, self.detail, self.paths, self.visited, self.where = status, detail, paths, set(visited), where


OK, BAD, UNK = "discharged", "VIOLATION", "undecided"


class MissingAnchor(Exception):
    pass


_OBS = []
_DEADLINE = [None]
ONE_LIMIT = 240


def _one(i):
    name, anchor, thunk = _OBS[i]
    if _DEADLINE[0] is not None and time.time() > _DEADLINE[0]:
        return i, UNK, "time budget of this check used up before the obligation was analysed", 0, [], ""
    # on the unchanged tree no obligation takes more than a fraction of this; a change that makes the paths explode is undecided
    interp.DEADLINE[0] = min(time.time() + ONE_LIMIT, (_DEADLINE[0] or float("inf")) + 60)
    try:
        r = thunk()
    except MissingAnchor as e:
        return i, BAD, "anchor missing: %s" % e, 0, [], anchor
    except interp.Unsupported as e:
        return i, UNK, "unsupported: %s" % e, 0, [], anchor
    except (interp.PathCut, RecursionError) as e:
        return i, UNK, "bound reached: %s" % e, 0, [], anchor
    except Exception:
        return i, UNK, "analyser error: " + traceback.format_exc()[-1500:], 0, [], anchor
    return i, r.status, r.detail, r.paths, sorted(r.visited), r.where or anchor


def program():
    return mir.Program(extract.extract())


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = set()
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.add(l.split("key=", 1)[1].split(" ::", 1)[0].strip())
    return out


def finish(prop, tier, results, rule, scope, level, t0, assumptions, extra=None, floor=0):
    """results: list of (name, status, detail, paths, visited, where)."""
    known = known_findings(prop)
    bad = [r for r in results if r[1] == BAD]
    und = [r for r in results if r[1] == UNK]
    okc = [r for r in results if r[1] == OK]
    viol, kn = [], []
    for r in bad:
        (kn if r[0] in known else viol).append(r)
    if floor and not os.environ.get("VERIF_STOP") and len(results) < floor:
        viol.append(("coverage-floor", BAD, "only %d obligations were generated, %d expected" % (len(results), floor), 0, [], "whole check"))
    visited = set()
    for r in results:
        visited |= set(r[4])
    cov = {
        "explanation": rule,
        "obligations": len(results), "discharged": len(okc), "undecided": len(und), "violated": len(bad),
        "abstract_paths": sum(r[3] for r in results),
        "functions_analysed": sorted(visited),
        "scope": scope,
        "undecided_obligations": [{"obligation": r[0], "reason": r[2][:400]} for r in und[:60]],
        "sample_obligations": [r[0] for r in okc[:40]],
        "checker_cmd": "python3 /verif/check.py %s %s" % (prop, tier),
        "trusted_base": ["rustc nightly MIR construction", "/verif/driver", "/verif/analysis"],
    }
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "assumptions": assumptions,
          "violations": len(viol)}
    evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rep = os.path.join(evd, prop + ".violations.txt")
    with open(rep, "w") as f:
        for r in viol:
            f.write("obligation: %s\nconstruct: %s\n%s\n\n" % (r[0], r[5], r[2]))
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for r in kn:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, r[0], r[2].split("\n")[0][:300]))
    print("%s (%s): %d obligations, %d discharged, %d undecided, %d violated, %d abstract paths, %d functions, %.1fs" % (
        prop, tier, len(results), len(okc), len(und), len(viol), cov["abstract_paths"], len(visited), time.time() - t0))
    for r in und[:8]:
        print("  undecided: %s: %s" % (r[0], r[2].strip().split("\n")[-1][:240]))
    for r in viol[:10]:
        print("  broken: %s\n    at %s\n    %s" % (r[0], r[5], r[2][:700]))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    return 0


def run(obs, workers=None, budget=None):
    global _OBS
    _OBS = obs
    _DEADLINE[0] = time.time() + budget if budget else None
    n = workers or min(8, os.cpu_count() or 2)
    out = []
    if n <= 1 or len(obs) < 4:
        res = [_one(i) for i in range(len(obs))]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(n) as pool:
            if os.environ.get("VERIF_STOP"):        # tools/mutants.py: one reported obligation is enough
                order = sorted(range(len(obs)), key=lambda i: (i * 7919) % 10007)
                order = order[:max(100, int(len(order) * float(os.environ["VERIF_STOP"])))]
                res = []
                for r in pool.imap_unordered(_one, order, chunksize=4):
                    res.append(r)
                    if r[1] == BAD:
                        break
                return [(obs[i][0], st, d, p, v, w) for i, st, d, p, v, w in res]
            res = pool.map(_one, range(len(obs)), chunksize=max(1, min(16, len(obs) // (n * 6) or 1)))
    for i, st, d, p, v, w in res:
        out.append((obs[i][0], st, d, p, v, w))
    return out


def judge(outs, complete, ok, allow_incomplete=False):
    """Fold explore() outcomes: ok(outcome) returns None or a reason. Panics are judged by ok as well."""
    visited = set()
    unk = None
    for o in outs:
        visited |= o.interp.visited
        if o.kind in ("unsupported", "cut"):
            unk = unk or o.detail
            continue
        r = ok(o)
        if r is not None:
            what = "path %s%s: %s" % (o.kind, " with " + ", ".join("%r=%r" % kv for kv in o.subst.items()) if o.subst else "", r)
            return Result(BAD, what, len(outs), visited, (o.detail or "").split(" at ")[-1] if o.kind != "return" else "")
    if unk is not None:
        return Result(UNK, unk, len(outs), visited)
    if not complete and not allow_incomplete:
        return Result(UNK, "path limit", len(outs), visited)
    if not outs:
        return Result(UNK, "no feasible path", 0, visited)
    return Result(OK, "", len(outs), visited)
