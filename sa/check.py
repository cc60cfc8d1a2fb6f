"""python3 -B -m sa.check <PROPERTY>: decide one property of the current tree of /repo by static analysis."""
import gc
import json
import multiprocessing
import os
import resource
import signal
import sys
import time

from . import rules
from .interp import AnchorMissing
from .world import World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
_W = None


def world():
    global _W
    if _W is None:
        _W = World(REPO)
    return _W


class OutOfTime(BaseException):
    """One scenario took longer than LIMITS allows; its paths count as undecided."""


# seconds per scenario, seconds for all scenarios, bytes of address space per process
LIMITS = {"quick": (150, 720, 6 << 30), "thorough": (1200, None, 12 << 30)}
LIMIT = LIMITS["quick"]


def on_alarm(*_):
    raise OutOfTime


def unfinished(case, why):
    return {"case": case.name, "violations": [], "covered": set(), "lines": set(), "notes": [why],
            "stats": {"paths": 0, "undecided": 1, "claims": 0, "steps": 0, "infeasible": 0, "tainted": 0, "bounded": 1}}


def start_worker():
    signal.signal(signal.SIGALRM, on_alarm)
    resource.setrlimit(resource.RLIMIT_AS, (LIMIT[2], resource.getrlimit(resource.RLIMIT_AS)[1]))


def work(job):
    pid, idx = job
    out = []
    cases = CASES
    for i in idx:
        t = time.time()
        try:
            signal.setitimer(signal.ITIMER_REAL, LIMIT[0])
            try:
                r = world().run(cases[i])
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except AnchorMissing as e:
            return [{"error": f"public name vanished: {e}"}]
        except OutOfTime:
            r = unfinished(cases[i], f"stopped after {LIMIT[0]} s")
        except MemoryError:
            gc.collect()
            r = unfinished(cases[i], f"stopped at {LIMIT[2] >> 30} GB")
        r["t"] = time.time() - t
        r["i"] = i
        out.append(r)
    return out


CASES = []


def run_cases(pid, cases, procs=None):
    """Analyse all cases, spread over processes."""
    global CASES
    CASES = cases
    world()
    gc.collect()
    gc.freeze()
    gc.set_threshold(50000, 50, 50)
    procs = procs or min(8, os.cpu_count() or 1)
    n = len(cases)
    chunk = max(1, n // (procs * 12))
    jobs = [(pid, list(range(i, min(n, i + chunk)))) for i in range(0, n, chunk)]
    if procs == 1 or n < 4:
        signal.signal(signal.SIGALRM, on_alarm)
        res = [work(j) for j in jobs]
    else:
        ctx = multiprocessing.get_context("fork")
        end = None if LIMIT[1] is None else time.time() + LIMIT[1]
        res = []
        with ctx.Pool(procs, start_worker) as pool:
            it = pool.imap_unordered(work, jobs)
            try:
                while True:
                    res.append(it.next(None if end is None else max(0.1, end - time.time())))
            except StopIteration:
                pass
            except multiprocessing.TimeoutError:
                pool.terminate()
        seen = {r["i"] for x in res for r in x if "i" in r}
        if not any("error" in r for x in res for r in x):
            res += [[dict(unfinished(cases[i], f"not reached within {LIMIT[1]} s"), i=i, t=0.0)] for i in range(n) if i not in seen]
    flat = [r for x in res for r in x]
    flat.sort(key=lambda r: r.get("i", -1))
    return flat


def known_findings(pid):
    """Lines `known: property=<id> case=<case> construct=<function>` of KNOWN_FINDINGS.md."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.md")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip().lstrip("-* ")
            if l.startswith(f"known: property={pid} "):
                out.append(l[len(f"known: property={pid} "):])
    return out


def construct(v):
    l = v.get("loc") or v.get("ret")
    return f"{l[0]}:{l[1]} ({l[2]})" if l else "?"


def main(argv):
    if argv[:1] == ["--self-test"]:
        return self_test()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    global LIMIT
    LIMIT = LIMITS[tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    mod = rules.load(pid)
    try:
        w = world()
        cases = list(mod.cases())
        if tier == "thorough":
            if hasattr(mod, "thorough_cases"):
                cases += list(mod.thorough_cases())
            for c in cases:
                c.max_paths *= 8
                c.max_steps *= 3
        structural = list(mod.structural(w)) if hasattr(mod, "structural") else []
    except AnchorMissing as e:
        print(f"analysis error: public name vanished: {e}")
        return 2
    results = run_cases(pid, cases) if cases else []
    for r in results:
        if "error" in r:
            print(f"analysis error: {r['error']}")
            return 2
    violations = [v for r in results for v in r["violations"]]
    obligations = 0
    notes = {}
    for s in structural:          # {"what":…, "sites": n, "violations":[…]}
        obligations += s["sites"]
        violations += s["violations"]
    tot = {"paths": 0, "undecided": 0, "claims": 0, "steps": 0, "infeasible": 0, "tainted": 0, "bounded": 0}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        for n in r["notes"]:
            notes[n] = notes.get(n, 0) + 1
    known = known_findings(pid)
    new, old = [], []
    for v in violations:
        (old if any(v["case"] in k for k in known) else new).append(v)
    vac = [r["case"] for r in results if r["stats"]["claims"] == 0]
    seen = {}
    for v in new:
        seen.setdefault((construct(v), v["message"][:80]), v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": f"Path-sensitive abstract interpretation of {REPO}'s current source. Rule: {mod.RULE}.",
            "scenarios": len(cases), "abstract_paths": tot["paths"], "obligations_checked": tot["claims"],
            "abstract_steps": tot["steps"], "undecided_paths": tot["undecided"],
            "over_approximated_paths": tot["tainted"], "path_bounded_scenarios": tot["bounded"],
            "scenarios_without_obligation": len(vac),
            "structural_sites": obligations,
            "functions_analysed": sorted({f for r in results for f in r["covered"]}),
            "statements_analysed": len({l for r in results for l in r["lines"]}),
            "modules": sorted(m.path for m in w.I.sources.values() if m.path),
            "notes": dict(sorted(notes.items(), key=lambda x: -x[1])[:12]),
            "samples": [r["case"] for r in results[:: max(1, len(results) // 12)]][:12] + [s["what"] for s in structural][:6],
            "violations": len(new),
        },
        "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if os.environ.get("SA_LINES"):
        with open(os.environ["SA_LINES"], "a") as fh:
            for p, n in sorted({l for r in results for l in r["lines"]}):
                fh.write(f"{pid} {p}:{n}\n")
    print(f"{pid}: {len(cases)} scenarios, {tot['paths']} abstract paths, {tot['claims']} obligations, "
          f"{obligations} structural sites; {tot['undecided']} paths undecided; {time.time() - t0:.1f}s")
    if os.environ.get("SA_VERBOSE"):
        for n, c in sorted(notes.items(), key=lambda x: -x[1]):
            print(f"  note ({c}): {n}")
        for c in vac:
            print(f"  no obligation reached: {c}")
        for r in sorted(results, key=lambda r: -r["t"])[:5]:
            print(f"  slow: {r['t']:.2f}s {r['stats']['paths']} paths {r['case']}")
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {v['case']}: {v['message']}")
    if not new:
        return 0
    replay = os.path.join(VERIF, "evidence", f"{pid}.violations.json")
    with open(replay, "w") as fh:
        json.dump(new, fh, indent=1)
    for v in list(seen.values())[:8]:
        print(f"  {construct(v)}: {v['message']}")
        print(f"    scenario: {v['case']}")
        for s in v.get("trace", [])[:12]:
            print(f"      assuming {s}")
    print(f"VIOLATION property={pid} replay={replay}")
    return 1


def self_test():
    w = world()
    print(f"abstract interpreter ready: {len(w.I.sources)} modules, {len(rules.REGISTRY)} rules")
    for pid in rules.REGISTRY:
        rules.load(pid)
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
