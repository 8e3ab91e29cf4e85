"""
Property-based testing runner.

A property is a module in lib/props with:

    ID, RULE                    identifier, description of generation and of what makes a case non-trivial
    QUICK, THOROUGH             number of cases
    generate(rng, i, tier)      -> case (JSON-able), a pure function of its arguments
    run(case)                   -> None when the property holds, otherwise a description (str) of how it is broken
    nontrivial(case)            -> bool
    shrink(case)   (optional)   -> yields simpler cases
    labels(case)   (optional)   -> iterable of class labels, counted in the evidence
    pinned()       (optional)   -> list of cases that are run first on every run (regressions of repaired defects)
    enumerate_all() (optional)  -> list of cases, run exhaustively
    finish(stats)  (optional)   -> extra evidence
    sample(case)   (optional)   -> short rendering of a case for the evidence

Every random choice comes from random.Random(f"{seed}/{property}/{index}"): a run is a pure function of the code,
VERIF_SEED and the tier. An exception that escapes run() is a violation: on code for which the property holds, no
case raises. HarnessError (and anything raised outside run) is an error of the check, with exit status 2.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 16
CASE_CPU_SECONDS = 60


class HarnessError(Exception):
    """Something is wrong with the check itself"""


class CaseTimeout(BaseException):
    """A case used too much CPU time"""


def _on_timer(_sig, _frame):
    raise CaseTimeout()


def stable_hash(case) -> str:
    """Hash of a case"""
    return hashlib.sha256(json.dumps(case, sort_keys=True, ensure_ascii=True).encode()).hexdigest()[:16]


def evaluate(mod, case):
    """Run one case under the CPU guard. Returns None or description of the violation"""
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        return mod.run(case)
    except CaseTimeout:
        return f"no result within {CASE_CPU_SECONDS} s of CPU time"
    except (HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        frames = [f for f in traceback.extract_tb(exc.__traceback__) if "/src/autosar/" in f.filename]
        where = f" at {os.path.basename(frames[-1].filename)}:{frames[-1].name}" if frames else \
            f" in the check ({traceback.extract_tb(exc.__traceback__)[-1].name}) while using the result"
        return f"unexpected {type(exc).__name__}: {exc}{where}"
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def shrink_case(mod, case, detail, budget=1500, seconds=40):
    """Greedy shrinking"""
    if not hasattr(mod, "shrink"):
        return case, detail
    end = time.time() + seconds
    progress = True
    while progress:
        progress = False
        for cand in mod.shrink(case):
            budget -= 1
            if budget <= 0 or time.time() > end:
                return case, detail
            got = evaluate(mod, cand)
            if got:
                case, detail, progress = cand, got, True
                break
    return case, detail


def _scratch():
    path = tempfile.mkdtemp(prefix="vfy_")
    return path


def _shard(args):
    """Worker: one shard of the cases"""
    modname, seed, tier, shard, total, deadline = args
    mod = importlib.import_module(modname)
    signal.signal(signal.SIGVTALRM, _on_timer)
    out = {"n": 0, "hashes": set(), "labels": {}, "samples": [], "failures": [], "error": None, "cut": False}
    mod.SCRATCH = _scratch()
    try:
        if shard < 0:
            todo = [("fixed", c) for c in fixed_cases(mod)]
        else:
            todo = (("random", i) for i in range(shard, total, SHARDS))
        for kind, what in todo:
            if time.time() > deadline:
                out["cut"] = True
                break
            if kind == "fixed":
                case = what
            else:
                case = mod.generate(random.Random(f"{seed}/{mod.ID}/{what}"), what, tier)
            out["n"] += 1
            detail = evaluate(mod, case)
            if detail:
                out["failures"].append((case, detail))
                if len(out["failures"]) >= 3:
                    break
                continue
            nt = mod.nontrivial(case)
            if nt:
                out["hashes"].add(stable_hash(case))
                if len(out["samples"]) < 2 and (kind == "fixed" or what % 7 == 3):
                    out["samples"].append(case)
            if hasattr(mod, "labels"):
                for lab in mod.labels(case):
                    out["labels"][lab] = out["labels"].get(lab, 0) + 1
    except BaseException:  # pylint: disable=broad-except
        out["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(mod.SCRATCH, ignore_errors=True)
    return out


def fixed_cases(mod):
    """Pinned and enumerated cases"""
    out = []
    if hasattr(mod, "pinned"):
        out += list(mod.pinned())
    if hasattr(mod, "enumerate_all"):
        out += list(mod.enumerate_all())
    return out


def load_known(prop):
    """
    Known findings: lines `known: property=<id> name=<finding> case=<json> | <what fails>`
    (lines starting with `fixed:` suppress nothing)
    """
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as fh:
            for line in fh:
                if line.startswith(f"known: property={prop} "):
                    head, _, what = line.partition(" | ")
                    name = head.split("name=")[1].split()[0]
                    case = json.loads(head.split("case=", 1)[1])
                    out.append({"name": name, "case": case, "what": what.strip()})
    return out


def write_replay(mod, case, detail, seed, tier):
    """Write replay file"""
    folder = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{mod.ID}-{stable_hash(case)}.json")
    with open(path, "w", encoding="utf-8") as fh:
        json.dump({"property": mod.ID, "seed": seed, "tier": tier, "detail": detail, "case": case}, fh, indent=1,
                  ensure_ascii=True)
        fh.write("\n")
    return path


def setup_path():
    """Import autosar from /repo's working tree, never from stale byte code"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vfy_no_such_cache")
    src = os.path.join(REPO, "src")
    sys.path.insert(0, src)
    import autosar.xml.element as elem  # pylint: disable=import-outside-toplevel
    if not os.path.realpath(elem.__file__).startswith(os.path.realpath(src)):
        raise HarnessError(f"autosar is imported from {elem.__file__}, not from {src}")


def main(argv=None):
    """Entry point: run.py <property> [--replay FILE] [--cases N]"""
    argv = list(sys.argv[1:] if argv is None else argv)
    prop = argv.pop(0)
    replay = cases = None
    while argv:
        opt = argv.pop(0)
        if opt == "--replay":
            replay = argv.pop(0)
        elif opt == "--cases":
            cases = int(argv.pop(0))
        else:
            raise SystemExit(2)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    started = time.time()
    signal.signal(signal.SIGVTALRM, _on_timer)
    setup_path()
    modname = f"props.{prop.lower()}"
    mod = importlib.import_module(modname)
    if replay:
        mod.SCRATCH = _scratch()
        try:
            with open(replay, encoding="utf-8") as fh:
                case = json.load(fh)["case"]
            detail = evaluate(mod, case)
        finally:
            shutil.rmtree(mod.SCRATCH, ignore_errors=True)
        print(detail or "the property holds on this case")
        if detail:
            print(f"VIOLATION property={prop} replay={os.path.abspath(replay)}")
        return 1 if detail else 0
    total = cases or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    deadline = started + (float(os.environ.get("VERIF_BUDGET", 0)) or
                          (getattr(mod, "QUICK_SECONDS", 240) if tier == "quick" else
                           getattr(mod, "THOROUGH_SECONDS", 780)))
    jobs = [(modname, seed, tier, s, total, deadline) for s in range(-1, SHARDS)]
    workers = max(1, min(os.cpu_count() or 1, 8))
    results = []
    if os.environ.get("VERIF_SERIAL"):
        results = [_shard(j) for j in jobs]
    else:
        with multiprocessing.get_context("fork").Pool(workers, maxtasksperchild=1) as pool:
            for res in pool.imap(_shard, jobs, chunksize=1):
                results.append(res)
                if res["failures"] or res["error"]:
                    pool.terminate()
                    break
    errors = [r["error"] for r in results if r["error"]]
    hashes = set().union(*(r["hashes"] for r in results)) if results else set()
    evaluations = sum(r["n"] for r in results)
    labels: dict = {}
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = [c for r in results for c in r["samples"]][:6]
    mod.SCRATCH = _scratch()
    violations = []
    try:
        for entry in load_known(prop):
            detail = evaluate(mod, entry["case"])
            evaluations += 1
            if detail:
                print(f"KNOWN-FINDING: property={prop} {entry['name']}: {entry['what']}")
        known = {stable_hash(e["case"]) for e in load_known(prop)}
        for r in results:
            for case, detail in r["failures"]:
                if stable_hash(case) not in known:
                    violations.append((case, detail))
        reported = []
        for case, detail in violations[:2]:
            small, why = shrink_case(mod, case, detail)
            path = write_replay(mod, small, why, seed, tier)
            reported.append((path, why))
        extra = mod.finish(labels) if hasattr(mod, "finish") else {}
    finally:
        shutil.rmtree(mod.SCRATCH, ignore_errors=True)
    rend = getattr(mod, "sample", lambda c: c)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": " ".join(mod.RULE.split()),
            "samples": [rend(c) for c in samples] or ["(none)"],
            "classes": dict(sorted(labels.items())),
            "stopped_by_time_guard": any(r["cut"] for r in results),
            **extra},
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - started, 3), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as fh:
        json.dump(evidence, fh, indent=1, ensure_ascii=True)
        fh.write("\n")
    if violations:
        for path, why in reported:
            print(f"{prop}: {why[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    print(f"{prop}: held on {evaluations} cases, {len(hashes)} distinct non-trivial, "
          f"{evidence['wall_s']} s (seed {seed}, {tier})")
    return 0
