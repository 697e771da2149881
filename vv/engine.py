"""Drives one property: hypothesis workers, replay, shrinking, evidence."""
import hashlib
import importlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .env import HERE
from .runner import Box, Inconclusive, Violation, judging, new_base, preload

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Done(BaseException):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=False, default=str)


def digest(case):
    return hashlib.sha1(canon(case).encode("utf-8", "surrogatepass")).hexdigest()[:16]


class Info:
    """What check() reports about one case."""

    __slots__ = ("nontrivial", "labels", "evals")

    def __init__(self, nontrivial, labels=(), evals=1):
        self.nontrivial, self.labels, self.evals = nontrivial, tuple(labels), evals


def run_check(mod, case, box):
    """check(), where output the oracle cannot even read counts as a violation."""
    try:
        return mod.check(case, box)
    except (Violation, Inconclusive, MemoryError):
        raise
    except OSError as e:
        if isinstance(e, (FileNotFoundError, NotADirectoryError, IsADirectoryError)):
            with judging("result"):
                raise
        raise
    except Exception as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        with judging("result"):
            raise


def load(pid):
    return importlib.import_module("vv.props.%s" % pid.lower())


def _worker(mod, tier, seed, w, n, budget, out, flag):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t0 = time.time()
    base = new_base()
    box = Box(base)
    st = dict(gen=0, evals=0, nontrivial=set(), labels={}, samples=[], best=None, fails=0, error=None, incon=0, timeup=False)
    first_fail = [None]
    shrink_s = getattr(mod, "SHRINK_S", 25)

    def body(case):
        if first_fail[0] is None and time.time() - t0 > budget:
            st["timeup"] = True
            raise Done()
        if first_fail[0] is None and os.path.exists(flag):
            raise Done()
        if first_fail[0] is not None and time.time() - first_fail[0] > shrink_s:
            raise Done()
        box.reset()
        st["gen"] += 1
        c0 = box.commands
        try:
            info = run_check(mod, case, box)
        except Violation as v:
            st["fails"] += 1
            if first_fail[0] is None:
                first_fail[0] = time.time()
                open(flag, "w").close()
            size = len(canon(case))
            if st["best"] is None or size <= st["best"][0]:
                st["best"] = (size, case, v.msg)
            raise
        except Inconclusive:
            st["incon"] += 1
            return
        if first_fail[0] is not None:
            return
        st["evals"] += max(info.evals, box.commands - c0)
        for lb in info.labels:
            st["labels"][lb] = st["labels"].get(lb, 0) + 1
        if info.nontrivial:
            st["nontrivial"].add(digest(case))
            if not st["samples"] or st["gen"] % 23 == 0:
                st["samples"] = [case]

    try:
        test = hypothesis.seed(seed * 1000003 + w)(
            settings(
                max_examples=n,
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                print_blob=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
            )(given(mod.strategy(tier))(body))
        )
        try:
            test()
        except Done:
            pass
        except Violation:
            pass
        except BaseException as e:
            if st["best"] is None:
                st["error"] = "".join(traceback.format_exception(e))
    except BaseException as e:
        st["error"] = "".join(traceback.format_exception(e))
    shutil.rmtree(base, ignore_errors=True)
    with open(out, "wb") as f:
        pickle.dump(st, f)


def known_entries(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid]


def run_one(mod, case):
    """Runs one case outside hypothesis; returns the violation message or None."""
    base = new_base()
    try:
        run_check(mod, case, Box(base).reset())
        return None
    except Violation as v:
        return v.msg
    finally:
        shutil.rmtree(base, ignore_errors=True)


def write_replay(pid, case, msg):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (pid, digest(case)))
    with open(p, "w") as f:
        json.dump({"property": pid, "message": msg, "case": case}, f, indent=1, ensure_ascii=True, default=str)
    return p


def main(argv):
    if argv == ["--setup"]:
        return 0
    pid = argv[0]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    mod = load(pid)
    preload()
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    try:
        if replay:
            with open(replay) as f:
                case = json.load(f)["case"]
            msg = run_one(mod, case)
            if msg:
                print("VIOLATION property=%s replay=%s" % (pid, replay))
                print("  " + msg)
                return 1
            print("replay %s: property holds" % replay)
            return 0
        return _explore(pid, mod, tier, seed, t0)
    finally:
        if hasattr(mod, "cleanup"):
            mod.cleanup()


def _explore(pid, mod, tier, seed, t0):
    viol = []
    ncorpus = 0
    # 1. fixed corpus: regressions of repaired defects and hand-picked corners
    for e in known_entries(pid):
        if "case" not in e:
            continue
        msg = run_one(mod, e["case"])
        if e["status"] == "known":
            if msg:
                print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
            else:
                print("note: known finding %s no longer reproduces" % e["id"])
        elif msg:
            viol.append((e["case"], "regression of a repaired defect (%s): %s" % (e["id"], msg)))
        ncorpus += 1
    for case in getattr(mod, "corpus", lambda: [])():
        msg = run_one(mod, case)
        ncorpus += 1
        if msg:
            viol.append((case, msg))
    # 2. generated search
    agg = dict(gen=0, evals=0, nontrivial=set(), labels={}, samples=[], incon=0, timeup=False)
    errors = []
    if not viol:
        n = mod.COUNTS[tier]
        budget = getattr(mod, "BUDGET", {"quick": 240, "thorough": 3000})[tier]
        W = min(WORKERS, getattr(mod, "WORKERS", WORKERS))
        tmp = tempfile.mkdtemp(prefix="vvw.")
        pids = []
        for w in range(W):
            out = os.path.join(tmp, "w%d" % w)
            sys.stdout.flush()
            sys.stderr.flush()
            p = os.fork()
            if p == 0:
                try:
                    _worker(mod, tier, seed, w, max(1, n // W), budget, out, os.path.join(tmp, "flag"))
                finally:
                    sys.stdout.flush()
                    os._exit(0)
            pids.append((w, p, out))
        results = []
        for w, p, out in pids:
            os.waitpid(p, 0)
            if not os.path.exists(out):
                errors.append("worker %d died" % w)
                continue
            with open(out, "rb") as f:
                results.append(pickle.load(f))
        shutil.rmtree(tmp, ignore_errors=True)
        for st in results:
            agg["gen"] += st["gen"]
            agg["evals"] += st["evals"]
            agg["incon"] += st["incon"]
            agg["timeup"] |= st["timeup"]
            agg["nontrivial"] |= st["nontrivial"]
            agg["samples"] += st["samples"][:1]
            for k, v in st["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            if st["error"]:
                errors.append(st["error"])
        for st in sorted((s for s in results if s["best"]), key=lambda s: s["best"][0]):
            size, case, msg = st["best"]
            case = json.loads(json.dumps(case, default=str)) if getattr(mod, "JSONABLE", True) else case
            again = run_one(mod, case)
            if again:
                viol.append((case, again))
                break
            errors.append("a failing case did not fail again: %s\n%s" % (msg, canon(case)[:3000]))
        # a time limit hit on an empty exploration says nothing
        if not viol and not errors and agg["gen"] == 0 and ncorpus == 0:
            errors.append("nothing was explored")
    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["gen"] + ncorpus,
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": mod.RULE,
            "samples": [json.loads(json.dumps(s, default=str)) for s in agg["samples"][:4]],
            "commands_run": agg["evals"],
            "corpus_cases": ncorpus,
            "classes": dict(sorted(agg["labels"].items())),
            "inconclusive": agg["incon"],
            "time_budget_hit": agg["timeup"],
        },
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if getattr(mod, "ASSUMPTIONS", None):
        ev["assumptions"] = mod.ASSUMPTIONS
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for case, msg in viol[:1]:
        p = write_replay(pid, case, msg)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  " + msg[:3000])
    if viol:
        return 1
    if errors:
        sys.stderr.write("\n".join(errors[:3]) + "\n")
        return 2
    print(
        "OK property=%s tier=%s seed=%d cases=%d nontrivial=%d commands=%d wall=%.1fs"
        % (pid, tier, seed, agg["gen"] + ncorpus, len(agg["nontrivial"]), agg["evals"], wall)
    )
    return 0
