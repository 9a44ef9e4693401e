"""One worker process.

search : python -m fv.worker search  <pkgdir> <PID> <shard> <nshards> <seed> <tier> <budget_s> <out.json> <cur.json>
replay : python -m fv.worker replay  <pkgdir> <replay.json> <out.json>
"""
import hashlib
import importlib
import json
import os
import resource
import sys
import time


def _quiet():
    """Everything the code under test prints goes to /dev/null."""
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import warnings
    warnings.simplefilter("ignore")


def _import(pkgdir, pid):
    sys.path.insert(0, pkgdir)
    import numpy as np
    np.seterr(all="ignore")
    import funpy
    assert os.path.realpath(funpy.__file__).startswith(os.path.realpath(pkgdir)), funpy.__file__
    return importlib.import_module("fv.props.%s" % pid.lower())


def _bootstrap_hypothesis():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in (os.path.join(here, ".deps"), "/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
        try:
            import hypothesis  # noqa: F401
            return
        except ImportError:
            if os.path.isdir(p):
                sys.path.append(p)
    import hypothesis  # noqa: F401


def _seed(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


def search(argv):
    pkgdir, pid, shard, nshards, seed, tier, budget, out, cur = argv
    shard, nshards, seed, budget = int(shard), int(nshards), int(seed), float(budget)
    t0 = time.monotonic()
    _quiet()
    _bootstrap_hypothesis()
    from hypothesis import given, settings, HealthCheck, Phase, seed as hseed
    from hypothesis.errors import HypothesisException
    mod = _import(pkgdir, pid)
    from fv import harness
    curfd = os.open(cur, os.O_CREAT | os.O_WRONLY, 0o600)
    res = {"groups": {}, "error": None, "t_import": time.monotonic() - t0}
    wsum = sum(g.weight for g in mod.GROUPS)
    t_start = time.monotonic()
    used_weight = 0.0
    for g in mod.GROUPS:
        n = int(g.quick * getattr(mod, "MORE", 1)) if tier == "quick" else g.thorough
        n = max(1, (n + nshards - 1) // nshards)
        used_weight += g.weight
        # unused time of earlier groups is passed on to the later ones
        deadline = t_start + budget * used_weight / wsum
        st = {"evaluations": 0, "hashes": set(), "labels": {}, "samples": [], "inconclusive": 0, "excluded": {},
              "failure": None}
        state = {"fail_at": None, "best": None, "log": []}

        def body(case, g=g, st=st, state=state, deadline=deadline):
            now = time.monotonic()
            if state["fail_at"] is None:
                if now > deadline:
                    raise harness.OutOfTime()
            elif now > state["fail_at"] + 60:
                raise harness.StopSearch()
            text = harness.canon({"group": g.name, "case": case}).encode()
            os.pwrite(curfd, b"%10d" % len(text) + text, 0)
            searching = state["fail_at"] is None
            if searching:
                state["log"].append(case)
                st["evaluations"] += 1
            try:
                labels = harness.run_case(g, case)
            except harness.Excluded as e:
                if searching:
                    st["excluded"][str(e)] = st["excluded"].get(str(e), 0) + 1
                return
            except harness.Violation as e:
                if searching:
                    state["fail_at"] = now
                    state["first"] = (case, str(e), len(state["log"]))
                size = len(text)
                if state["best"] is None or size <= state["best"][0]:
                    state["best"] = (size, case, str(e))
                raise
            if searching and labels:
                st["hashes"].add(harness.case_hash(g.name, case))
                for lab in labels:
                    st["labels"][lab] = st["labels"].get(lab, 0) + 1
                if len(st["samples"]) < 2 or (len(st["samples"]) < 4 and st["evaluations"] % 97 == 0):
                    st["samples"].append(case)

        def runner(case):
            return body(case)

        test = given(g.strategy)(runner)
        test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                        report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink])(test)
        test = hseed(_seed(seed, pid, g.name, shard))(test)
        try:
            test()
        except harness.Violation:
            pass
        except harness.StopSearch:
            pass
        except harness.OutOfTime:
            st["inconclusive"] += n - st["evaluations"]
        except HypothesisException as e:
            if state["best"] is None:
                res["error"] = "%s: %s: %s" % (g.name, type(e).__name__, e)
        except MemoryError as e:
            res["error"] = "%s: out of memory %s" % (g.name, e)
        except Exception as e:
            if state["best"] is None:
                import traceback
                res["error"] = "%s: %s" % (g.name, traceback.format_exc()[-3000:])
        if state["best"] is not None:
            first_case, first_msg, idx = state["first"]
            st["failure"] = {"case": state["best"][1], "msg": state["best"][2],
                             "first": first_case, "first_msg": first_msg,
                             "history": state["log"][:idx][-2000:]}
        st["hashes"] = sorted(st["hashes"])
        res["groups"][g.name] = st
        if st["failure"] is not None or res["error"]:
            break
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def replay(argv):
    path, out = argv[1], argv[2]
    with open(path) as f:
        rep = json.load(f)
    _quiet()
    _bootstrap_hypothesis()
    mod = _import(argv[0], rep["property"])
    from fv import harness
    groups = {g.name: g for g in mod.GROUPS}
    res = {"failed": False, "msg": ""}
    last = len(rep["cases"]) - 1
    for i, item in enumerate(rep["cases"]):
        try:
            harness.run_case(groups[item["group"]], item["case"])
        except harness.Excluded as e:
            res["msg"] = "excluded: %s" % e
        except harness.Violation as e:
            if i == last:
                res = {"failed": True, "msg": str(e)}
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except (ValueError, OSError):
        pass
    {"search": search, "replay": replay}[sys.argv[1]](sys.argv[2:])
