"""Runs the check of one property: python -m fv.main P01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build

VERIF = build.VERIF
QUICK_BUDGET = 100.0
THOROUGH_BUDGET = 600.0


def spawn(args, env, cwd, err):
    return subprocess.Popen([sys.executable, "-W", "ignore", "-m", "fv.worker"] + [str(a) for a in args],
                            env=env, cwd=cwd, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL,
                            start_new_session=True)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


class Check:
    def __init__(self, pid, tier, seed, workers):
        self.pid, self.tier, self.seed, self.workers = pid, tier, seed, workers
        self.scratch = tempfile.mkdtemp(prefix="fv_%s_" % pid)
        self.env = dict(os.environ)
        for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
            self.env[k] = "1"
        self.env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF, MPLBACKEND="Agg",
                        MPLCONFIGDIR=os.path.join(self.scratch, "mpl"), HOME=self.scratch, TMPDIR=self.scratch,
                        PYTHONNOUSERSITE="1")
        os.makedirs(os.path.join(self.scratch, "mpl"))
        self.t0 = time.monotonic()

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def err(self, name):
        return open(os.path.join(self.scratch, name + ".err"), "w")

    def errtext(self, name):
        try:
            with open(os.path.join(self.scratch, name + ".err")) as f:
                return f.read()[-3000:]
        except OSError:
            return ""

    def run_replay(self, rep, limit=240, name="replay"):
        """(failed, message) of a list of cases, in a fresh process."""
        path = os.path.join(self.scratch, name + ".json")
        out = os.path.join(self.scratch, name + ".out")
        with open(path, "w") as f:
            json.dump(rep, f)
        if os.path.exists(out):
            os.unlink(out)
        p = spawn(["replay", self.pkg, path, out], self.env, self.scratch, self.err(name))
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            kill(p)
            return True, "no result within %d s" % limit
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            return r["failed"], r["msg"]
        if rc < 0 and rc != -signal.SIGKILL:
            return True, "process died with signal %d" % -rc
        raise RuntimeError("replay process failed (rc %s): %s" % (rc, self.errtext(name)))

    def confirm(self, group, failure):
        """Turns a failure found by a worker into a replay document that fails in a fresh process."""
        def doc(cases):
            return {"property": self.pid, "cases": [{"group": group, "case": c} for c in cases]}
        tried = set()
        for case in (failure["case"], failure["first"]):
            key = json.dumps(case, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            bad, msg = self.run_replay(doc([case]))
            if bad:
                return doc([case]), msg
        hist = failure["history"]          # depends on what ran before it in the same process
        k = 2
        while hist:
            bad, msg = self.run_replay(doc(hist[-k:]))
            if bad:
                return doc(hist[-k:]), msg + " (after %d earlier cases in the same process)" % (len(hist[-k:]) - 1)
            if k >= len(hist):
                break
            k *= 4
        return doc([failure["case"]]), failure["msg"] + " (not reproduced in a fresh process)"

    def known(self):
        """Re-runs the pinned reproduction of every recorded finding of this property."""
        out = []
        path = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    if line.startswith("known: ") and ("property=%s " % self.pid) in line:
                        words = line.split()
                        repro = next(w[6:] for w in words if w.startswith("repro="))
                        what = line.split(repro, 1)[1].strip()
                        with open(os.path.join(VERIF, repro)) as g:
                            bad, msg = self.run_replay(json.load(g), name="known")
                        out.append((bad, what))
        return out

    def run(self):
        self.pkg = build.prepare(self.scratch)
        t_build = time.monotonic() - self.t0
        known = self.known()
        budget = QUICK_BUDGET if self.tier == "quick" else THOROUGH_BUDGET
        budget = float(os.environ.get("FV_BUDGET", budget))
        procs = []
        for i in range(self.workers):
            out = os.path.join(self.scratch, "w%d.json" % i)
            cur = os.path.join(self.scratch, "w%d.cur" % i)
            procs.append((i, out, cur, spawn(
                ["search", self.pkg, self.pid, i, self.workers, self.seed, self.tier, budget, out, cur],
                self.env, self.scratch, self.err("w%d" % i))))
        hard = time.monotonic() + budget + 180
        merged, failures, errors = {}, [], []
        for i, out, cur, p in procs:
            died = None
            try:
                rc = p.wait(max(1.0, hard - time.monotonic()))
            except subprocess.TimeoutExpired:
                kill(p)
                rc, died = None, "no progress"
            if not os.path.exists(out):
                case = None
                try:
                    with open(cur, "rb") as f:
                        raw = f.read()
                    case = json.loads(raw[10:10 + int(raw[:10])])
                except (OSError, ValueError):
                    pass
                if case is not None and (died or (rc is not None and rc < 0 and rc != -signal.SIGKILL)):
                    doc = {"property": self.pid, "cases": [case]}
                    bad, msg = self.run_replay(doc)
                    if bad:
                        failures.append((len(json.dumps(doc)), doc, msg))
                        continue
                errors.append("worker %d ended with %s: %s" % (i, died or rc, self.errtext("w%d" % i)))
                continue
            with open(out) as f:
                r = json.load(f)
            if r["error"]:
                errors.append(r["error"])
            for name, g in r["groups"].items():
                m = merged.setdefault(name, {"evaluations": 0, "hashes": set(), "labels": {}, "samples": [],
                                             "inconclusive": 0, "excluded": {}, "failures": []})
                m["evaluations"] += g["evaluations"]
                m["inconclusive"] += g["inconclusive"]
                m["hashes"].update(g["hashes"])
                m["samples"] += g["samples"]
                for k in ("labels", "excluded"):
                    for a, b in g[k].items():
                        m[k][a] = m[k].get(a, 0) + b
                if g["failure"]:
                    m["failures"].append(g["failure"])
        for name, m in merged.items():
            if m["failures"]:
                best = min(m["failures"], key=lambda f: len(json.dumps(f["case"])))
                doc, msg = self.confirm(name, best)
                failures.append((len(json.dumps(doc)), doc, msg))
        return merged, failures, errors, known, t_build

    def evidence(self, merged, nviol, known, t_build):
        rules = constant(self.pid, "RULE")
        samples = []
        for name, m in merged.items():
            for s in sorted(m["samples"], key=lambda c: len(json.dumps(c)))[-1:]:
                text = json.dumps(s)
                samples.append({"group": name, "case": s if len(text) < 3000 else text[:3000] + "..."})
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(m["evaluations"] for m in merged.values()),
                "distinct_nontrivial": sum(len(m["hashes"]) for m in merged.values()),
                "rule": rules,
                "samples": samples,
                "groups": {name: {"evaluations": m["evaluations"], "distinct_nontrivial": len(m["hashes"]),
                                  "not_run_for_lack_of_time": m["inconclusive"], "excluded": m["excluded"],
                                  "labels": dict(sorted(m["labels"].items()))}
                           for name, m in merged.items()},
                "known_findings_reproduced": sum(1 for bad, _ in known if bad),
            },
            "assumptions": ASSUMPTIONS,
            "wall_s": round(time.monotonic() - self.t0, 2),
            "violations": nviol,
        }
        ev["coverage"]["build_s"] = round(t_build, 2)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


ASSUMPTIONS = [
    "numpy, scipy, sympy, h5py and Hypothesis are trusted; floating-point comparisons use stated relative tolerances",
    "only generated inputs were explored: absence of a violation is not a proof",
]


def constant(pid, name, default=""):
    """A top-level string constant of a property module, without importing it."""
    import ast
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props", pid.lower() + ".py")
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return " ".join(ast.literal_eval(node.value).split())
    return default


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    workers = int(os.environ.get("FV_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    c = Check(a.pid, a.tier, seed, workers)
    if not a.replay:
        for old in glob.glob(os.path.join(VERIF, "replays", a.pid + "-*.json")):
            os.unlink(old)
    try:
        if a.replay:
            c.pkg = build.prepare(c.scratch)
            with open(a.replay) as f:
                bad, msg = c.run_replay(json.load(f))
            print(("FAILS: " if bad else "passes ") + msg)
            if bad:
                print("VIOLATION property=%s replay=%s" % (a.pid, a.replay))
            return 1 if bad else 0
        merged, failures, errors, known, t_build = c.run()
        c.evidence(merged, len(failures), known, t_build)
    except build.BuildError as e:
        print("ERROR building funpy: %s" % e)
        return 2
    finally:
        c.close()
    for name, m in merged.items():
        print("%-28s cases=%-6d nontrivial=%-6d late=%d excluded=%s %s" % (
            name, m["evaluations"], len(m["hashes"]), m["inconclusive"], sum(m["excluded"].values()),
            " ".join("%s:%d" % kv for kv in sorted(m["labels"].items()))[:400]))
    for bad, what in known:
        if bad:
            print("KNOWN-FINDING: property=%s %s" % (a.pid, what))
        else:
            print("note: recorded finding no longer fails: %s" % what)
    if failures:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        for k, (_, doc, msg) in enumerate(sorted(failures, key=lambda f: f[0])):
            path = os.path.join(d, "%s-%d.json" % (a.pid, k))
            with open(path, "w") as f:
                json.dump(dict(doc, message=msg), f, indent=1)
            print("%s: %s" % (doc["cases"][-1]["group"], msg))
            print("VIOLATION property=%s replay=%s" % (a.pid, path))
        return 1
    if errors:
        print("ERROR in the machinery:\n" + "\n".join(errors))
        return 2
    print("OK property=%s tier=%s seed=%d wall=%.1fs" % (a.pid, a.tier, seed, time.monotonic() - c.t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
