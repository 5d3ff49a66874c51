"""Run the harnesses of one property and report."""
from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE_DIR") or os.path.join(VERIF, "evidence")


class H:
    """One harness: a function of a context, with its bounds."""

    def __init__(
        self,
        fn,
        name=None,
        params=None,
        bounds="",
        covers=(),
        tiers=("quick", "thorough"),
        timeout_ms=20000,
        budget_s=None,
        validate=16,
        max_paths=200000,
        known=None,
    ):
        self.fn = fn
        self.params = dict(params or {})
        self.name = name or fn.__name__
        if self.params:
            self.name += "[%s]" % ",".join(
                "%s=%s" % kv for kv in sorted(self.params.items())
            )
        self.bounds = bounds
        self.covers = list(covers)
        self.tiers = tiers
        self.timeout_ms = timeout_ms
        self.budget_s = budget_s
        self.validate = validate
        self.max_paths = max_paths
        # id of a listed known finding this harness isolates, if any
        self.known = known

    def call(self, ctx):
        return self.fn(ctx, **self.params)


def load(check):
    sys.path.insert(0, VERIF)
    from symx import env

    env.quiet_eliot()
    return importlib.import_module("checks." + check)


def run_task(h, tier, seed, budget):
    from symx import core

    t = time.time()
    try:
        r = core.explore(
            h.call,
            tier=tier,
            timeout_ms=h.timeout_ms,
            budget_s=h.budget_s or budget,
            validate=h.validate if tier == "quick" else h.validate * 3,
            max_paths=h.max_paths,
            seed=seed,
        )
    except BaseException:
        r = {
            "verdict": "inconclusive",
            "findings": [],
            "problems": ["engine error: " + traceback.format_exc()[-3000:]],
            "stats": None,
        }
    r["wall_s"] = time.time() - t
    if r["verdict"] == "partial":
        print("  NOTE %s: explored in part only: %s" % (h.name, r["incomplete"]), flush=True)
    if r["verdict"] == "holds":
        missing = [c for c in h.covers if not r["stats"]["covers"].get(c)]
        if missing:
            r["verdict"] = "inconclusive"
            r["problems"].append("vacuous: never reached %s" % ", ".join(missing))
        if not r["stats"]["obligations"]:
            r["verdict"] = "inconclusive"
            r["problems"].append("vacuous: no obligation was generated")
    return r


def lost(why, verdict="inconclusive"):
    return {
        "verdict": verdict,
        "incomplete": why if verdict == "partial" else None,
        "findings": [],
        "problems": [why],
        "stats": None,
        "wall_s": 0,
    }


def run_pool(tasks, jobs, tier, seed, budget, deadline, on_result):
    """Fork one process per task, at most ``jobs`` at a time.

    ``on_result`` may return True to stop everything early.
    """
    results = [None] * len(tasks)
    queue = list(range(len(tasks)))
    live = {}

    def kill_all(why, verdict="inconclusive"):
        for pid, r, _ in live.values():
            os.close(r)
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
        for i in range(len(tasks)):
            if results[i] is None:
                results[i] = lost(why, verdict)
        return results

    while queue or live:
        if time.time() > deadline:
            return kill_all("not finished within the check's time budget", "partial")
        while queue and len(live) < jobs:
            i = queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for f in live.values():
                        os.close(f[1])
                    res = run_task(tasks[i], tier, seed, budget)
                    data = json.dumps(res, default=repr).encode()
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(w)
            live[i] = (pid, r, bytearray())
        ready, _, _ = select.select([v[1] for v in live.values()], [], [], 5)
        for i in list(live):
            pid, r, buf = live[i]
            if r in ready:
                d = os.read(r, 1 << 20)
                if d:
                    buf.extend(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[i]
                try:
                    results[i] = json.loads(bytes(buf))
                except ValueError:
                    results[i] = lost("worker died")
                st = results[i]["stats"] or {}
                print(
                    "  %-60s %-14s %6.1fs paths=%s oblig=%s queries=%s solver=%.1fs"
                    % (
                        tasks[i].name,
                        results[i]["verdict"],
                        results[i].get("wall_s", 0),
                        st.get("paths"),
                        st.get("obligations"),
                        st.get("queries"),
                        st.get("solver_s", 0),
                    ),
                    flush=True,
                )
                if on_result(tasks[i], results[i]):
                    return kill_all("stopped: a violation was confirmed elsewhere")
    return results


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e.get("status") == "known"]


def replay_file(path):
    with open(path) as f:
        doc = json.load(f)
    mod = load(doc["check"])
    from symx import core

    for h in mod.HARNESSES:
        if h.name == doc["harness"]:
            verdict, detail, _ = core.run_concrete(h.call, doc["model"], doc["tier"])
            print("REPLAY %s %s" % (verdict, detail))
            return 1 if verdict in ("violation", "exception") else 0
    print("REPLAY no such harness")
    return 2


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay_file(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier
    t0 = time.time()
    mod = load(a.check)
    prop = mod.PROPERTY
    tasks = [h for h in mod.HARNESSES if tier in h.tiers]
    if a.only:
        tasks = [h for h in tasks if a.only in h.name]
    jobs = a.jobs or min(8, os.cpu_count() or 4)
    budget = 700 if tier == "quick" else 6 * 3600
    print("%s: %s (%s, %d harnesses)" % (prop, mod.TITLE, tier, len(tasks)), flush=True)
    deadline = t0 + (800 if tier == "quick" else 12 * 3600)
    known = [k for k in load_known() if k["property"] == prop]
    state = {"code": 0, "n": 0, "violations": 0}

    def on_result(h, r):
        for p in r["problems"]:
            print("  PROBLEM %s: %s" % (h.name, p), flush=True)
        if r["verdict"] == "inconclusive":
            state["code"] = 2
        for fi in r["findings"]:
            if any(
                k["harness"] == h.name
                and k["label"] == fi["label"]
                and all(fi["model"].get(a) == b for a, b in k.get("model", {}).items())
                for k in known
            ):
                continue
            if confirm(a.check, prop, h, fi, tier, state):
                state["code"] = 1
                state["violations"] += 1
                return True
            state["code"] = 2
        return False

    results = run_pool(tasks, jobs, tier, seed, budget, deadline, on_result)
    if state["code"] == 0 and any(r["verdict"] == "inconclusive" for r in results):
        state["code"] = 2
        for h, r in zip(tasks, results):
            if r["stats"] is None:
                print("  PROBLEM %s: %s" % (h.name, "; ".join(r["problems"])))
    code, violations = state["code"], state["violations"]
    partial = sum(1 for r in results if r["verdict"] == "partial")
    if partial:
        print("  NOTE %d of %d harnesses were not explored to their bounds" % (partial, len(results)))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    write_evidence(mod, tier, seed, tasks, results, time.time() - t0, violations)
    print(
        "%s: %s in %.1fs"
        % (
            prop,
            {
                0: "holds on the part explored" if partial else "holds within the bounds",
                1: "VIOLATED",
            }.get(code, "INCONCLUSIVE"),
            time.time() - t0,
        )
    )
    return code


def confirm(check, prop, h, fi, tier, state):
    """Replay a counterexample in a fresh interpreter, nothing patched."""
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, "replay-%s-%d.json" % (prop, state["n"]))
    state["n"] += 1
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "check": check,
                "harness": h.name,
                "tier": tier,
                "label": fi["label"],
                "detail": fi["detail"],
                "model": fi["model"],
                "replay_detail": fi["replay_detail"],
            },
            f,
            indent=1,
        )
    p = subprocess.run(
        [sys.executable, "-m", "symx.runner", check, "--replay", path],
        cwd=VERIF,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=300,
    )
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode == 1 and "REPLAY " in out:
        print("  counterexample in %s: %s" % (h.name, fi["label"]))
        print("    model: %s" % json.dumps(fi["model"])[:1500])
        print("    " + out.strip().replace("\n", "\n    ")[-2500:])
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return True
    print(
        "  PROBLEM %s: counterexample not confirmed in a fresh process: %s"
        % (h.name, out[-1500:])
    )
    return False


def write_evidence(mod, tier, seed, tasks, results, wall, violations):
    tot = {}
    funcs = set()
    samples = []
    per = []
    for h, r in zip(tasks, results):
        st = r["stats"] or {}
        for k, v in st.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        funcs.update(st.get("functions", ()))
        for s in st.get("samples", ())[:1]:
            if len(samples) < 8:
                samples.append({"harness": h.name, **s})
        per.append(
            {
                "harness": h.name,
                "bounds": h.bounds,
                "verdict": r["verdict"],
                "not_exhausted": r.get("incomplete"),
                "paths": st.get("paths"),
                "obligations": st.get("obligations"),
                "labels": st.get("labels"),
                "covers": st.get("covers"),
                "solver_s": round(st.get("solver_s", 0), 2),
                "wall_s": round(r.get("wall_s", 0), 2),
            }
        )
    doc = {
        "property": mod.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0) + tot.get("cut_paths", 0) + tot.get("forks", 0),
            "transitions": tot.get("forks", 0) * 2,
            "traces_validated_against_impl": tot.get("validated", 0),
            "samples": samples or [{"note": "no validated trace in this run"}],
            "explanation": "Symbolic execution of the real functions (imported from "
            "/repo/src and re-read on every run); states = symbolic states (fork "
            "points plus path ends), transitions = solver-decided branches taken out "
            "of fork points; every obligation is a solver query over all values on "
            "its path.",
            "symbolic_paths": tot.get("paths", 0),
            "obligations_posed": tot.get("obligations", 0),
            "obligations_discharged": tot.get("discharged", 0),
            "obligations_closed_by_simplification": tot.get("trivial", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_unsat": tot.get("unsat", 0),
            "solver_sat": tot.get("sat", 0),
            "solver_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_s", 0.0), 2),
            "functions_encoded": sorted(funcs),
            "harnesses": per,
        },
        "assumptions": list(mod.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, mod.PROPERTY + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, default=repr)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.stdout.flush()
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code if code is not None else 3)
