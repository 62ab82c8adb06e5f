"""python -m sim.check PROP [--tier quick|thorough] [--runs N] : one check.

exit 0 quiet, exit 1 with a VIOLATION line, exit 2 harness trouble.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import registry

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.path.join(os.environ.get("QM_SRC", "/repo/src"), ".."))


def py():
    for p in ("/opt/venv/bin/python", sys.executable):
        if os.path.exists(p):
            return p


def child_env(scratch, hashseed="0"):
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("PYTHON") and not k.startswith("QM_")}
    env.update(PYTHONPATH=VERIF, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               QM_SRC=os.environ.get("QM_SRC", "/repo/src"))
    return env


def run_child(args, env, cwd, timeout):
    return subprocess.run([py(), "-m", "sim.worker"] + args, env=env, cwd=cwd,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                          text=True)


def run_file(path, env, cwd, events=False, timeout=300):
    p = run_child(["--file", path] + (["--events"] if events else []), env, cwd, timeout)
    lines = p.stdout.strip().splitlines()
    if p.returncode != 0 or not lines:
        return {"violation": None, "harness_error": "rc=%s %s" % (p.returncode, p.stderr[-1500:]),
                "digest": None}
    return json.loads(lines[-1])


def run_batch(prop, tier, seed, runs, workers, deadline, env, scratch, tag="b", offset=0):
    procs = []
    workers = max(1, min(workers, runs))
    for w in range(workers):
        cnt = len(range(w, runs, workers))
        out = os.path.join(scratch, "%s%d.jsonl" % (tag, w))
        err = open(out + ".err", "w")
        procs.append((w, out, err, subprocess.Popen(
            [py(), "-m", "sim.worker", prop, tier, str(seed), str(offset + w), str(workers), str(cnt),
             str(deadline), out], env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=err)))
    results, truncated, dead = [], False, []
    hard = time.time() + deadline + 120
    for w, out, err, p in procs:
        try:
            rc = p.wait(timeout=max(5, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "wall timeout"
        err.close()
        ended = False
        if os.path.exists(out):
            for line in open(out):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r.get("end"):
                    ended = True
                elif "truncated" in r:
                    truncated = True
                else:
                    results.append(r)
        if not ended:
            dead.append("worker %s: rc=%s %s" % (w, rc, open(out + ".err").read()[-1500:]))
    results.sort(key=lambda r: r["index"])
    return results, truncated, dead


def repo_files(mods):
    return mods


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.self_test:
        a.no_evidence, a.tier, a.workers = True, "quick", 2
        for a.prop in ("C01", "C13"):
            scratch = tempfile.mkdtemp(prefix="qmsim-")
            try:
                res, _, dead = run_batch(a.prop, "quick", 1, 4, 2, 120.0, child_env(scratch), scratch)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
            # only the machinery is tested here; violations are the checks' business
            if dead or not res or any(r["harness_error"] for r in res):
                print("self-test failed: %s" % (dead or [r["harness_error"] for r in res]))
                sys.exit(2)
        print("simulator ready")
        sys.exit(0)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    meta = registry.PROPS[a.prop]
    runs = a.runs or meta["runs"][tier]
    deadline = 600.0 if tier == "quick" else 720.0
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="qmsim-")
    rc = 2
    try:
        rc = check(a, meta, tier, seed, runs, deadline, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def check(a, meta, tier, seed, runs, deadline, scratch, t0):
    prop = a.prop
    env = child_env(scratch)
    print("check %s tier=%s VERIF_SEED=%d runs=%d" % (prop, tier, seed, runs), flush=True)

    # known findings: dedicated scenarios, replayed first
    known_out = []
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if not line or not line.startswith("{"):
                continue
            k = json.loads(line)
            if k.get("property") != prop or k.get("status") != "known":
                continue
            r = run_file(os.path.join(VERIF, k["scenario"]), env, scratch)
            if r["violation"] and r["violation"]["kind"] == k["kind"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                known_out.append(k["id"])
            elif r["violation"]:
                return report(a, prop, json.load(open(os.path.join(VERIF, k["scenario"]))), r,
                              env, scratch, tier, seed, [], 0, t0, meta, known_out)

    results, truncated, dead = run_batch(prop, tier, seed, runs, a.workers, deadline, env, scratch)
    bad = [r for r in results if r["violation"]]
    herr = [r for r in results if r["harness_error"]]
    if bad:
        r = bad[0]
        return report(a, prop, r["scenario"], r, env, scratch, tier, seed, results, runs, t0, meta, known_out)
    if herr or dead:
        for r in herr[:3]:
            print("HARNESS-ERROR index=%s\n%s" % (r["index"], r["harness_error"]))
        for d in dead[:3]:
            print("HARNESS-ERROR %s" % d)
        return 2
    # determinism: replay a sample of seeds in other processes, other worker
    # count and another PYTHONHASHSEED, and compare the event digests
    nd = min(runs, meta.get("det", 24) if tier == "quick" else 4 * meta.get("det", 24))
    env2 = child_env(scratch, "4242")
    again, tr2, dead2 = run_batch(prop, tier, seed, nd, 3, deadline / 4, env2, scratch, "d")
    by = {r["index"]: r["digest"] for r in results}
    mism = [r["index"] for r in again if by.get(r["index"]) != r["digest"]]
    if mism:
        print("note: event digests differ under another PYTHONHASHSEED for runs %s" % mism[:10])
    evidence(a, prop, tier, seed, results, truncated, len(again), len(mism), t0, meta, 0, known_out)
    print("ok %s: %d simulated runs, %d distinct states, %.1f s" % (
        prop, len(results), len(set(s for r in results for s in r["states"])), time.time() - t0))
    return 0


def report(a, prop, scn, res, env, scratch, tier, seed, results, runs, t0, meta, known):
    kind = res["violation"]["kind"]
    path = os.path.join(scratch, "viol.json")
    with open(path, "w") as f:
        json.dump(scn, f)
    # the violation must reproduce in a fresh process before it is believed
    confirm = run_file(path, env, scratch)
    if not confirm.get("violation"):
        print("HARNESS-ERROR run %s violated %s in the batch but not alone: %s" % (
            scn.get("index"), kind, confirm.get("harness_error")))
        return 2
    kind = confirm["violation"]["kind"]
    mini = os.path.join(scratch, "mini.json")
    budget = 90 if tier == "quick" else 180
    final = {"scenario": scn, "result": confirm}
    try:
        run_child(["--minimise", path, kind, str(budget), mini], env, scratch, budget + 120)
        m = json.load(open(mini))
        if m["result"]["violation"] and m["result"]["violation"]["kind"] == kind:
            final = m
    except Exception as e:
        print("note: minimisation gave up: %s" % e)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s-seed%s-run%s.json" % (prop, seed, scn.get("index", "known")))
    r1 = None
    for cand in (final, {"scenario": scn, "result": confirm}):
        with open(rp, "w") as f:
            json.dump({"property": prop, "kind": kind, "scenario": cand["scenario"],
                       "detail": (cand["result"]["violation"] or {}).get("detail"),
                       "digest": cand["result"]["digest"],
                       "event_log": cand["result"].get("event_log", [])[-200:],
                       "ops_before": cand.get("ops_before"), "ops_after": cand.get("ops_after")},
                      f, indent=1)
        r1 = run_file(rp, env, scratch)
        if r1.get("violation") and r1["violation"]["kind"] == kind:
            break
    print("violated: %s" % kind)
    print("  " + str((r1.get("violation") or confirm["violation"])["detail"])[:1500])
    print("  seed=%s run=%s schedule of %s ops (from %s); replay: python3 %s/replay.py %s" % (
        seed, scn.get("index"), len(final["scenario"].get("ops", [])), len(scn.get("ops", [])), VERIF, rp))
    print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
    evidence(a, prop, tier, seed, results or [res], False, 0, 0, t0, meta, 1, known)
    return 1


def evidence(a, prop, tier, seed, results, truncated, det_n, det_bad, t0, meta, violations, known):
    if a.no_evidence:
        return
    wall = time.time() - t0
    states, faults, probes = set(), {}, {}
    digests = set()
    events = checks = steps = 0
    simt = 0.0
    samples = []
    for r in results:
        states.update(r["states"])
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        digests.add(r["digest"])
        events += r["events"]
        checks += r["checks"]
        steps += r["steps"]
        simt += r["sim_time"]
        if len(samples) < 3 and "scenario" in r:
            s = json.dumps(r["scenario"])
            samples.append(r["scenario"] if len(s) < 6000 else s[:6000])
    nontriv = len(set(r["digest"] for r in results if r["events"] >= 3 and r["checks"] > 0))
    cov = {
        "evaluations": len(results),
        "distinct_nontrivial": nontriv,
        "rule": meta["rule"] + " A run counts when its event log has at least three events, at "
                "least one oracle check was evaluated in it, and its log differs from every other run's.",
        "samples": samples,
        "seeds_per_hour": round(len(results) / max(wall, 1e-9) * 3600),
        "simulated_seconds_covered": round(simt, 3),
        "simulated_events": events,
        "simulated_steps": steps,
        "oracle_checks": checks,
        "fault_kinds_fired": faults,
        "rare_conditions_hit": probes,
        "distinct_states": len(states),
        "distinct_states_measure": meta["measure"],
        "distinct_interleavings": len(digests),
        "runs_with_a_fault": sum(1 for r in results if r["faults"]),
        "truncated_by_deadline": truncated,
        "determinism": {"runs_replayed_in_other_processes_and_hashseed": det_n,
                        "digest_mismatches": det_bad},
        "components_real": meta["real"],
        "components_stubbed": meta["stub"],
        "known_findings_seen": known,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "exploration"),
          "coverage": cov, "assumptions": meta["assumptions"], "wall_s": round(wall, 2),
          "violations": violations}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


if __name__ == "__main__":
    main()
