"""One simulator process: runs a list of scenario indices, one JSON line each.

usage: python -m sim.worker PROP TIER SEED FIRST STEP COUNT DEADLINE_S OUT
       python -m sim.worker --file SCENARIO.json [--events]
       python -m sim.worker --minimise SCENARIO.json KIND BUDGET_S OUT.json
"""
import importlib
import json
import os
import resource
import sys

from . import seams


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def scenario(module, prop, tier, seed, index):
    from .core import make_rng, derive
    rng = make_rng("scenario", prop, seed, index)
    scn = module.gen(rng, tier, index)
    scn["prop"] = prop
    scn["index"] = index
    scn["verif_seed"] = seed
    scn.setdefault("seed", derive("run", prop, seed, index) & 0x7FFFFFFF)
    cfg = scn.setdefault("cfg", {})
    cfg.setdefault("hash_seed", rng.getrandbits(30))
    cfg.setdefault("hash_mode", rng.choice(
        ["seeded", "seeded", "seeded", "ascending", "descending", "colliding"]))
    cfg.setdefault("clock", rng.choice(["steady", "frozen", "skew", "jumps"]))
    cfg.setdefault("clock_seed", rng.getrandbits(20))
    # the scenario must survive a JSON round trip unchanged (replay files)
    return json.loads(json.dumps(scn))


def quiet():
    """Library code prints; keep stdout for the protocol."""
    real = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, "w")
    return os.fdopen(real, "w")


def batch(argv):
    prop, tier, seed, first, step, count, deadline, outp = argv
    seed, first, step, count = int(seed), int(first), int(step), int(count)
    deadline = float(deadline)
    out = seams.REAL_OPEN(outp, "w")
    quiet()
    seams.install()
    module = load(prop)
    from .core import execute
    t0 = seams.REAL_PERF()
    n = 0
    index = first
    while n < count:
        if seams.REAL_PERF() - t0 > deadline:
            out.write(json.dumps({"truncated": index}) + "\n")
            break
        scn = scenario(module, prop, tier, seed, index)
        a = seams.REAL_PERF()
        res = execute(scn, module)
        res["index"] = index
        res["wall"] = seams.REAL_PERF() - a
        if res["violation"] or res["harness_error"]:
            res["scenario"] = scn
        elif n < 2 and first < 4:
            res["scenario"] = scn
        out.write(json.dumps(res) + "\n")
        out.flush()
        if (res["harness_error"] or res["violation"]) and not os.environ.get("SIM_SURVEY"):
            break
        n += 1
        index += step
    out.write(json.dumps({"end": True, "wall": seams.REAL_PERF() - t0}) + "\n")
    out.close()


def one(path, events):
    with seams.REAL_OPEN(path) as f:
        scn = json.load(f)
    scn = scn.get("scenario", scn)
    out = quiet()
    seams.install()
    module = load(scn["prop"])
    from .core import execute
    res = execute(scn, module, cpu_limit=60.0, keep_events=events)
    out.write(json.dumps(res) + "\n")
    out.flush()


def minimise(path, kind, budget, outp):
    with seams.REAL_OPEN(path) as f:
        scn = json.load(f)
    quiet()
    seams.install()
    module = load(scn["prop"])
    from .core import execute
    t0 = seams.REAL_PERF()
    stats = {"tries": 0}

    def bad(s):
        if seams.REAL_PERF() - t0 > budget:
            return False
        stats["tries"] += 1
        r = execute(s, module, cpu_limit=30.0)
        return bool(r["violation"]) and r["violation"]["kind"] == kind

    def with_ops(s, ops):
        t = json.loads(json.dumps(s))
        t["ops"] = json.loads(json.dumps(ops))
        return t

    def ddmin(s):
        ops = s["ops"]
        n = 2
        while len(ops) >= 1:
            size = max(1, len(ops) // n)
            reduced = False
            i = 0
            while i < len(ops):
                cand = ops[:i] + ops[i + size:]
                if bad(with_ops(s, cand)):
                    ops = cand
                    reduced = True
                else:
                    i += size
            if not reduced:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
            else:
                n = max(2, n - 1)
            if seams.REAL_PERF() - t0 > budget:
                break
        return with_ops(s, ops)

    n0 = len(scn["ops"])
    changed = True
    while changed and seams.REAL_PERF() - t0 < budget:
        before = json.dumps(scn, sort_keys=True)
        scn = ddmin(scn)
        # shrink arguments: drop optional keys of ops, then configuration
        for i in range(len(scn["ops"])):
            for k in sorted(scn["ops"][i]):
                if k in ("op", "lab", "lab2", "client"):
                    continue
                v = scn["ops"][i][k]
                cands = []
                if isinstance(v, bool):
                    cands = [False] if v else []
                elif isinstance(v, int):
                    cands = [c for c in (0, 1, v // 2) if abs(c) < abs(v)]
                elif isinstance(v, list) and v and k in ("picks", "nested", "cells", "faults"):
                    cands = [v[:len(v) // 2], v[len(v) // 2:], v[:1]]
                    cands = [c for c in cands if c != v]
                elif v is not None and k in ("fault", "nested"):
                    cands = [None]
                for c in cands:
                    t = json.loads(json.dumps(scn))
                    t["ops"][i][k] = c
                    if bad(t):
                        scn = t
                        break
        for k, plain in (("hash_mode", "ascending"), ("clock", "steady"),
                         ("hash_seed", 0), ("clock_seed", 0)):
            if k in scn["cfg"] and scn["cfg"][k] != plain:
                t = json.loads(json.dumps(scn))
                t["cfg"][k] = plain
                if bad(t):
                    scn = t
        for t in getattr(module, "shrink_cfg", lambda s: [])(json.loads(json.dumps(scn))):
            if bad(t):
                scn = json.loads(json.dumps(t))
        changed = json.dumps(scn, sort_keys=True) != before
    r = execute(scn, module, cpu_limit=60.0, keep_events=True)
    with seams.REAL_OPEN(outp, "w") as f:
        json.dump({"scenario": scn, "result": r, "ops_before": n0,
                   "ops_after": len(scn["ops"]), "tries": stats["tries"]}, f)


def main():
    limits()
    a = sys.argv[1:]
    if a[0] == "--file":
        one(a[1], "--events" in a)
    elif a[0] == "--minimise":
        minimise(a[1], a[2], float(a[3]), a[4])
    else:
        batch(a)


if __name__ == "__main__":
    main()
