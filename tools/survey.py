"""python3 tools/survey.py PROP [runs] [seed] [offset]: every violation kind met, with an example (development aid)."""
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import check  # noqa: E402

prop, runs = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 200
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
off = int(sys.argv[4]) if len(sys.argv) > 4 else 0
with tempfile.TemporaryDirectory() as d:
    env = check.child_env(d)
    env['SIM_SURVEY'] = '1'
    r = check.run_batch(prop, os.environ.get("TIER", "quick"), seed, runs, 8, 600, env, d, offset=off)
    res = r[0] if isinstance(r, tuple) else r
    kinds, probes = {}, {}
    for x in res:
        for k, v in (x.get("probes") or {}).items():
            probes[k] = probes.get(k, 0) + v
        for k, v in (x.get("faults") or {}).items():
            probes["F:" + k] = probes.get("F:" + k, 0) + v
        v = x.get("violation")
        key = v["kind"] if v else ("HARNESS" if x.get("harness_error") else None)
        if key:
            kinds.setdefault(key, []).append(x)
    for k in sorted(kinds, key=lambda k: -len(kinds[k])):
        x = kinds[k][0]
        det = x["violation"]["detail"] if x.get("violation") else x["harness_error"]
        print("%4d %s run=%s\n       %s" % (len(kinds[k]), k, x.get('index'), det[-900:]))
    print(len(res), "runs; probes", probes)
