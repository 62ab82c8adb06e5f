"""python tools/linecov.py PROP RUNS OUT.json [SEED]: library lines run by a check's scenarios (development aid)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import seams, worker  # noqa: E402

prop, runs, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
seen = {}
mon = sys.monitoring
mon.use_tool_id(3, "linecov")


def line(code, n):
    f = code.co_filename
    if "/src/" in f:
        seen.setdefault(os.path.basename(f), set()).add(n)
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
worker.quiet()
seams.install()
module = worker.load(prop)
from sim.core import execute_here as execute  # noqa: E402
for i in range(runs):
    execute(worker.scenario(module, prop, "quick", seed, i), module)
with seams.REAL_OPEN(out, "w") as f:
    json.dump({k: sorted(v) for k, v in seen.items()}, f)
