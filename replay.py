#!/usr/bin/env python3
"""replay.py FILE: re-execute a recorded schedule and fault trace exactly."""
import json
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import check as c

scratch = tempfile.mkdtemp(prefix="qmsim-")
try:
    doc = json.load(open(sys.argv[1]))
    r = c.run_file(os.path.abspath(sys.argv[1]), c.child_env(scratch), scratch, events=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
for e in r.get("event_log", [])[-60:]:
    print(e)
if r.get("violation"):
    print("kind: %s\ndetail: %s" % (r["violation"]["kind"], r["violation"]["detail"]))
    same = doc.get("digest") in (None, r["digest"])
    print("digest %s (%s the recorded one)" % (r["digest"], "equals" if same else "differs from"))
    sys.exit(1)
print("harness error: %s" % r["harness_error"] if r["harness_error"] else "no violation")
sys.exit(2 if r["harness_error"] else 0)
