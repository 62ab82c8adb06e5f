"""Plant a bug, confirm it, and see which checks catch it (development aid; nothing registered uses this).

python3 tools/plant.py new SPEC.py      SPEC defines ID, PROP, FILE, EDITS=[(old,new)], DEMO (python source), NEEDS, BREAKS
python3 tools/plant.py check ID [PROP]  applies seeded/ID, runs the check(s), undoes it
"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# everything happens in a scratch clone; /repo is only read
R = os.environ.get("PLANT_REPO", "/tmp/plantrepo")
BASE = "61338fa"
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in this scenario; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$work/pyc" MPLBACKEND=Agg MPLCONFIGDIR="$work"
export OMP_NUM_THREADS=1
timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    subprocess.run(["rm", "-rf", R], check=True)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", R], check=True)


def tests():
    """The stable tests, on the clone."""
    out = R + ".out.json"
    for name, args in (("build", []), ("test", [out])):
        src = open("/opt/vp/%s.sh" % name).read().replace("'/repo", "'" + R).replace("=/repo", "=" + R).replace(
            " /repo/tests", " %s/tests" % R)
        sh("bash", "-c", src, name, *args)
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(b - set(json.load(open(out))["passed"]))


def check(pid, props):
    for p in props:
        r = sh("python3", "-m", "sim.check", p, "--no-evidence", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", QM_SRC=R + "/src"))
        line = [t for t in r.stdout.splitlines() if "VIOLATION" in t or "runs" in t]
        print("   %s on %s: exit %d %s" % (p, pid, r.returncode, " | ".join(line)[:300]))


def main():
    fresh()
    try:
        if sys.argv[1] == "check":
            d = os.path.join(V, "seeded", sys.argv[2])
            m = json.load(open(os.path.join(d, "meta.json")))
            subprocess.run(["git", "-C", R, "apply", os.path.join(d, "patch.diff")], check=True)
            check(sys.argv[2], sys.argv[3:] or [m["property"]])
            return 0
        s = {}
        exec(open(sys.argv[2]).read(), s)
        path = os.path.join(R, s["FILE"])
        src = open(path).read()
        orig = sh("git", "-C", R, "show", BASE + ":" + s["FILE"]).stdout
        for old, new in s["EDITS"]:
            assert src.count(old) == 1, (src.count(old), old)
            src = src.replace(old, new)
        d = os.path.join(V, "seeded", s["ID"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.py"), "w").write(s["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        demo = ["bash", os.path.join(d, "demo.sh")]
        r0 = sh(*demo, cwd=R)
        open(path, "w").write(src)
        diff = sh("git", "-C", R, "diff").stdout
        olines = set(orig.splitlines())
        lost = [t[1:] for t in diff.splitlines() if t.startswith("-") and not t.startswith("---")]
        bad = [t for t in lost if t not in olines]
        r1 = sh(*demo, cwd=R)
        miss = tests()
        ok = r0.returncode == 0 and r1.returncode not in (0, 124) and not miss and not bad
        print("%s clean:%d patched:%d tests missing:%s not original:%s" % (s["ID"], r0.returncode, r1.returncode, miss, bad))
        if r0.returncode:
            print(r0.stdout[-1500:])
        print("    demo says:", r1.stdout.strip().splitlines()[-1:] )
        if not ok:
            print("   REJECTED")
            subprocess.run(["rm", "-rf", d])
            return 1
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        check(s["ID"], [s["PROP"]] + list(s.get("ALSO", [])))
    finally:
        subprocess.run(["rm", "-rf", R, R + ".out.json"], check=True)


if __name__ == "__main__":
    sys.exit(main())
