"""Print the 'fixed:' lines of known_findings.jsonl from the fix commits of /repo."""
import subprocess
MAP = {}
for l in open(__file__.replace("mkfixed.py", "fixmap.txt")):
    l = l.strip()
    if l:
        k, v = l.split(" ", 1)
        MAP[v] = k
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        print("fixed: property=%s %s %s" % (MAP[s[5:]], h, s[5:]))
