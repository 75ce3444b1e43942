#!/usr/bin/env python3
"""Takes back each repair of /repo in turn (in its working tree, undone afterwards) and runs the check of its property."""
import re, subprocess, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = sys.argv[1:]
for l in open(os.path.join(HERE, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if not m or (only and m.group(2) not in only):
        continue
    prop, commit, what = m.groups()
    d = subprocess.run(["git", "-C", "/repo", "show", commit], capture_output=True, text=True).stdout
    r = subprocess.run(["git", "-C", "/repo", "apply", "-R", "--3way"], input=d, text=True, capture_output=True)
    if r.returncode != 0:
        print("%s %s: does not apply in reverse: %s" % (prop, commit, r.stderr.strip()[-200:]), flush=True)
    else:
        c = subprocess.run([os.path.join(HERE, "check"), prop], capture_output=True, text=True)
        line = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
        why = [x for x in c.stderr.splitlines() if x.strip()][:1]
        print("%s %s exit %d %s | %s | %s" % (prop, commit, c.returncode, "CAUGHT" if line and c.returncode == 1 else "MISSED", what[:60], why[0][:160] if why else ""), flush=True)
    subprocess.run(["git", "-C", "/repo", "reset", "-q", "--hard", "HEAD"])
