#!/usr/bin/env python3
"""Confirms that the checks report each repaired defect again: for every 'fixed:' line of known_findings.txt, take the
repair back in a scratch copy of /repo and run the property's quick check against it. unfix.py [COMMIT...]"""
import sys, os, re, subprocess, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/unfix"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
want = sys.argv[1:]
for l in open(HERE + "/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d+) ([0-9a-f]{7,}) (.*)", l)
    if not m or (want and m.group(2) not in want): continue
    prop, commit, what = m.groups()
    d = "%s/%s-%s" % (W, commit, prop)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("git clone -q /repo %s/repo" % d)
    r = sh("git -C %s/repo -c user.name=x -c user.email=x@x revert --no-edit %s" % (d, commit))
    note = ""
    if r.returncode:
        note = "(conflict)"
        print(prop, commit, "CONFLICT", what[:80], flush=True)
        shutil.rmtree(d); continue
    t0 = time.time()
    r = sh("cd %s && ./check %s" % (HERE, prop), env=dict(os.environ, VP_REPO=d + "/repo", VP_BUILD=d + "/vb"))
    print(prop, commit, {0: "MISSED", 1: "reported", 2: "ERROR"}[r.returncode], "%.0fs" % (time.time() - t0), what[:60], "|", (r.stdout if r.returncode == 1 else r.stderr)[-200 if r.returncode == 2 else 0:160].replace("\n", " | "), flush=True)
    shutil.rmtree(d)
