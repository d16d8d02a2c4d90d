#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies: plant.py [--check PROP,...|none] ID...

For each seeded/<ID>: copy /repo, apply the patch, build, run the stable tests, run demo.sh with and without the
patch, then run the quick check of its property (or of the ones given) against the copy."""
import sys, os, json, subprocess, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plant"
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def copy(name):
    d = "%s/%s" % (W, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh("cp -a /repo %s/repo" % d)
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/repo", d + "/repo").replace("bash /opt/vp/build.sh", "bash %s/build.sh" % d)
        open("%s/%s" % (d, s), "w").write(t)
    # the copied build directory names /repo
    shutil.rmtree(d + "/repo/_build")
    return d
def main():
    a = sys.argv[1:]
    checks = None
    if a and a[0] == "--check":
        checks = a[1].split(","); a = a[2:]
    clean = W + "/clean"
    import fcntl
    os.makedirs(W, exist_ok=True)
    l = open(W + "/lock", "w"); fcntl.flock(l, fcntl.LOCK_EX)
    if not os.path.exists(clean + "/ok"):
        d = copy("clean"); r = sh("bash %s/build.sh" % d); assert r.returncode == 0, r.stderr; open(clean + "/ok", "w")
    l.close()
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for i in a:
        s = "%s/seeded/%s" % (HERE, i)
        meta = json.load(open(s + "/meta.json"))
        d = copy(i)
        out = [i, meta["property"]]
        r = sh("git -C %s/repo apply %s/patch.diff" % (d, s))
        if r.returncode: print(i, "DOES NOT APPLY", r.stderr); continue
        r = sh("bash %s/build.sh" % d)
        if r.returncode: print(i, "DOES NOT BUILD", r.stdout[-2000:]); continue
        sh("bash %s/test.sh %s/o.json" % (d, d))
        t = json.load(open(d + "/o.json"))
        bad = sorted(set(stable) - set(t["passed"]))
        out.append("tests ok" if not bad else "TESTS FAIL " + ",".join(bad))
        c = sh("bash %s/demo.sh" % s, cwd=clean + "/repo", timeout=300)
        p = sh("bash %s/demo.sh" % s, cwd=d + "/repo", timeout=300)
        out.append("demo %d/%d" % (c.returncode, p.returncode) + ("" if c.returncode == 0 and p.returncode != 0 else " BAD " + (c.stdout + c.stderr)[-300:]))
        out.append((p.stdout + p.stderr).strip()[-150:].replace("\n", " | "))
        for prop in (checks or [meta["property"]]):
            if prop == "none": continue
            t0 = time.time()
            r = sh("cd %s && ./check %s" % (HERE, prop), env=dict(os.environ, VP_REPO=d + "/repo", VP_BUILD=d + "/vb"))
            out.append("%s: %s %.0fs %s" % (prop, {0: "MISSED", 1: "caught", 2: "ERROR"}[r.returncode], time.time() - t0, r.stdout.strip()[:200].replace("\n", " | ") if r.returncode else r.stderr[-200:]))
        print("\n   ".join(out), flush=True)
        shutil.rmtree(d, ignore_errors=True)
main()
