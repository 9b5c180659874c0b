#!/usr/bin/env python3
"""plant.py ID [ID..]: applies seeded/ID/patch.diff to /repo, confirms that the
tests pass, that the demo fails with it and passes without, runs the property's
check, and undoes it."""
import json
import os
import subprocess
import sys
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def clean():
    sh("git -C /repo checkout -- .")
    for l in sh("git -C /repo status --short").stdout.splitlines():
        if l.startswith("?? ") and "/" not in l[3:]:
            os.remove("/repo/" + l[3:].strip())


def tests():
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    clean_untracked()
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable") or base.get("passed") or base
    d = json.load(open("/tmp/plant.json"))
    return [n for n in names if n not in d["passed"]]


def clean_untracked():
    for l in sh("git -C /repo status --short").stdout.splitlines():
        if l.startswith("?? ") and "/" not in l[3:]:
            os.remove("/repo/" + l[3:].strip())


def main():
    for sid in sys.argv[1:]:
        d = os.path.join(HERE, "seeded", sid)
        meta = json.load(open(d + "/meta.json"))
        assert not sh("git -C /repo status --short").stdout, "dirty /repo"
        demo = "bash %s/demo.sh" % d
        r0 = sh(demo, cwd="/repo")
        a = sh("git -C /repo apply %s/patch.diff" % d)
        if a.returncode:
            print(sid, "PATCH DOES NOT APPLY", a.stderr[:200])
            continue
        try:
            r1 = sh(demo, cwd="/repo")
            failed = tests()
            out = []
            for pid in [meta["property"]] + meta.get("also", []):
                t = time.time()
                env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
                c = sh("/opt/venv/bin/python check.py %s" % pid, cwd=HERE,
                       env=env)
                v = [x for x in c.stdout.splitlines()
                     if x.startswith("VIOLATION")]
                ob = [x.strip()[:150] for x in c.stdout.splitlines()
                      if "failed obligation" in x or "driver" in x
                      or "failing input" in x]
                out.append("%s exit %d %.0fs %s\n      %s" % (
                    pid, c.returncode, time.time()-t,
                    ("noinput" if "no-failing" in v[0] else "INPUT")
                    if v else "MISSED", "\n      ".join(ob[:4])))
        finally:
            clean()
        ok = r0.returncode == 0 and r1.returncode != 0 and not failed
        print("%s: %s (demo %d->%d, broken tests %s)\n   %s" % (
            sid, "valid" if ok else "INVALID", r0.returncode, r1.returncode,
            failed[:4], "\n   ".join(out)))
        if r0.returncode:
            print(r0.stdout[-800:], r0.stderr[-800:])
        sys.stdout.flush()


main()
