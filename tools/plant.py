#!/usr/bin/env python3
"""plant.py SPEC.json: validate a planted bug in /repo (undone afterwards) and keep it in seeded/.

SPEC: {id, property, file, old, new, needs, what_it_breaks, demo (python source)} or
edits=[[file, old, new], ...]. Prints whether tests pass, the demo fails, and the check catches it."""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable_ok():
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open("/tmp/plant.json"))
    stable = set(next(b[k] for k in ("stable", "passed", "tests", "pass", "stable_tests") if k in b))
    passed = set(o.get("passed", o.get("pass", [])))
    return sorted(stable - passed)


def main(path):
    for s in json.load(open(path)):
        sh("rm -f /repo/temp.tif")
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        edits = s.get("edits") or [[s["file"], s["old"], s["new"]]]
        res = {}
        try:
            for f, old, new in edits:
                p = "/repo/" + f
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            open(d + "/demo.py", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
            res["missing tests"] = stable_ok()
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            res["demo with"] = r.returncode, (r.stdout + r.stderr).strip()[-200:]
            r = sh("/opt/venv/bin/python check.py %s --tier quick" % s["property"], cwd=V)
            res["check"] = r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2] or r.stdout[-300:]
        finally:
            sh("git -C /repo checkout -- .")
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        res["demo without"] = r.returncode, (r.stdout + r.stderr).strip()[-200:]
        ok = not res["missing tests"] and res["demo with"][0] and not res["demo without"][0]
        print(s["id"], "VALID" if ok else "INVALID", "CAUGHT" if res["check"][0] == 1 else "MISSED(rc=%s)" % res["check"][0])
        if not ok or res["check"][0] != 1:
            print("   ", json.dumps(res, indent=1))
        if not ok:
            sh("rm -r " + d)


main(sys.argv[1])
