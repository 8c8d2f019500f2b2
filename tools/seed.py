#!/usr/bin/env python3
"""Plants bugs: seed.py SPEC.py [ID ...]

SPEC.py defines BUGS = [dict(id, prop, file, edits=[(old, new), ...] or files={file: edits}, demo=text of demo.py, needs, breaks)].
Every bug is applied to a scratch clone of /repo's HEAD, the stable tests are
run there, the demonstration is run with and without it, and if all of that
is as it should be, seeded/<id>/ is written.  `seed.py --run [ID ...]` runs the
check of the bug's property against a scratch clone with the bug.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
SCRATCH = "/tmp/seed-scratch"
DEMO = """#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clone(name):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    return d


def env(d):
    e = dict(os.environ)
    e.update(PYTHONPATH=os.path.join(d, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0")
    return e


def tests(d):
    x = os.path.join(d, "j.xml")
    sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--basetemp=" + d + ".pt", "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=d, env=env(d))
    o = os.path.join(d, "o.json")
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", o, "junit:" + x], check=True, stdout=subprocess.DEVNULL)
    shutil.rmtree(d + ".pt", ignore_errors=True)
    got = json.load(open(o))
    os.unlink(x)
    os.unlink(o)
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(got["passed"]))


def plant(b):
    d = clone(b["id"])
    try:
        files = b.get("files") or {b["file"]: b["edits"]}
        for f, edits in files.items():
            p = os.path.join(d, "src/psrpcore", f)
            s = open(p).read()
            for old, new in edits:
                if s.count(old) != 1:
                    return "edit of %s matches %d times: %.60r" % (f, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        out = os.path.join(SCRATCH, b["id"] + ".out")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(out, "demo.sh")], cwd="/repo", env={k: v for k, v in os.environ.items() if k != "PYTHONPATH"})
        if r.returncode:
            return "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
        r = sh(["bash", os.path.join(out, "demo.sh")], cwd=d, env=env(d))
        if not r.returncode:
            return "demo does not fail with the change"
        bad = tests(d)
        if bad:
            return "tests fail: %s" % bad[:5]
        shutil.rmtree(os.path.join(SEEDED, b["id"]), ignore_errors=True)
        os.makedirs(SEEDED, exist_ok=True)
        shutil.move(out, os.path.join(SEEDED, b["id"]))
        return "planted (demo: %s)" % r.stdout.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(ids, props=None):
    for i in ids or sorted(os.listdir(SEEDED)):
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        d = clone(i)
        r = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=d)
        if r.returncode:
            print("%-40s does not apply: %s" % (i, r.stdout))
            continue
        for prop in props or [meta["property"]]:
            e = dict(os.environ, VERIF_REPO=d)
            r = sh([sys.executable, os.path.join(HERE, "run_check.py"), prop], cwd=HERE, env=e)
            lines = r.stdout.strip().splitlines()
            print("%-40s %s exit=%d %s" % (i, prop, r.returncode, " | ".join(x[:200] for x in lines[-3:-1]) if r.returncode else "MISSED"), flush=True)
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "--run":
        props = None
        if "--props" in a:
            k = a.index("--props")
            props = a[k + 1].split(",")
            a = a[:k]
        return run(a[1:], props)
    ns = {}
    exec(open(a[0]).read(), ns)
    for b in ns["BUGS"]:
        if len(a) < 2 or b["id"] in a[1:]:
            print("%-40s %s" % (b["id"], plant(b)), flush=True)


if __name__ == "__main__":
    main()
