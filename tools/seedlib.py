"""seed(): makes a planted bug in /verif/seeded/<id>, after confirming that it
builds, passes the stable tests, and that its demonstration tells it apart."""
import json, os, subprocess, sys, shutil

REPO = "/repo"
ENVSH = ". /opt/vp/env.sh; "

DEMO = """#!/bin/bash
# Runs main.go inside the module of the current directory (the repository).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
printf '{"Replace": {"%s/internal/zzdemo/main.go": "%s/main.go"}}' "$PWD" "$here" > "$work/overlay.json"
go build -overlay "$work/overlay.json" -o "$work/demo" ./internal/zzdemo || exit 2
cd "$work" && timeout 120 ./demo
"""


def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C /repo checkout -q -- . ")


def seed(id, prop, edits, demo, needs, breaks, check=True, tests=True):
    d = "/verif/seeded/" + id
    clean()
    assert sh("git -C /repo status --short").stdout == "", "dirty repo"
    os.makedirs(d, exist_ok=True)
    open(d + "/main.go", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh("cd /repo && bash %s/demo.sh" % d)
    if r.returncode != 0:
        print(id, "DEMO FAILS ON CLEAN TREE:", r.stdout[-2000:])
        ok = False
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT does not match once (%d):" % s.count(old), f, old[:80])
                return False
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(diff)
        r = sh("bash /opt/vp/build.sh")
        if r.returncode != 0:
            print(id, "DOES NOT BUILD", r.stdout[-2000:])
            return False
        r = sh("cd /repo && bash %s/demo.sh" % d)
        if r.returncode == 0:
            print(id, "DEMO PASSES WITH THE PATCH", r.stdout[-1000:])
            ok = False
        else:
            print(id, "demo says:", r.stdout.strip()[-200:])
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            o = json.load(open("/tmp/seed-out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = set(base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests"))
            missing = stable - set(o["passed"])
            if missing:
                print(id, "BREAKS %d TESTS" % len(missing), list(missing)[:5])
                ok = False
        if check:
            r = sh("cd /verif && VERIF_SEED=1 python3 check.py %s" % prop)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(id, prop, "exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", "" if v else r.stdout[-1500:])
            if v:
                print("    " + "\n    ".join(r.stdout.splitlines()[1:12]))
    finally:
        clean()
    if not ok:
        print(id, "NOT KEPT AS IT IS")
        shutil.rmtree(d)
    return ok
