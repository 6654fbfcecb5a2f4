#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]

Builds the property tests of property ID against /repo's working tree, drives
them with rapid from VERIF_SEED in several processes, writes
evidence/ID.json and says what it found:

  exit 0   the property held on everything explored
  exit 1   VIOLATION property=ID replay=PATH
  exit 2+  the check itself could not do its work
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
GOROOT_BIN = "/opt/veriftools/go1.27.3/bin"


def env():
    e = dict(os.environ)
    e["PATH"] = GOROOT_BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["HOME"] = "/root"
    e.update(GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    for k in list(e):
        if k.startswith("RAPID_") or k in ("COMP_LINE", "COMP_CWORD", "ZSH_VERSION", "NO_COLOR", "CDPATH"):
            del e[k]
    return e


def die(msg, code=2):
    print("ERROR: " + msg, file=sys.stderr)
    sys.exit(code)


def build(pkg, work):
    """Compiles the test binary of one harness package in a scratch copy of the
    module, so that neither /verif nor /repo is written to."""
    src = os.path.join(work, "harness")
    if not os.path.isdir(src):
        shutil.copytree(HARNESS, src)
    out = os.path.join(work, pkg + ".test")
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-o", out, "./" + pkg], cwd=src, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0 or not os.path.exists(out):
        die("the harness does not build against /repo:\n" + p.stdout)
    return out


def package_of(pid):
    for f in sorted(glob.glob(os.path.join(HARNESS, "*", "*_test.go"))):
        if re.search(r"^func Test%s_" % pid, open(f).read(), re.M):
            yield os.path.basename(os.path.dirname(f))


def main():
    args = sys.argv[1:]
    if not args:
        die("usage: check.py ID [--tier T] [--replay FILE]")
    if args[0] == "--setup":
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for d in sorted(set(os.path.basename(os.path.dirname(f)) for f in glob.glob(os.path.join(HARNESS, "*", "*_test.go")))):
                build(d, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(0)
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    shards = 4 if tier == "quick" else 8
    scale = os.environ.get("VERIF_SCALE") or ("1" if tier == "quick" else "12")
    limit = 780 if tier == "quick" else 3 * 3600
    t0 = time.time()

    pkgs = sorted(set(package_of(pid)))
    if not pkgs:
        die("no tests for " + pid)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        sys.exit(run(pid, pkgs, tier, seed, shards, scale, limit, work, t0, replay))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, pkgs, tier, seed, shards, scale, limit, work, t0, replay):
    bins = {p: build(p, work) for p in pkgs}
    procs = []
    if replay:
        shards = 1
    for pkg, b in bins.items():
        for s in range(shards):
            d = os.path.join(work, "run-%s-%d" % (pkg, s))
            out = os.path.join(d, "out")
            os.makedirs(out)
            tmp = os.path.join(d, "tmp")
            os.makedirs(tmp)
            e = env()
            # rapid takes seed 0 for "random"
            rs = (abs(seed) * 1009 + s * 104729) % (2**62) + 1
            e.update(VERIF_OUT=out, VERIF_HARNESS=os.path.join(work, "harness"), VERIF_SCALE=scale, TMPDIR=tmp, GOMAXPROCS="2")
            cmd = [b, "-test.run", "^Test%s_" % pid, "-test.v", "-test.timeout", "%ds" % limit,
                   "-rapid.seed=%d" % rs, "-rapid.shrinktime=20s"]
            if replay:
                cmd = [b, "-test.run", "^%s$" % test_of(replay), "-test.v", "-rapid.failfile=" + os.path.abspath(replay)]
            log = open(os.path.join(d, "log"), "w")
            procs.append((pkg, s, d, out, rs, subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT,
                                                               stdin=subprocess.DEVNULL)))
    deadline = time.time() + limit + 30
    bad = None
    results = []
    for pkg, s, d, out, rs, p in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for q in procs:
                q[5].kill()
            die("a test process ran out of time", 3)
        results.append((pkg, s, d, out, rs, rc))

    total = 0
    hashes, rules, labels, samples, failures, known, names = set(), {}, {}, [], [], set(), set()
    for pkg, s, d, out, rs, rc in results:
        log = open(os.path.join(d, "log"), errors="replace").read()
        for f in sorted(glob.glob(os.path.join(out, "*.json"))):
            r = json.load(open(f))
            names.add(r["name"])
            total += r["evaluations"]
            hashes.update(r["hashes"] or [])
            rules[r["name"]] = r["rule"]
            for k, v in r["labels"].items():
                labels.setdefault(r["name"], {}).setdefault(k, 0)
                labels[r["name"]][k] += v
            for x in r["samples"] or []:
                if sum(1 for y in samples if y["test"] == r["name"]) < 2:
                    samples.append({"test": r["name"], "case": x})
            if r["failed"]:
                failures.append((r["name"], r["fail_case"], d, rs, log, pkg))
        for f in glob.glob(os.path.join(out, "known-*")):
            known.add(os.path.basename(f)[len("known-"):])
        if rc != 0 and not any(f[2] == d for f in failures):
            if re.search(r"^fatal error: (stack overflow|concurrent map|all goroutines are asleep)", log, re.M) or \
               re.search(r"^runtime: goroutine stack exceeds", log, re.M) or re.search(r"^panic: (?!test timed out)", log, re.M):
                where = [l for l in log.splitlines() if "/repo/" in l][:1]
                if where:
                    failures.append(("process", "the code under test ended the process:\n" + log[-6000:], d, rs, log, pkg))
                    continue
            bad = "test process %s/%d ended with %s:\n%s" % (pkg, s, rc, log[-4000:])
        if rc == 0 and not re.search(r"^--- PASS: Test%s_" % pid, log, re.M):
            bad = "no test of %s ran:\n%s" % (pid, log[-2000:])

    if replay:
        print(open(os.path.join(results[0][2], "log")).read())
        return 1 if failures else 0

    if bad and not failures:
        die(bad, 3)

    for k in known_findings(pid):
        if k["id"] in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    path = None
    if failures:
        path = save(pid, seed, failures[0])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("\n".join("  " + l for l in failures[0][1].splitlines()[:60]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(hashes),
            "rule": "; ".join("%s: %s" % (n, rules[n]) for n in sorted(rules)),
            "samples": samples[:12],
            "labels": {n: dict(sorted(v.items())) for n, v in sorted(labels.items())},
            "processes": len(results),
        },
        "assumptions": ["rapid v1.3.0 draws; %d processes with different rapid seeds derived from VERIF_SEED" % len(results)],
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if failures else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (pid, total, len(hashes), time.time() - t0))
    return 1 if failures else 0


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == pid]


def test_of(path):
    m = re.search(r"^# test: (\S+)", open(path).read(), re.M)
    if not m:
        die("not a replay file: " + path)
    return m.group(1)


def save(pid, seed, failure):
    name, case, d, rs, log, pkg = failure
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-%s.fail" % (pid, hashlib.sha1((name + case).encode()).hexdigest()[:10]))
    head = ["# property: " + pid, "# test: " + name, "# VERIF_SEED=%d rapid.seed=%d" % (seed, rs),
            "# replay: python3 /verif/check.py %s --replay %s" % (pid, path), "#", "# minimal case:"]
    head += ["#   " + l for l in case.splitlines()]
    body = ""
    files = sorted(glob.glob(os.path.join(d, "testdata", "rapid", name.replace("/", "_"), "*.fail")))
    if files:
        body = "\n".join(l for l in open(files[-1]).read().splitlines())
    with open(path, "w") as f:
        f.write("\n".join(head) + "\n" + body + "\n")
    return path


main()
