#!/usr/bin/env python3
"""dev: (re)build and confirm planted bugs in a scratch worktree.
seed.py make ID  -- from tools/seeds/ID.py-style dict SEEDS[ID] in tools/seeds.py
seed.py check ID... -- apply to a scratch copy and run the property's check there"""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
DEMO = '''#!/bin/bash
# runs the demonstration as an extra test of the package, through an overlay; exit 0 iff it passes
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -f "$T/o.json"; rmdir "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" >"$T/o.json"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' ./%s
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **k), shell=True, capture_output=True, text=True)


def tree():
    d = tempfile.mkdtemp(prefix="seedwt")
    os.rmdir(d)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", d, "HEAD"], check=True, stdout=subprocess.DEVNULL)
    return d


def drop(d):
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", d], check=True)


def make(i, s):
    out = os.path.join(HERE, "seeded", i)
    os.makedirs(out, exist_ok=True)
    d = tree()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            assert t.count(old) == 1, (i, f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", d).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo_test.go"), "w").write(s["demo"])
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % (s["pkg"], s["pkg"]))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        b = sh("go build ./...", d)
        t = sh("go test -vet=off -count=1 ./common/hash ./common/limiter/fixed_window ./common/limiter/leaky_bucket", d)
        bad = sh("bash %s/demo.sh" % out, d)
        sh("git checkout -q -- .", d)
        good = sh("bash %s/demo.sh" % out, d)
        ok = b.returncode == 0 and t.returncode == 0 and bad.returncode != 0 and good.returncode == 0
        print(i, "CONFIRMED" if ok else "NOT CONFIRMED", b.returncode, t.returncode, bad.returncode, good.returncode)
        if not ok:
            print(b.stderr[-500:], t.stdout[-300:], "BAD:", bad.stdout[-800:], "GOOD:", good.stdout[-800:], good.stderr[-300:])
        else:
            print("   ", [l for l in bad.stdout.split("\n") if "demo_test" in l or "panic" in l][:2])
    finally:
        drop(d)


def chk(i):
    m = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))
    d = tree()
    try:
        a = sh("git apply %s/seeded/%s/patch.diff" % (HERE, i), d)
        assert a.returncode == 0, a.stderr
        r = sh("python3-vt %s/check.py %s quick" % (HERE, m["property"]), HERE, VERIF_REPO=d)
        lines = r.stdout.strip().split("\n")
        print(i, m["property"], "exit", r.returncode, lines[-1], "|", lines[0], "|", lines[1][:140] if len(lines) > 2 else "")
    finally:
        drop(d)


if __name__ == "__main__":
    from seeds import SEEDS
    names = sys.argv[2:] or sorted(SEEDS)
    for n in names:
        if sys.argv[1] == "make":
            make(n, SEEDS[n])
        else:
            chk(n)
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
