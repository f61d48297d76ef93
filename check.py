#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]: verify every function under contract for the property against /repo's
current source; see DESIGN.md."""
import glob
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":  # the same formulas in the same order on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.realpath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
ENV.setdefault("HOME", "/root")


def export():
    b = os.path.join(HERE, ".build", "export")
    if not os.path.exists(b):
        subprocess.run(["bash", os.path.join(HERE, "setup.sh")], check=True, env=ENV, stdout=subprocess.DEVNULL)
    fd, fn = tempfile.mkstemp(suffix=".json")
    os.close(fd)
    try:
        r = subprocess.run([b, REPO, fn], env=ENV, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError("export of %s failed: %s" % (REPO, (r.stderr + r.stdout)[-800:]))
        with open(fn) as f:
            return json.load(f)
    finally:
        os.unlink(fn)


def load_specs(world):
    from gover.speclang import Specs
    sp = Specs()
    for f in sorted(glob.glob(os.path.join(HERE, "contracts", "*.spec"))):
        sp.load(f)
    from gover import vfun
    moved = vfun.relocate(sp, world)
    return sp, moved


def worker(conn, world, sp, kind, name, budget):
    from gover import vfun
    try:
        if kind == "lemma":
            r = vfun.verify_lemma(world, sp, name)
        else:
            r = vfun.verify_function(world, sp, name, budget)
    except BaseException as ex:
        r = {"name": name, "pos": "", "obs": [], "called": [], "inlined": [], "trusted": [], "notes": [], "lemmas": [], "t": 0,
             "error": "%s: %s" % (type(ex).__name__, ex), "trace": traceback.format_exc()[-1500:]}
    conn.send(r)
    conn.close()


def run_all(world, sp, roots, budget, jobs, deadline, perfn):
    ctx = mp.get_context("fork")
    todo = [("func", n) for n in roots]
    seen = set(todo)
    active, results = {}, {}
    while todo or active:
        while todo and len(active) < jobs:
            k = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, world, sp, k[0], k[1], budget))
            p.start()
            b.close()
            active[a] = (p, k, time.time())
        ready = mpc.wait(list(active), timeout=1.0)
        now = time.time()
        for a in list(active):
            p, k, t0 = active[a]
            r = None
            if a in ready:
                try:
                    r = a.recv()
                except (EOFError, OSError):
                    r = {"error": "the verifier process ended without a result"}
            elif now - t0 > perfn or now > deadline:
                p.terminate()
                r = {"error": "time limit of the verifier reached after %d s" % (now - t0)}
            if r is None:
                continue
            p.join(5)
            if p.is_alive():
                p.kill()
            a.close()
            del active[a]
            for key, d in (("name", k[1]), ("pos", ""), ("obs", []), ("called", []), ("inlined", []), ("trusted", []), ("notes", []), ("lemmas", []), ("t", now - t0)):
                r.setdefault(key, d)
            results[k] = r
            for n in r["called"]:
                c = sp.contracts.get(n)
                if c is not None and not c.trusted and ("func", n) not in seen:
                    seen.add(("func", n))
                    todo.append(("func", n))
            for n in r["lemmas"]:
                if ("lemma", n) not in seen and (n in sp.lemmas or n in ("arith", "bits")):
                    seen.add(("lemma", n))
                    todo.append(("lemma", n))
    return results


def harness(prop, seed, tier, secs):
    """replay: run the property's executable oracle on the real code; returns (found, text)"""
    root = os.path.join(HERE, "replay", prop)
    files = sorted(glob.glob(os.path.join(root, "**", "*_test.go"), recursive=True))
    if not files:
        return False, "no replay harness for this property"
    texts, found = [], False
    pkgs = {}
    for f in files:
        rel = os.path.relpath(f, root)
        pkgs.setdefault(os.path.dirname(rel), {})[os.path.join(REPO, rel)] = f
    tmp = tempfile.mkdtemp(prefix="verifreplay")
    try:
        for pkg, rep in sorted(pkgs.items()):
            ov = os.path.join(tmp, "overlay.json")
            rw, flags = os.path.join(root, pkg, "rewrite.json"), []
            if os.path.exists(rw):  # textual stand-ins (a fake clock, say) in copies of the package's own files
                with open(rw) as fh:
                    rw = json.load(fh)
                flags = rw.pop("flags", [])
                for src in sorted(glob.glob(os.path.join(REPO, pkg, "*.go"))):
                    if src.endswith("_test.go") or src in rep:
                        continue
                    with open(src, errors="replace") as fh:
                        a = b = fh.read()
                    for k, v in rw.items():
                        b = re.sub(k, v, b)
                    if a != b:
                        keep = "".join("\nvar _ = %s\n" % w for imp, w in (("time", "time.Nanosecond"), ("os", "os.Args")) if re.search(r'^\s*(import\s+)?"%s"' % imp, b, re.M))
                        dst = os.path.join(tmp, pkg.replace("/", "_") + "_" + os.path.basename(src))
                        with open(dst, "w") as fh:
                            fh.write(b + keep)
                        rep[src] = dst
            with open(ov, "w") as fh:
                json.dump({"Replace": rep}, fh)
            env = dict(ENV, VERIF_SEED=str(seed), VERIF_SECS=str(secs), TMPDIR=tmp)
            cmd = ["go", "test"] + flags + ["-overlay", ov, "-vet=off", "-count=1", "-run", "^TestVerif", "-timeout", "%ds" % (secs * 4 + 60), "./" + pkg]
            try:
                r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True, timeout=secs * 4 + 120, errors="replace")
            except subprocess.TimeoutExpired:
                texts.append("%s: replay did not end" % pkg)
                continue
            out = r.stdout + r.stderr
            if r.returncode == 0:
                texts.append("%s: the replay harness found no failing input" % pkg)
            elif "[build failed]" in out or "[setup failed]" in out or "--- FAIL" not in out and "panic:" not in out and "fatal error:" not in out:
                texts.append("%s: the replay harness does not build against this source:\n%s" % (pkg, out[-1500:]))
            else:
                found = True
                texts.append("%s: FAILING INPUT on the real code (seed %s):\n%s" % (pkg, seed, out[:6000]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return found, "\n".join(texts)


def known(prop):
    out = {}
    fn = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"KNOWN-FINDING: property=(\S+) obligation=\"([^\"]*)\" (.*)$", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    quick = tier != "thorough"
    budget = 25 if quick else 60
    deadline = t0 + (540 if quick else 3000)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, prop + ".replay.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    results, fails, sp, moved, roots = {}, [], None, [], []
    try:
        from gover.ty import World
        world = World(export())
        sp, moved = load_specs(world)
        for n, c in sp.contracts.items():
            if prop in c.props and not c.trusted:
                if n in world.funcs:
                    roots.append(n)
                elif n.split(".")[-1][:1].isupper() or n not in sp.gone:
                    fails.append(("%s/exists" % n, "the function under contract does not exist", None))
        if not roots:
            fails.append(("%s/nothing" % prop, "no function under contract", None))
        results = run_all(world, sp, roots, budget, jobs, deadline, 400 if quick else 1500)
    except Exception as ex:
        fails.append(("machinery", "%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()[-1500:]), None))
    nob = dis = 0
    solver_t, backends, samples, funcs, trusted, notes, lem, inl = 0.0, {}, [], [], set(), set(), [], set()
    for (kind, n), r in sorted(results.items()):
        bad = 0
        for o in r["obs"]:
            nob += 1
            solver_t += o["t"]
            if o["status"] == "proved":
                dis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            else:
                bad += 1
                fails.append((o["name"], "%s at %s: %s by %s after %.1f s" % (o["kind"], o["pos"], o["status"], o["backend"], o["t"]), o["cex"]))
        if r.get("error"):
            nob += 1
            bad += 1
            fails.append(("%s/verifiable" % n, r["error"] + ("\n" + r["trace"] if r.get("trace") else ""), None))
        elif not r["obs"]:
            nob += 1
            bad += 1
            fails.append(("%s/nonempty" % n, "no obligation was generated", None))
        (lem if kind == "lemma" else funcs).append({"name": n, "at": r.get("pos", ""), "obligations": len(r["obs"]), "open": bad, "seconds": round(r["t"], 1), "paths": r.get("paths")})
        trusted |= set(r["trusted"])
        notes |= set(r["notes"])
        inl |= set(r["inlined"])
        for o in r["obs"]:
            if len(samples) < 6 and o["backend"] not in ("trivial",):
                samples.append({"obligation": o["name"], "by": o["backend"], "seconds": o["t"]})
                break
    kf = known(prop)
    unlisted, listed = [], []
    for f in fails:
        (listed if f[0] in kf else unlisted).append(f)
    found, htext = False, ""
    if unlisted:
        secs = 25 if quick else 120
        try:
            found, htext = harness(prop, seed, tier, secs)
        except Exception as ex:
            htext = "replay harness: %s" % ex
        with open(replay, "w") as fh:
            fh.write("property %s: obligations that no longer verify against %s\n\n" % (prop, REPO))
            for nme, why, cex in unlisted:
                fh.write("obligation %s\n  %s\n" % (nme, why))
                if cex:
                    fh.write("  candidate counterexample of the solver: %s\n" % json.dumps(cex))
            fh.write("\nreplay against the real code (harness replay/%s, VERIF_SEED=%d):\n%s\n" % (prop, seed, htext))
    axioms = sorted({"axiom " + a[0] for a in sp.axioms if any(a[2] and k[1].startswith(a[2] + ".") for k in results)}) if sp else []
    base = ["go/ssa + exporter (Go source to SSA)", "gover verification-condition generator", "z3 5.3.2, cvc5 1.1.2, z3 4.8.12",
            "engine assumptions listed in DESIGN.md (callbacks pure, unbounded memory for append/make, sequential consistency of locks and atomics)"]
    base += ["assumed contract of " + t for t in sorted(trusted)] + axioms
    ev = {"property": prop, "tier": "quick" if quick else "thorough", "seed": seed, "level": "proof",
          "coverage": {"obligations": nob, "discharged": dis, "checker_cmd": "python3-vt check.py %s %s" % (prop, tier),
                       "trusted_base": base, "functions_under_contract": funcs, "lemmas": lem, "back_ends": backends,
                       "solver_seconds": round(solver_t, 2), "inlined_functions": sorted(inl), "samples": samples,
                       "relocated_contracts": moved, "open": [f[0] for f in fails], "replay_run": bool(unlisted)},
          "assumptions": sorted(notes), "wall_s": round(time.time() - t0, 2), "violations": len(unlisted)}
    with open(os.path.join(evdir, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for f in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, f[0], kf[f[0]]))
    print("%s: %d functions and %d lemmas, %d of %d obligations discharged, %.1f s" % (prop, len(funcs), len(lem), dis, nob, time.time() - t0))
    if unlisted:
        for f in unlisted[:12]:
            print("  open: %s -- %s" % (f[0], f[1].split("\n")[0][:300]))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found"))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (sys.argv[1], os.path.join(HERE, "evidence", sys.argv[1] + ".replay.txt")))
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)
