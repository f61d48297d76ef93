"""Discharging obligations: z3 (API) first, then z3-new and cvc5 on the SMT-LIB text."""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from .engine import hasquant

Z3NEW = "z3-new"
CVC5 = "cvc5"
_n = itertools.count()
z3.set_param("warning", False)


def grounded(g, marks):
    """g with the trigger terms of its outer foralls made to appear outside the quantifiers nested in them:
    forall x {t} b  becomes  forall x {t} (mark(t) ==> b), where mark is true of everything"""
    if z3.is_and(g):
        return z3.And(*[grounded(c, marks) for c in g.children()])
    if z3.is_implies(g):
        return z3.Implies(g.arg(0), grounded(g.arg(1), marks))
    if not (z3.is_quantifier(g) and g.is_forall() and g.num_patterns() and hasquant(g.body())):
        return g
    vs = [z3.Const("%s_%d" % (g.var_name(i), next(_n)), g.var_sort(i)) for i in range(g.num_vars())]
    sub = lambda e: z3.substitute_vars(e, *reversed(vs))
    pats = [sub(g.pattern(i)) for i in range(g.num_patterns())]
    ts = [t for p in pats for t in p.children()]
    ms = []
    for t in ts:
        m = z3.Function("mark_" + str(t.sort()).replace(" ", "_"), t.sort(), z3.BoolSort())
        x = z3.Const("x", t.sort())
        marks[m.name()] = z3.ForAll([x], m(x), patterns=[m(x)])
        ms.append(m(t))
    mp = [z3.MultiPattern(*p.children()) for p in pats]
    return z3.ForAll(vs, z3.Implies(z3.And(*ms), grounded(sub(g.body()), marks)), patterns=mp)


def groundgoal(ob):
    """the goal so prepared, and the marks' axioms"""
    if not hasquant(ob.goal):
        return
    marks = {}
    g = grounded(ob.goal, marks)
    if marks:
        ob.ggoal, ob.marks = g, list(marks.values())


def mk(ob, bg, mbqi, ms, full=False, gg=True):
    # SimpleSolver: no preprocessing, which would rewrite frame quantifiers and lose their patterns
    s = (z3.Solver if full else z3.SimpleSolver)()
    s.set("timeout", ms)
    s.set("smt.mbqi" if full else "mbqi", mbqi)
    for f in bg:
        s.add(f)
    for f in ob.pc:
        s.add(f)
    if gg and getattr(ob, "ggoal", None) is not None:
        s.add(*ob.marks)
        s.add(z3.Not(ob.ggoal))
    else:
        s.add(z3.Not(ob.goal))
    return s


PORTFOLIO = [
    ("z3", False, 1200, {}),
    ("cvc5", 2500, []),
    ("z3full", False, 2500, {}),
    ("z3", False, 2500, {"qi.eager_threshold": 3.0, "qi.lazy_threshold": 4.0}),
    ("z3", True, 2500, {}),
    ("cvc5", 6000, ["--full-saturate-quant"]),
    ("z3", False, 5000, {"random_seed": 7}),
    ("z3cli", 5000),
]


def names_of(t, cache={}):
    k = t.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
    cache[k] = (t, out)
    return out


def relevant_bg(ob, bg):
    """background axioms whose symbols are (transitively) reachable from the obligation"""
    have = set()
    for f in ob.pc:
        have |= names_of(f)
    have |= names_of(ob.goal)
    rest = [(f, names_of(f)) for f in bg]
    used, changed = [], True
    while changed:
        changed = False
        nr = []
        for f, ns in rest:
            if ns & have or not ns:
                used.append(f)
                if not ns <= have:
                    have |= ns
                    changed = True
            else:
                nr.append((f, ns))
        rest = nr
    return used


def run_cli(cmd, text, secs):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        fn = f.name
    try:
        r = subprocess.run(cmd + [fn], capture_output=True, text=True, timeout=secs + 5)
        out = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return out
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(fn)


def discharge(ob, bg, budget=20.0, scale=1):
    """sets ob.status in {proved, failed, unknown}, ob.backend, ob.t, ob.model"""
    t0 = time.time()
    if z3.is_true(ob.goal):
        ob.status, ob.backend = "proved", "trivial"
        return
    if z3.is_false(ob.goal) and not ob.pc:
        ob.status, ob.backend = "failed", "trivial"
        return
    rb = relevant_bg(ob, bg)
    groundgoal(ob)
    zn = "z3-" + z3.get_version_string()
    try:
        txt = None
        for step in PORTFOLIO:
            if time.time() - t0 > budget:
                break
            if step[0] in ("z3", "z3full"):
                s = mk(ob, rb, step[1], step[2] * scale, step[0] == "z3full", step is not PORTFOLIO[0])
                for k, v in step[3].items():
                    s.set(k, v)
                r = s.check()
                if r == z3.unsat:
                    ob.status, ob.backend = "proved", zn
                    return
                if r == z3.sat:
                    ob.status, ob.backend = "failed", zn
                    ob.model = s.model()
                    return
                continue
            if txt is None:
                txt = mk(ob, rb, False, 1000).to_smt2()
            if step[0] == "cvc5":
                r = run_cli([CVC5, "--tlimit=%d" % (step[1] * scale)] + step[2], "(set-logic ALL)\n" + txt, step[1] * scale / 1000)
                be = "cvc5-1.1.2"
            else:
                r = run_cli(["z3", "-T:%d" % (step[1] * scale // 1000)], txt, step[1] * scale / 1000)
                be = "z3-4.8.12"
            if r == "unsat":
                ob.status, ob.backend = "proved", be
                return
        ob.status, ob.backend = "unknown", "z3+cvc5"
        if os.environ.get("GOVER_DUMP"):
            n = len(os.listdir(os.environ["GOVER_DUMP"]))
            with open(os.path.join(os.environ["GOVER_DUMP"], "%d.smt2" % n), "w") as fh:
                fh.write("; %s\n" % ob.name + mk(ob, rb, False, 1000).to_smt2())
    finally:
        ob.t = time.time() - t0


def vacuous(pc, bg):
    """True if the assumptions are contradictory"""
    s = z3.SimpleSolver()
    s.set("timeout", 1500)
    s.set("mbqi", False)
    for f in bg:
        s.add(f)
    for f in pc:
        s.add(f)
    return s.check() == z3.unsat


def prove_lemma(name, f, ms=20000):
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(z3.Not(f))
    r = s.check()
    if r == z3.unsat:
        return True, "z3-" + z3.get_version_string(), time.time() - t0
    txt = s.to_smt2()
    r = run_cli([CVC5, "--tlimit=%d" % ms], "(set-logic ALL)\n" + txt, ms / 1000)
    if r == "unsat":
        return True, "cvc5-1.1.2", time.time() - t0
    r = run_cli(["z3", "-T:%d" % (ms // 1000)], txt, ms / 1000)
    if r == "unsat":
        return True, "z3-4.8.12", time.time() - t0
    return False, str(r), time.time() - t0
