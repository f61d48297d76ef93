"""Verification of one function or lemma (runs in a worker process)."""
import sys
import time
import traceback
import z3
from .engine import *
from .execu import Verifier, arith_lemmas, bits_lemmas, bits_claims
from .spec import Ctx
from . import speclang as SL
from . import solve


def relocate(specs, world):
    """a contract on an unexported function that no longer exists moves to the unique function of the same package
    and receiver that has the same signature and no contract; otherwise it is dropped (its callers are then verified
    against whatever they call now)"""
    moved = []
    specs.gone = set()
    for n in list(specs.contracts):
        c = specs.contracts[n]
        if c.trusted or n in world.funcs:
            continue
        last = n.split(".")[-1]
        if "$" in last or last[:1].isupper():
            continue
        pre = n[:len(n) - len(last)]
        cands = [m for m, f in world.funcs.items() if m.startswith(pre) and "." not in m[len(pre):] and "$" not in m[len(pre):] and not m[len(pre):][:1].isupper()
                 and m not in specs.contracts and len(f["params"]) == len(c.params) and len(f.get("results") or []) >= len(c.results)]
        specs.gone.add(n)
        if len(cands) == 1:
            m = cands[0]
            del specs.contracts[n]
            c.name = m
            specs.contracts[m] = c
            for d in specs.contracts.values():
                d.ghostargs = [((shortname(m) if a == shortname(n) else a), b, e) for a, b, e in d.ghostargs]
            moved.append("%s -> %s" % (n, m))
    return moved


def shortname(n):
    return n.split("/")[-1].split(".", 1)[-1]


def inst_tenv(c, f, world):
    """type instantiation for verification: parameters abstract, unless the contract lists concrete types"""
    if not f["tparams"]:
        return [{}]
    if c.tparams:
        out = []
        for alt in c.tparams.split("|"):
            ts = [x.strip() for x in alt.split(",")]
            out.append({tp["n"]: (world.basic(t) if t in INT_RANGES or t in ("string", "float64", "bool") else world.ty_(t)) for tp, t in zip(f["tparams"], ts)})
        return out
    return [{}]


def verify_function(world, specs, name, budget, quick=True):
    """returns a result dict"""
    c = specs.contracts[name]
    f = world.funcs[name]
    t0 = time.time()
    out = {"name": name, "pos": f["pos"], "obs": [], "called": [], "inlined": [], "trusted": [], "notes": [], "lemmas": [], "error": None, "insts": 0}
    called, inlined, trusted, notes, lem = set(), set(), set(), set(), set()
    if len(c.params) != len(f["params"]):
        out["error"] = "contract has %d parameters, the function %d" % (len(c.params), len(f["params"]))
        return out
    for tenv in inst_tenv(c, f, world):
        out["insts"] += 1
        E = Verifier(world, specs, "bv" if c.mode == "bv" else "int")
        tag = ("[" + ",".join(v.key for v in tenv.values()) + "]") if tenv else ""
        try:
            E.verify(c, f, tenv)
        except (Unsupported, SL.SpecError, KeyError, z3.Z3Exception, IndexError, AttributeError, TypeError, RecursionError) as ex:
            out["error"] = "%s: %s" % (type(ex).__name__, ex)
            out["trace"] = traceback.format_exc()[-1500:]
        called |= E.called
        inlined |= E.inlined
        trusted |= E.trusted_used
        notes |= E.notes
        lem |= E.lemma_used
        # vacuity
        if not out["error"] and not c.flags & {"vacuous-ok"}:
            for what, pcs in getattr(E, "vac", []):
                pcs = [pcs] if what == "requires" else pcs
                if pcs and all(solve.vacuous(pc, E.bg) for pc in pcs):
                    out["error"] = "contradictory assumptions at " + what
        fails = 0
        for o in E.obs:
            if fails >= 6:
                o.status, o.backend = "unknown", "skipped"
            else:
                solve.discharge(o, E.bg, budget if fails < 3 else budget / 4)
                if o.status == "unknown" and fails < 2:
                    solve.discharge(o, E.bg, 4 * budget, 4)
            if o.status != "proved":
                fails += 1
            cex = None
            if o.model is not None:
                cex = cexof(o.model, f, c)
            out["obs"].append({"name": o.name + tag, "kind": o.kind, "status": o.status, "backend": o.backend, "t": round(o.t, 3), "pos": o.pos, "cex": cex})
        out["paths"] = E.npaths
        out["quick"] = (E.quick_n, round(E.quick_t, 2))
    out["called"], out["inlined"], out["trusted"], out["notes"], out["lemmas"] = sorted(called), sorted(inlined), sorted(trusted), sorted(notes), sorted(lem)
    out["t"] = round(time.time() - t0, 2)
    return out


def cexof(m, f, c):
    r = {}
    for d in m.decls():
        n = d.name()
        if d.arity() == 0 and (n.startswith("p_") or n.startswith("g_") or n.startswith("l_") or n.startswith("r_")):
            v = str(m[d])
            if len(v) < 200:
                if n.startswith("p_"):
                    try:
                        n = f["params"][int(n[2:])]["name"]
                    except (ValueError, IndexError):
                        pass
                r[n] = v
    return r


def verify_lemma(world, specs, name):
    """proof obligations of a lemma; built-in arithmetic lemma sets are proved over the real operators"""
    out = {"name": "lemma " + name, "obs": [], "called": [], "inlined": [], "trusted": [], "notes": [], "lemmas": [], "error": None}
    t0 = time.time()
    if name == "arith":
        for n, f in arith_lemmas(lambda a, b: a * b, lambda a, b: a / b, lambda a, b: a % b, False):
            ok, be, t = arith_proof(n, f)
            out["obs"].append({"name": "lemma arith/" + n, "kind": "lemma", "status": "proved" if ok else "unknown", "backend": be, "t": round(t, 3), "pos": "", "cex": None})
        out["t"] = time.time() - t0
        return out
    if name == "bits":
        for n, claims in bits_claims():
            t1 = time.time()
            ok = True
            for cl in claims:
                s = z3.Solver()
                s.set("timeout", 20000)
                s.add(z3.Not(cl))
                ok = ok and s.check() == z3.unsat
            out["obs"].append({"name": "lemma bits/" + n, "kind": "lemma", "status": "proved" if ok else "unknown", "backend": "z3-" + z3.get_version_string(), "t": round(time.time() - t1, 3), "pos": "", "cex": None})
        out["t"] = time.time() - t0
        return out
    l = specs.lemmas[name]
    E = Verifier(world, specs)
    E.proving = name
    E.top = "lemma " + name
    try:
        # parameters as constants
        def inst(suffix):
            env = {}
            for pn, ta in l["params"]:
                t = E.sty(ta, l["pkg"], {})
                env[pn] = (z3.Const("lm_" + pn + suffix, E.sort(t)), t)
            return env
        env = inst("")
        C = Ctx(E, env, None, None, l["pkg"], {})
        pc = []
        for r in l["requires"]:
            pc.append(E.evb(r.e, C))
        if l["induction"]:
            # strong induction on a non-negative integer measure
            m = E.ev(SL.parse_expr(l["induction"]), C)[0]
            vs = dict(env)
            ind = [pn for pn, _ in l["params"] if pn in l["induction"].replace("+", " ").replace("-", " ").split() or pn in l.get("gen", [])]
            for pn, tv in inst("'").items():
                if pn in ind:
                    vs[pn] = tv
            C2 = Ctx(E, vs, None, None, l["pkg"], {})
            m2 = E.ev(SL.parse_expr(l["induction"]), C2)[0]
            req2 = [E.evb(r.e, C2) for r in l["requires"]]
            ens2 = [E.evb(x.e, C2) for x in l["ensures"]]
            bound = [vs[pn][0] for pn in ind]
            body = z3.Implies(z3.And(m2 >= 0, m2 < m, *req2), z3.And(*ens2))
            if l.get("trig"):
                pats = []
                for g in l["trig"]:
                    ts = [E.ev(x, C2)[0] for x in g]
                    pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
                pc.append(z3.ForAll(bound, body, patterns=pats))
            else:
                pc.append(z3.ForAll(bound, body))
            pc.append(m >= 0) if "nonneg" in l["flags"] else None
            # measure must be non-negative where it is used
            o = Oblig("lemma %s/measure" % name, [x for x in pc if not z3.is_quantifier(x) or True][:len(l["requires"])], m >= 0, "lemma", E.top)
            if "nonneg" not in l["flags"]:
                E.obs.append(o)
        for lab, u in l["uses"]:
            st = State()
            st.pc = pc
            E.use_lemma(u, C, st)
        for i, e in enumerate(l["ensures"]):
            E.obs.append(Oblig("lemma %s/ensures[%s]" % (name, e.label or i), list(pc), E.evb(e.e, C), "lemma", E.top))
    except (Unsupported, SL.SpecError, KeyError, z3.Z3Exception) as ex:
        out["error"] = "%s: %s" % (type(ex).__name__, ex)
        out["trace"] = traceback.format_exc()[-1500:]
    for o in E.obs:
        solve.discharge(o, E.bg, 30)
        out["obs"].append({"name": o.name, "kind": "lemma", "status": o.status, "backend": o.backend, "t": round(o.t, 3), "pos": "", "cex": None})
    out["lemmas"] = sorted(E.lemma_used - {name}) + [x[6:] for x in ()]
    out["trusted"] = sorted(E.trusted_used)
    out["t"] = time.time() - t0
    return out


def arith_proof(n, f):
    return solve.prove_lemma(n, f, 10000)
