#!/usr/bin/env python3-vt
"""dev: try to refute the assumptions themselves: background axioms of every function, and the assumptions at every obligation"""
import sys, os, multiprocessing as mp, time
HERE = os.path.join(os.path.dirname(os.path.realpath(__file__)), "..")
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import check, z3
from gover.ty import World
from gover import vfun, solve
from gover.engine import Oblig, Unsupported
from gover.execu import Verifier


def job(a):
    n, kind = a
    out = []
    if kind == "lemma":
        return out
    c, f = SP.contracts[n], W.funcs[n]
    for tenv in vfun.inst_tenv(c, f, W):
        E = Verifier(W, SP, "bv" if c.mode == "bv" else "int")
        try:
            E.verify(c, f, tenv)
        except Exception as ex:
            out.append((n, "error %s" % ex))
            continue
        o = Oblig("bg", [], z3.BoolVal(False), "ensures", n)
        # all of the background, by every back end
        for mbqi in (True, False):
            s = solve.mk(o, E.bg, mbqi, 15000)
            if s.check() == z3.unsat:
                out.append((n, "BACKGROUND INCONSISTENT mbqi=%s" % mbqi))
        last = {}
        for ob in E.obs:
            if ob.kind in ("ensures", "inv"):
                key = tuple(x.get_id() for x in ob.pc[:len(ob.pc) // 2])
                last[(ob.name.split("[")[0], len(ob.pc), key)] = ob
        for ob in last.values():
            t = time.time()
            q = Oblig("smoke", ob.pc, z3.BoolVal(False), "ensures", n)
            solve.discharge(q, E.bg, 8)
            if q.status == "proved":
                q2 = Oblig("smoke", [x for x in ob.pc if not solve.hasquant(x)], z3.BoolVal(False), "ensures", n)
                s = solve.mk(q2, [], False, 3000)
                out.append((n, "refuted%s: %s by %s %.1fs" % (" (ground)" if s.check() == z3.unsat else "", ob.name, q.backend, q.t)))
    return out


if __name__ == "__main__":
    W = World(check.export())
    SP, _ = check.load_specs(W)
    names = [(n, "f") for n, c in SP.contracts.items() if not c.trusted and n in W.funcs and (len(sys.argv) < 2 or any(x in n for x in sys.argv[1:]))]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as p:
        for r in p.imap_unordered(job, names):
            for x in r:
                print(*x, flush=True)
    print("done", len(names))
