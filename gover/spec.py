"""Evaluation of contract expressions over symbolic states."""
import z3
from .engine import *
from . import speclang as SL


class SpecEval:
    """mixin for Engine: evaluates spec ASTs"""

    # types ------------------------------------------------------------
    def sty(self, t, pkg, tenv, go=False):
        """spec type AST -> Ty"""
        k = t[0]
        w = self.w
        if k == "ptr":
            return w.ptr(self.sty(t[1], pkg, tenv, True))
        if k == "slice":
            return w.slice(self.sty(t[1], pkg, tenv, True))
        if k == "map":
            a, b = self.sty(t[1], pkg, tenv, True), self.sty(t[2], pkg, tenv, True)
            return w.mk("map[%s]%s" % (a.key, b.key), {"k": "map", "key": a.key, "elem": b.key})
        if k == "fn":
            a, b = self.sty(t[1], pkg, tenv), self.sty(t[2], pkg, tenv)
            key = "fn[%s]%s" % (a.key, b.key)
            r = w.types.get(key)
            if r is None:
                r = Ty("fn", key, {"k": "fn", "key_t": a, "elem_t": b})
                w.types[key] = r
            return r
        n, args = t[1], t[2]
        if go and n == "int":
            return w.basic("int")
        if n.startswith("$"):
            if n in tenv:
                return tenv[n]
            return w.types.get(n) or w.mk(n, {"k": "tparam"})
        if n == "int":
            return T_MATH
        if n == "bool":
            return T_BOOL
        if n == "string":
            return T_STR
        if n == "real":
            return T_REAL
        if go and n == "any" and ("iface interface{}" in w.types or "iface interface{}" in w.raw):
            return w.ty_("iface interface{}")
        if n in ("any", "error"):
            return T_ANY
        if n == "Time":
            return w.ty_("time.Time")
        if n in INT_RANGES or n in ("float64",):
            return w.basic(n)
        if n == "Unit":
            return w.ty_("struct{}")
        if n in ("ref", "func", "chan"):
            return T_MATH
        if n == "Dyn":
            raise SL.SpecError("Dyn")
        full = n if ("." in n) else pkg + "." + n
        ts = [self.sty(a, pkg, tenv, True) for a in args]
        key = full + ("[" + ",".join(x.key for x in ts) + "]" if ts else "")
        if key in w.types:
            return w.types[key]
        if key in w.raw:
            return w.ty(key)
        if full in w.decl:
            return w.mk(key, {"k": "named", "name": full, "targs": [x.key for x in ts]})
        raise SL.SpecError("unknown type %s (in %s)" % (key, pkg))

    # expression -----------------------------------------------------------
    def ev(self, e, C):
        """C: context with .env .st .old .pkg .tenv .lookup ; returns (term, Ty)"""
        k = e[0]
        if k == "num":
            return z3.IntVal(e[1]), T_MATH
        if k == "bool":
            return z3.BoolVal(e[1]), T_BOOL
        if k == "str":
            return self.strconst(e[1]), T_STR
        if k == "nil":
            return None, T_NIL
        if k == "id":
            n = e[1]
            if n in C.env:
                v, t = C.env[n]
                if callable(v):
                    v, t = v(C)
                return v, t
            if n in self.sp.defs and not self.sp.getdef(n, C.pkg)[0]:
                return self.ev_def(n, [], C)
            r = C.lookup(n)
            if r is not None:
                return r
            if n in self.sp.ghostglobals:
                gt = self.sp.ghostglobals[n]
                t = self.sty(gt[0], gt[1], {})
                return self.hget(C.st, ("GG", n), self.sort(t)), t
            raise SL.SpecError("unknown name " + n)
        if k == "un":
            if e[1] == "!":
                return Not(self.evb(e[2], C)), T_BOOL
            if e[1] == "-":
                v, t = self.ev(e[2], C)
                return norm(-v) if v.sort() == I else -v, T_MATH if v.sort() == I else t
            if e[1] == "&":
                x = e[2]
                if x[0] != "sel":
                    raise SL.SpecError("& needs a field")
                o, ot = self.ev(x[1], C)
                st = self.w.ty_(self.w.under(ot).d["elem"])
                ft = self.fieldty(st, x[2])
                return self.faddr(st, x[2], o), self.w.ptr(ft)
            if e[1] == "*":
                o, ot = self.ev(e[2], C)
                et = self.w.ty_(self.w.under(ot).d["elem"])
                if self.hstruct(et):
                    return self.loadstruct(C.st, et, o), et
                return sel(self.hget(C.st, ("C", et.key), z3.ArraySort(I, self.sort(et))), o), et
        if k == "bin":
            return self.ev_bin(e, C)
        if k == "in":
            v, vt = self.ev(e[1], C)
            m, mt = self.ev(e[2], C)
            if mt.k == "fn":
                return sel(m, v), T_BOOL
            return sel(self.mdom(C.st, mt, m), v), T_BOOL
        if k == "ite":
            c = self.evb(e[1], C)
            a, at = self.ev(e[2], C)
            b, bt = self.ev(e[3], C)
            a, b, t = self.unify(a, at, b, bt)
            return ITE(c, a, b), t
        if k == "let":
            v = self.ev(e[2], C)
            return self.ev(e[3], C.bind({e[1]: v}))
        if k in ("forall", "exists"):
            vs, env = [], {}
            for n, ta in e[1]:
                t = self.sty(ta, C.pkg, C.tenv)
                c = self.fresh("q_" + n, self.sort(t))
                vs.append(c)
                env[n] = (c, t)
            C2 = C.bind(env)
            pats = []
            for g in e[2]:
                ts = [self.ev(x, C2)[0] for x in g]
                pats.append(ts)
            body = self.evb(e[3], C2)
            if z3.is_true(body) or z3.is_false(body):
                return body, T_BOOL
            q = z3.ForAll if k == "forall" else z3.Exists
            if pats:
                pats, body = self.absarrays(pats, body, vs)
                ok = []
                for g in pats:
                    try:
                        q(vs, body, patterns=[g])
                        ok.append(g)
                    except z3.Z3Exception:
                        pass
                if ok:
                    return q(vs, body, patterns=ok), T_BOOL
            return q(vs, body), T_BOOL
        if k == "lam":
            t = self.sty(e[2], C.pkg, C.tenv)
            c = self.fresh("q_" + e[1], self.sort(t))
            b, bt = self.ev(e[3], C.bind({e[1]: (c, t)}))
            A = self.fresh("lam", z3.ArraySort(c.sort(), b.sort()))
            C.side.append(z3.ForAll([c], z3.Select(A, c) == b, patterns=[z3.Select(A, c)]))
            return A, self.sty_fn(t, bt)
        if k == "sel":
            return self.ev_sel(e, C)
        if k == "idx":
            o, ot = self.ev(e[1], C)
            i, it = self.ev(e[2], C)
            if ot.k == "fn":
                return sel(o, i), ot.d["elem_t"]
            u = self.w.under(ot)
            if u.k == "slice":
                et = self.w.ty_(u.d["elem"])
                off = s_off(o) if not (z3.is_app(o) and o.num_args() == 4) else o.arg(1)
                return sel(self.elems(C.st, et, self.sg(o, 0)), add(self.sg(o, 1), i) if self.symoff(o) else i), et
            if u.k == "map":
                kt, vt = self.w.ty_(u.d["key"]), self.w.ty_(u.d["elem"])
                return sel(self.mval(C.st, ot, o), i), vt
            if u.k == "array":
                return sel(o, i), self.w.ty_(u.d["elem"])
            if self.w.is_string(ot):
                return self.uf("sat", STR, I, I)(o, i), T_MATH
            raise SL.SpecError("index of " + ot.key)
        if k == "upd":
            o, ot = self.ev(e[1], C)
            i, _ = self.ev(e[2], C)
            v, _ = self.ev(e[3], C)
            return sto(o, i, v), ot
        if k == "slice":
            o, ot = self.ev(e[1], C)
            lo = self.ev(e[2], C)[0] if e[2] else z3.IntVal(0)
            hi = self.ev(e[3], C)[0] if e[3] else self.sg(o, 2)
            if self.w.is_string(ot):
                self.str_axioms()
                return self.ssub(o, lo, hi if e[3] else self.slen(o)), T_STR
            return mkslice(self.sg(o, 0), add(self.sg(o, 1), lo), sub(hi, lo), sub(self.sg(o, 3), lo)), ot
        if k == "call":
            return self.ev_call(e, C)
        raise SL.SpecError("cannot evaluate %r" % (e,))

    def symoff(self, o):
        off = self.sg(o, 1)
        return not (z3.is_int_value(off) and off.as_long() == 0) and not (z3.is_app(off) and off.decl().eq(s_off))

    def sg(self, o, i):
        """slice component"""
        if z3.is_app(o) and o.num_args() == 4 and o.decl().eq(SLICE.constructor(0)):
            return o.arg(i)
        if i == 1:
            return s_off(o)
        return (s_base, s_off, s_len, s_cap)[i](o)

    def sty_fn(self, a, b):
        key = "fn[%s]%s" % (a.key, b.key)
        r = self.w.types.get(key)
        if r is None:
            r = Ty("fn", key, {"k": "fn", "key_t": a, "elem_t": b})
            self.w.types[key] = r
        return r

    def evb(self, e, C):
        v, t = self.ev(e, C)
        if v is None or v.sort() != B:
            raise SL.SpecError("boolean expected: %r" % (e,))
        return v

    def unify(self, a, at, b, bt):
        if a is None and b is None:
            return z3.IntVal(0), z3.IntVal(0), T_MATH
        if a is None:
            return self.zero(bt), b, bt
        if b is None:
            return a, self.zero(at), at
        a, b = self.term(a), self.term(b)
        if a.sort() != b.sort():
            if z3.is_bv(a) and z3.is_int_value(b):
                return a, z3.BitVecVal(b.as_long(), a.sort().size()), at
            if z3.is_bv(b) and z3.is_int_value(a):
                return z3.BitVecVal(a.as_long(), b.sort().size()), b, bt
            if z3.is_bv(a) and z3.is_bv(b):
                n = max(a.sort().size(), b.sort().size())
                ext = lambda x, t: x if x.sort().size() == n else (z3.SignExt(n - x.sort().size(), x) if self.signed(t) else z3.ZeroExt(n - x.sort().size(), x))
                return ext(a, at), ext(b, bt), at if a.sort().size() == n else bt
            if a.sort() == R and b.sort() == I:
                return a, z3.ToReal(b), at
            if b.sort() == R and a.sort() == I:
                return z3.ToReal(a), b, bt
            raise SL.SpecError("sort mismatch %s / %s (%s, %s)" % (a.sort(), b.sort(), at.key, bt.key))
        return a, b, (bt if at.k == "math" else at)

    def signed(self, t):
        ii = self.w.intinfo(t)
        return ii[0] if ii else True

    def ev_bin(self, e, C):
        o = e[1]
        if o in ("==>", "&&", "||", "<==>"):
            a = self.evb(e[2], C)
            if o == "==>":
                if z3.is_false(a):
                    return z3.BoolVal(True), T_BOOL
                return Implies(a, self.evb(e[3], C)), T_BOOL
            if o == "&&":
                if z3.is_false(a):
                    return a, T_BOOL
                return And(a, self.evb(e[3], C)), T_BOOL
            if o == "||":
                if z3.is_true(a):
                    return a, T_BOOL
                return Or(a, self.evb(e[3], C)), T_BOOL
            return a == self.evb(e[3], C), T_BOOL
        a, at = self.ev(e[2], C)
        b, bt = self.ev(e[3], C)
        a, b, t = self.unify(a, at, b, bt)
        if o == "==":
            return eq(a, b), T_BOOL
        if o == "!=":
            return Not(eq(a, b)), T_BOOL
        if z3.is_bv(a):
            sg = self.signed(t)
            ops = {"<": (a < b) if sg else z3.ULT(a, b), "<=": (a <= b) if sg else z3.ULE(a, b),
                   ">": (a > b) if sg else z3.UGT(a, b), ">=": (a >= b) if sg else z3.UGE(a, b),
                   "+": a + b, "-": a - b, "*": a * b, "/": (a / b) if sg else z3.UDiv(a, b), "%": z3.SRem(a, b) if sg else z3.URem(a, b)}
            return (ops[o], T_BOOL) if o in ("<", "<=", ">", ">=") else (ops[o], t)
        if a.sort() == STR:
            if o == "+":
                return self.scat(a, b), T_STR
            f = self.sltf()
            return {"<": f(a, b), ">": f(b, a), "<=": Not(f(b, a)), ">=": Not(f(a, b))}[o], T_BOOL
        if a.sort() not in (I, R):
            if o in ("<", ">"):
                f = self.uf("lt_" + t.key, a.sort(), a.sort(), B)
                return (f(a, b) if o == "<" else f(b, a)), T_BOOL
            if o in ("<=", ">="):
                f = self.uf("lt_" + t.key, a.sort(), a.sort(), B)
                return (Not(f(b, a)) if o == "<=" else Not(f(a, b))), T_BOOL
            raise SL.SpecError("operator %s on %s" % (o, t.key))
        T = T_MATH if a.sort() == I else T_REAL
        if o in ("<", "<=", ">", ">="):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o], T_BOOL
        if o == "+":
            return (add(a, b) if a.sort() == I else a + b), T
        if o == "-":
            return (sub(a, b) if a.sort() == I else a - b), T
        if o == "*":
            return self.imul(a, b), T
        if o == "/":
            return self.idiv(a, b), T
        if o == "%":
            return self.imod(a, b), T
        raise SL.SpecError("operator " + o)

    def absarrays(self, pats, body, vs):
        """name the ground array terms inside triggers, so that rewriting of selects over stores cannot destroy them"""
        names = {str(v) for v in vs}
        subs = []

        def ground(t):
            # bound variables, those of the quantifiers around this one included
            return not any(n in names or n.startswith("q_") for n in consts_of(t))

        def walk(t):
            if not z3.is_app(t):
                return
            if isinstance(t.sort(), z3.ArraySortRef) and not z3.is_const(t) and ground(t):
                if z3.is_select(t) and z3.is_const(t.arg(0)) or z3.is_const_array(t):
                    return
                c = self.absc.get(t.get_id())
                if c is None:
                    c = (t, self.fresh("arr", t.sort()))
                    self.serial[str(c[1])] = max([self.serial.get(x, 0) for x in consts_of(t)] + [0])
                    self.absc[t.get_id()] = c
                    self.bg.append(c[1] == t)
                subs.append(c)
                return
            for ch in t.children():
                walk(ch)
        for pp in pats:
            for t in pp:
                walk(t)
        S = (lambda t: z3.substitute(t, *subs)) if subs else (lambda t: t)
        np = []
        for pp in pats:
            pp = [S(t) for t in pp]
            np.append(z3.MultiPattern(*pp) if len(pp) > 1 else pp[0])
        return np, S(body)

    # multiplication / division over mathematical integers; symbolic divisors go to nmul/ndiv/nmod (lemmas in arith)
    def imul(self, a, b):
        if a.sort() == R or conc(a) or conc(b):
            return norm(a * b) if a.sort() == I else a * b
        self.arith_axioms()
        if a.get_id() > b.get_id() and False:
            a, b = b, a
        return self.uf("nmul", I, I, I)(a, b)

    def idiv(self, a, b):
        if a.sort() == R:
            return a / b
        if conc(b):
            return a / b
        self.arith_axioms()
        return self.uf("ndiv", I, I, I)(a, b)

    def imod(self, a, b):
        if conc(b):
            return a % b
        self.arith_axioms()
        return self.uf("nmod", I, I, I)(a, b)

    def ev_sel(self, e, C):
        base = e[1]
        o, ot = self.ev(base, C)
        f = e[2]
        u = self.w.under(ot)
        if u.k == "ptr":
            et = self.w.ty_(u.d["elem"])
            nm = et.d.get("name")
            gf = self.sp.ghostfields.get((nm, f))
            if gf:
                tenv = {}
                if et.d.get("targs"):
                    ps = self.w.decl[nm][0] if nm in self.w.decl else []
                    tenv = {p: self.w.ty_(a) for p, a in zip(ps, et.d["targs"])}
                gt = self.sty(gf[0], gf[1], tenv)
                return sel(self.hget(C.st, ("G", et.key, f), z3.ArraySort(I, self.sort(gt))), o), gt
            ft = self.fieldty(et, f)
            if self.hstruct(ft):
                return self.loadstruct(C.st, ft, self.faddr(et, f, o)), ft
            v = self.fld(C.st, et, f, ft, o)
            self.sidefact(C, ft, v)
            return v, ft
        if u.k == "struct":
            for i, (n, ft) in enumerate(self.w.fields(ot)):
                if n == f:
                    return self.sget(ot, i, o), ft
            raise SL.SpecError("no field %s in %s" % (f, ot.key))
        if isinstance(o, Addr):
            raise SL.SpecError("field of address")
        raise SL.SpecError("field %s of %s" % (f, ot.key))

    def sidefact(self, C, t, v):
        """type invariant of a loaded ground value, reported to the context"""
        if C.st is None or C.st.alloc is None or not z3.is_expr(v):
            return
        s = v.sort()
        if not (s == SLICE or s == I):
            return
        if z3.is_const(v) or s == SLICE and z3.is_app(v) and v.decl().eq(SLICE.constructor(0)):
            return
        if any(x.startswith("q_") or x.startswith("u_") for x in consts_of(v)):
            return
        k = ("sf", v.get_id(), C.st.alloc.get_id())
        if k in self.sfseen:
            C.side.extend(self.sfseen[k][2])
            return
        tmp = State()
        tmp.alloc = C.st.alloc
        tmp.x, tmp.heap = {}, C.st.heap
        self.sfseen[k] = (v, tmp.alloc, tmp.pc)
        if self.w.under(t).k != "map":
            self.fact(tmp, t, v)
        C.side.extend(tmp.pc)

    def ev_def(self, n, args, C):
        ps, body, pkg = self.sp.getdef(n, C.pkg)
        if len(ps) != len(args):
            raise SL.SpecError("arity of " + n)
        C2 = C.bind(dict(zip(ps, args)))
        C2.env = dict(zip(ps, args))
        if "result" in C.env:
            C2.env.setdefault("result", C.env["result"])
        C2.pkg = pkg
        C2.nolocals = True
        if pkg != C.pkg:
            for a in args:
                t = a[1]
                if t is None:
                    continue
                u = self.w.under(t)
                if u.k == "ptr":
                    t = self.elem(t)
                nm, ta = t.d.get("name"), t.d.get("targs")
                if ta and nm and nm.startswith(pkg + "."):
                    # a definition of a generic package speaks about the instance it is applied to
                    C2.tenv = dict(C.tenv)
                    for pp, x in zip(self.w.decl[nm][0], ta):
                        C2.tenv[pp] = self.w.ty_(x)
                    break
        # defs close over types of the package they are declared in; type variables of the caller stay visible
        return self.ev(body, C2)

    def ev_call(self, e, C):
        fn, args = e[1], e[2]
        if fn[0] == "sel":
            raise SL.SpecError("method call in spec")
        n = fn[1]
        if n == "old":
            C2 = C.copy()
            C2.st = C.old
            C2.env = dict(C.env)
            for kk, vv in C.oldenv.items():
                C2.env[kk] = vv
            return self.ev(args[0], C2)
        if n == "len":
            o, ot = self.ev(args[0], C)
            u = self.w.under(ot)
            if u.k == "slice":
                return self.sg(o, 2), T_MATH
            if u.k == "map":
                return self.mlen(C.st, ot, o), T_MATH
            if self.w.is_string(ot):
                return self.slen(o), T_MATH
            if u.k == "array":
                return z3.IntVal(u.d["len"]), T_MATH
            raise SL.SpecError("len of " + ot.key)
        if n == "cap":
            return self.sg(self.ev(args[0], C)[0], 3), T_MATH
        if n in self.sp.ghostmaps:
            o, _ = self.ev(args[0], C)
            key, srt, t = self.gmkey(n)
            return sel(self.hget(C.st, key, srt), self.sid(o)), t
        if n == "str":       # the bytes of a slice (or of a string) as a string
            o, ot = self.ev(args[0], C)
            if o.sort() == SLICE:
                return self.bytes2str(C.st, o, self.w.ty_(self.w.under(ot).d["elem"])), T_STR
            return o, T_STR
        if n == "sid":
            return self.sid(self.ev(args[0], C)[0]), T_MATH
        if n == "base":
            return self.sg(self.ev(args[0], C)[0], 0), T_MATH
        if n == "off":
            return self.sg(self.ev(args[0], C)[0], 1), T_MATH
        if n == "seqof":
            o, ot = self.ev(args[0], C)
            if self.symoff(o):
                raise Unsupported("seqof a slice with an offset")
            et = self.w.ty_(self.w.under(ot).d["elem"])
            return self.elems(C.st, et, self.sg(o, 0)), self.sty_fn(T_MATH, et)
        if n == "domof":
            o, ot = self.ev(args[0], C)
            k, kt, vt = self.mkeys(ot)
            return self.mdom(C.st, ot, o), self.sty_fn(kt, T_BOOL)
        if n == "mapof":
            o, ot = self.ev(args[0], C)
            k, kt, vt = self.mkeys(ot)
            return self.mval(C.st, ot, o), self.sty_fn(kt, vt)
        if n == "fresh":      # allocated since entry
            o, ot = self.ev(args[0], C)
            if o.sort() == SLICE:
                o = self.sg(o, 0)
            o = self.sid(o)
            return And(Not(self.isalloc(o, C.old.alloc)), self.isalloc(o, C.st.alloc), o != 0), T_BOOL
        if n == "allocated":
            o, ot = self.ev(args[0], C)
            if o.sort() == SLICE:
                o = self.sg(o, 0)
            return self.isalloc(o, C.st.alloc), T_BOOL
        if n == "oldallocated":
            o, ot = self.ev(args[0], C)
            return self.isalloc(o, C.old.alloc), T_BOOL
        if n == "app":
            f, ft = self.ev(args[0], C)
            vs = [self.ev(a, C) for a in args[1:]]
            u = self.w.under(ft)
            rt = self.w.ty_(u.d["results"][0])
            pts = [self.w.ty_(p) for p in u.d["params"]]
            return self.appuf(f, pts, rt, [v for v, _ in vs]), rt
        if n == "ref":
            o, _ = self.ev(args[0], C)
            return self.term(o), T_MATH
        if n == "real":
            o, _ = self.ev(args[0], C)
            return z3.ToReal(o) if o.sort() == I else o, T_REAL
        if n == "floor":
            o, _ = self.ev(args[0], C)
            return z3.ToInt(o), T_MATH
        if n in ("nrunes", "runes", "utf8"):
            # the number of characters of a string, the characters, and whether it is valid text
            o, _ = self.ev(args[0], C)
            self.rune_axioms()
            if n == "nrunes":
                return self.uf("runecount", STR, I)(o), T_MATH
            if n == "utf8":
                return self.uf("utf8", STR, B)(o), T_BOOL
            return self.uf("str2runes", STR, z3.ArraySort(I, I))(o), self.sty_fn(T_MATH, T_MATH)
        if n == "concat":
            vs = [self.ev(a, C)[0] for a in args]
            r = vs[0]
            for v in vs[1:]:
                r = self.scat(r, v)
            return r, T_STR
        if n == "box":
            v, t = self.ev(args[0], C)
            return self.box(t, v), T_ANY
        if n == "boxas":
            v, t = self.ev(args[1], C)
            tt = self.sty(SL.P(args[0][1]).type(), C.pkg, C.tenv)
            return self.box(tt, v), T_ANY
        if n == "unboxas":
            v, t = self.ev(args[1], C)
            tt = self.sty(SL.P(args[0][1]).type(), C.pkg, C.tenv)
            return self.unbox(tt, v), tt
        if n == "typeis":
            v, t = self.ev(args[0], C)
            tt = self.sty(SL.P(args[1][1]).type(), C.pkg, C.tenv)
            return self.typeof(v) == self.tag(tt), T_BOOL
        if n == "cast":      # a reference seen as another pointer type
            v, t = self.ev(args[1], C)
            rt = self.sty(SL.P(args[0][1]).type(), C.pkg, C.tenv)
            return (self.unbox(rt, v) if z3.is_expr(v) and v.sort() == ANY and self.sort(rt) != ANY else self.term(v)), rt
        if n == "fieldmap":    # the heap map of a field: object -> value
            t = self.sty(SL.P(args[0][1]).type(), C.pkg, C.tenv)
            fname = args[1][1]
            gf = self.sp.ghostfields.get((t.d.get("name"), fname))
            if gf:
                tenv = {pp: self.w.ty_(a) for pp, a in zip(self.w.decl[t.d["name"]][0], t.d["targs"])} if t.d.get("targs") else {}
                ft = self.sty(gf[0], gf[1], tenv)
                key = ("G", t.key, fname)
            else:
                ft = self.fieldty(t, fname)
                key = self.fkey(t, fname)
            return self.hget(C.st, key, z3.ArraySort(I, self.sort(ft))), self.sty_fn(self.w.ptr(t), ft)
        if n == "constfn":
            v, t = self.ev(args[0], C)
            return z3.K(I, v), self.sty_fn(T_MATH, t)
        if n == "atacq":      # value at lock acquisition
            C2 = C.copy()
            C2.st = C.acq if C.acq is not None else C.old
            return self.ev(args[0], C2)
        if n == "pow2":
            return self.ev_pow2(args, C)
        if n == "held":
            raise SL.SpecError("held")
        if n == "global":
            g = args[0][1]
            t = self.w.ty_(self.w.globals[g]["t"])
            et = self.w.ty_(t.d["elem"])
            return self.hget(C.st, ("GL", g), self.sort(et)), et
        if n in ("int", "uint64", "int64", "uint") and n not in self.sp.uf:
            return self.ev(args[0], C)
        if n in self.sp.defs:
            return self.ev_def(n, [self.ev(a, C) for a in args], C)
        if n in self.sp.uf:
            return self.ev_uf(n, [self.ev(a, C) for a in args], C)
        h = getattr(self, "specfn_" + n, None)
        if h:
            return h([self.ev(a, C) for a in args], C)
        raise SL.SpecError("unknown spec function " + n)

    def appuf(self, f, pts, rt, vs):
        nm = "app_" + ",".join(p.key for p in pts) + ">" + rt.key
        return self.uf(nm, I, *[self.sort(p) for p in pts], self.sort(rt))(f, *vs)

    # polymorphic uninterpreted spec functions ------------------------------------
    def match(self, ta, t, b, pkg):
        if ta[0] == "name" and ta[1].startswith("$"):
            b.setdefault(ta[1], t)
        elif ta[0] == "fn" and t.k == "fn":
            self.match(ta[1], t.d["key_t"], b, pkg)
            self.match(ta[2], t.d["elem_t"], b, pkg)
        elif ta[0] == "slice":
            u = self.w.under(t)
            if u.k == "slice":
                self.match(ta[1], self.w.ty_(u.d["elem"]), b, pkg)
        elif ta[0] == "ptr":
            u = self.w.under(t)
            if u.k == "ptr":
                self.match(ta[1], self.w.ty_(u.d["elem"]), b, pkg)
        elif ta[0] == "map":
            u = self.w.under(t)
            if u.k == "map":
                self.match(ta[1], self.w.ty_(u.d["key"]), b, pkg)
                self.match(ta[2], self.w.ty_(u.d["elem"]), b, pkg)
        elif ta[0] == "name" and ta[2] and t.k == "named":
            for x, y in zip(ta[2], t.d.get("targs", [])):
                self.match(x, self.w.ty_(y), b, pkg)

    def ev_uf(self, n, args, C):
        ats, rt, pkg = self.sp.uf[n]
        b = {}
        for ta, (v, t) in zip(ats, args):
            if t.k not in ("nil",):
                self.match(ta, t, b, pkg)
        sig = [self.sty(ta, pkg, b) for ta in ats]
        vs = []
        for s, (v, t) in zip(sig, args):
            if v is None:
                v = self.zero(s)
            v = self.term(v)
            if self.sort(s) == R and v.sort() == I:
                v = z3.ToReal(v)
            if z3.is_bv(v) and self.sort(s) == I:
                pass
            vs.append(v)
        rty = self.sty(rt, pkg, b)
        nm = n
        special = getattr(self, "bv_" + n, None)
        if special and any(z3.is_bv(v) for v in vs):
            return special(vs, args), T_BOOL
        if b:
            nm = n + "<" + ",".join(k + "=" + v.key for k, v in sorted(b.items())) + ">"
        f = self.uf(nm, *[self.sort(s) for s in sig], self.sort(rty))
        self.uf_touch(n, nm, b)
        return f(*vs), rty

    def uf_touch(self, n, inst, b):
        """bring in the axioms about spec function n at this type instance"""
        k = "ufax " + inst
        if k in self.bgseen:
            return
        self.bgseen.add(k)
        for an, ast, pkg, trig in self.axioms_for(n):
            ak = "ax %s %s" % (an, ",".join(x + "=" + v.key for x, v in sorted(b.items())))
            if ak in self.bgseen:
                continue
            self.bgseen.add(ak)
            C = Ctx(self, {}, None, None, pkg, dict(b))
            f = self.evb(ast, C)
            self.bg.append(f)
            if an.startswith("lemma:"):
                self.lemma_used.add(an[6:])
            else:
                self.trusted_used.add("axiom " + an)

    def axioms_for(self, n):
        out = []
        for an, ast, pkg in self.sp.axioms:
            if n in self.names_in(ast, pkg):
                out.append((an, ast, pkg, None))
        for ln, l in self.sp.lemmas.items():
            if "auto" in l["flags"] and ln != getattr(self, "proving", None) and self.lemma_before(ln):
                ast = self.lemma_ast(l)
                if n in self.names_in(ast, l["pkg"]):
                    out.append(("lemma:" + ln, ast, l["pkg"], None))
        return out

    def lemma_before(self, ln):
        """while proving a lemma only earlier lemmas may be used"""
        p = getattr(self, "proving", None)
        if p is None:
            return True
        order = list(self.sp.lemmas)
        return order.index(ln) < order.index(p)

    def lemma_ast(self, l):
        body = None
        for c in l["ensures"]:
            body = c.e if body is None else ("bin", "&&", body, c.e)
        for c in reversed(l["requires"]):
            body = ("bin", "==>", c.e, body)
        if l["params"]:
            body = ("forall", l["params"], l.get("trig", []), body)
        return body

    _nc = {}

    def names_in(self, ast, pkg=None):
        k = (id(ast), pkg)
        if k in self._nc:
            return self._nc[k][1]
        out = set()

        def walk(x):
            if isinstance(x, (list, tuple)):
                if len(x) == 3 and x[0] == "call" and x[1][0] == "id":
                    out.add(x[1][1])
                    if x[1][1] in self.sp.defs and ("D", x[1][1]) not in out:
                        out.add(("D", x[1][1]))
                        walk(self.sp.getdef(x[1][1], pkg)[1])
                for y in x:
                    walk(y)
        walk(ast)
        self._nc[k] = (ast, out)
        return out

    def specfn_msb(self, args, C):
        """the value of the top bit of the argument's type"""
        v, t = args[0]
        ii = self.w.intinfo(t)
        n = 1 << (ii[1] - 1)
        return (z3.BitVecVal(n, v.sort().size()) if z3.is_bv(v) else z3.IntVal(n)), (t if z3.is_bv(v) else T_MATH)

    def specfn_minval(self, args, C):
        v, t = args[0]
        if v.sort() == R:
            return v - 1, t     # floats (as reals) have no minimum whose negation does not fit
        ii = self.w.intinfo(t)
        n = -(1 << (ii[1] - 1)) if ii[0] else 0
        return (z3.BitVecVal(n, v.sort().size()) if z3.is_bv(v) else z3.IntVal(n)), (t if z3.is_bv(v) else T_MATH)

    def specfn_shr(self, args, C):
        (x, t), (k, _) = args
        if not z3.is_bv(x):
            return self.uf("shr", I, I, I)(x, k), T_MATH
        n, m = x.sort().size(), k.sort().size()
        kk = z3.Extract(n - 1, 0, k) if m > n else z3.ZeroExt(n - m, k) if m < n else k
        return z3.LShR(x, kk), t

    def bv_ispow2(self, vs, args):
        x = vs[0]
        z = z3.BitVecVal(0, x.sort().size())
        return And(x != z, (x & (x - 1)) == z)


class Ctx:
    def __init__(self, eng, env, st, old, pkg, tenv, lookup=None, oldenv=None, acq=None, side=None):
        self.eng, self.env, self.st, self.old, self.pkg, self.tenv = eng, env, st, old, pkg, tenv
        self.lookup_fn = lookup
        self.oldenv = oldenv or {}
        self.acq = acq
        self.side = side if side is not None else []
        self.nolocals = False

    def lookup(self, n):
        if self.lookup_fn and not self.nolocals:
            return self.lookup_fn(n, self)
        return None

    def copy(self):
        c = Ctx(self.eng, self.env, self.st, self.old, self.pkg, self.tenv, self.lookup_fn, self.oldenv, self.acq, self.side)
        c.nolocals = self.nolocals
        return c

    def bind(self, env):
        c = self.copy()
        c.env = dict(self.env)
        c.env.update(env)
        # quantified / let-bound names shadow entry values too
        if self.oldenv:
            c.oldenv = {k: v for k, v in self.oldenv.items() if k not in env}
        return c
