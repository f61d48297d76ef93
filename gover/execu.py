"""Symbolic execution of SSA functions, contracts at calls, loop cutting."""
import z3
from .engine import *
from .spec import SpecEval, Ctx
from .instr import Instr, Outcome
from . import speclang as SL
from .solve import names_of


class Verifier(Instr, SpecEval, Engine):
    MAXPATHS = 4000

    # ------------------------------------------------------------- arithmetic lemmas
    def arith_axioms(self):
        if "arith" in self.bgseen:
            return
        self.bgseen.add("arith")
        for n, f in arith_lemmas(self.uf("nmul", I, I, I), self.uf("ndiv", I, I, I), self.uf("nmod", I, I, I), True):
            self.bg.append(f)
            self.arith_ids.add(f.get_id())
        self.lemma_used.add("arith")

    def scat(self, a, b):
        f = self.uf("scat", STR, STR, STR)
        if "scat" not in self.bgseen:
            self.bgseen.add("scat")
            x, y = z3.Consts("x y", STR)
            i = z3.Int("i")
            sat = self.uf("sat", STR, I, I)
            L = lambda s: self.slen(s)
            self.bg.append(z3.ForAll([x, y], Implies(L(x) + L(y) <= MAXI, L(f(x, y)) == L(x) + L(y)), patterns=[f(x, y)]))
            self.bg.append(z3.ForAll([x, y, i], Implies(And(i >= 0, i < L(x)), sat(f(x, y), i) == sat(x, i)), patterns=[sat(f(x, y), i)]))
            self.bg.append(z3.ForAll([x, y, i], Implies(And(i >= L(x), i < L(x) + L(y)), sat(f(x, y), i) == sat(y, i - L(x))), patterns=[sat(f(x, y), i)]))
            self.bg.append(z3.ForAll([x], And(f(x, self.strconst(b"")) == x, f(self.strconst(b""), x) == x), patterns=[L(x)]))
        if a.eq(self.strconst(b"")):
            return b
        if b.eq(self.strconst(b"")):
            return a
        return f(a, b)

    # ------------------------------------------------------------- types under the frame's type environment
    def T(self, fr, key):
        t = self.w.ty_(key) if key in self.w.types or key in self.w.raw else self.w.ty(key)
        return self.w.subst(t, fr.tenv)

    def elem(self, t):
        return self.w.ty_(self.w.under(t).d["elem"])

    # ------------------------------------------------------------- values
    def val(self, fr, p, v):
        k = v["k"]
        if k == "reg":
            return p.regs[v["n"]]
        if k == "param":
            return fr.args[v["i"]]
        if k == "free":
            return fr.frees[v["i"]]
        if k == "const":
            return self.const(self.T(fr, v["t"]), v)
        if k == "global":
            t = self.elem(self.T(fr, v["t"]))
            return Addr("glob", v["n"], t, t)
        if k == "func":
            return self.funcval(v["n"], [self.T(fr, x) for x in v["targs"]], ())
        raise Unsupported("value kind " + k)

    def funcval(self, name, targs, binds):
        f = self.w.funcs.get(name)
        tenv = {}
        if f:
            tenv = {tp["n"]: ta for tp, ta in zip(f["tparams"], targs)}
        key = name + "[" + ",".join(t.key for t in targs) + "]"
        if binds:
            term = self.fresh("clo_" + name.split(".")[-1], I)
            self.bg.append(term > 0)
        else:
            term = z3.Const("fn_" + key, I)
            self.bgadd(term > 0)
        c = Clo(name, tenv, tuple(binds), term)
        self.clos[str(term)] = c
        ct = self.sp.contracts.get(name)
        if ct and ct.pure and f:
            self.emit_pure(ct, f, c)
        return c

    def emit_pure(self, ct, f, c):
        """a pure function value: app(f, args) is its contract result"""
        k = "pure " + str(c.term)
        if k in self.bgseen:
            return
        self.bgseen.add(k)
        env, vs, pts = {}, [], []
        for pn, pd in zip(ct.params, f["params"]):
            t = self.w.subst(self.w.ty_(pd["t"]), c.tenv)
            x = self.fresh("p_" + pn, self.sort(t))
            env[pn] = (x, t)
            vs.append(x)
            pts.append(t)
        rt = self.w.subst(self.w.ty_(f["results"][0]["t"]), c.tenv)
        r = self.appuf(c.term, pts, rt, vs)
        env["result"] = (r, rt)
        if ct.results:
            env[ct.results[0]] = (r, rt)
        body = []
        C = Ctx(self, env, None, None, ct.pkg, c.tenv)
        for cl in ct.ensures:
            body.append(self.evb(cl.e, C))
        self.bg.append(z3.ForAll(vs, And(*body), patterns=[r]))

    def const(self, t, v):
        ck = v["ck"]
        if ck == "nil":
            return self.zero(t)
        if ck == "bool":
            return z3.BoolVal(v["v"])
        if ck == "int":
            n = int(v["v"])
            s = self.sort(t)
            if z3.is_bv_sort(s):
                return z3.BitVecVal(n, s.size())
            if s == R:
                return z3.RealVal(n)
            if s == I:
                return z3.IntVal(n)
            raise Unsupported("constant of type parameter " + t.key)
        if ck == "float":
            return z3.RealVal(v["v"])
        if ck == "string":
            return self.strconst(bytes(v["v"]))
        raise Unsupported("const " + ck)

    # ------------------------------------------------------------- arithmetic with Go semantics
    def wrap(self, st, t, x):
        """x: mathematical result; value after wrapping into int type t"""
        ii = self.w.intinfo(t)
        if not ii or t.key == "time.Time":
            return x
        lo, hi = irange(ii)
        if conc(x):
            v = x.as_long()
            if lo <= v <= hi:
                return x
            n = 1 << ii[1]
            v = v % n
            return z3.IntVal(v - n if ii[0] and v > hi else v)
        if self.quick(st, And(x >= lo, x <= hi)):
            return x
        if nonlinear(x) and self.quicknl(st, And(x >= lo, x <= hi)):
            return x
        n = 1 << ii[1]
        self.notes.add("wrap")
        m = x % n
        if ii[0]:
            return ITE(And(x >= lo, x <= hi), x, ITE(m > hi, m - n, m))
        # one-step wrap for add/sub shapes keeps the formula linear
        return ITE(And(x >= lo, x <= hi), x, ITE(And(x < 0, x >= -n), x + n, ITE(And(x > hi, x <= 2 * hi), x - n, m)))

    def binop(self, fr, p, o, x, y, t, rt, ty, pos):
        st = p.st
        if o in ("==", "!="):
            if isinstance(x, (Addr, Clo)) or isinstance(y, (Addr, Clo)):
                x, y = self.term(x), self.term(y)
            if x.sort() != y.sort():
                if x.sort() == ANY:
                    y = self.box(ty, y)
                elif y.sort() == ANY:
                    x = self.box(t, x)
                else:
                    raise Unsupported("comparison of different sorts")
            if x.sort() == SLICE:
                # comparison with nil only
                other = x if self.isnilslice(y) else y
                r = eq(self.sg(other, 0), z3.IntVal(0))
            else:
                r = eq(x, y)
            return r if o == "==" else Not(r)
        s = x.sort()
        if z3.is_bv(x):
            return self.bvop(st, o, x, y, t, ty, pos)
        if s == I:
            if o in ("<", "<=", ">", ">="):
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
            if o == "+":
                return self.wrap(st, t, add(x, y))
            if o == "-":
                return self.wrap(st, t, sub(x, y))
            if o == "*":
                return self.wrap(st, t, self.imul(x, y))
            if o in ("/", "%"):
                return self.godiv(st, o, x, y, t, pos)
            return self.bitop(st, o, x, y, t, ty)
        if s == R:
            if o in ("<", "<=", ">", ">="):
                return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]
            if o == "/":
                return x / y
            return {"+": x + y, "-": x - y, "*": x * y}[o]
        if s == STR:
            if o == "+":
                self.assume(st, self.slen(x) + self.slen(y) <= MAXI)    # a longer string cannot exist in memory
                return self.scat(x, y)
            f = self.sltf()
            return {"<": f(x, y), ">": f(y, x), "<=": Not(f(y, x)), ">=": Not(f(x, y))}[o]
        if s == B:
            return {"&": And(x, y), "|": Or(x, y)}[o]
        raise Unsupported("operator %s on %s" % (o, t.key))

    def isnilslice(self, v):
        return z3.is_app(v) and v.num_args() == 4 and conc(v.arg(0)) and v.arg(0).as_long() == 0

    def godiv(self, st, o, x, y, t, pos):
        nz = Not(eq(y, z3.IntVal(0)))
        if not z3.is_true(z3.simplify(nz)):
            self.panic_check(st, nz, "division by zero", pos)
        ii = self.w.intinfo(t) or (True, 64)
        pos_y = conc(y) and y.as_long() > 0 or self.quick(st, y > 0)
        nonneg = (not ii[0]) or self.quick(st, x >= 0)
        if nonneg and pos_y:
            r = self.idiv(x, y) if o == "/" else self.imod(x, y)
            return r
        if pos_y:
            if o == "/":
                return ITE(x >= 0, self.idiv(x, y), norm(-self.idiv(norm(-x), y)))
            return ITE(x >= 0, self.imod(x, y), norm(-self.imod(norm(-x), y)))
        f = self.uf("tdiv" if o == "/" else "tmod", I, I, I)
        r = f(x, y)
        lo, hi = irange(ii)
        self.assume(st, And(r >= lo, r <= hi))
        self.assume(st, Implies(And(x >= 0, y > 0), r == (self.idiv(x, y) if o == "/" else self.imod(x, y))))
        if o == "%":
            self.assume(st, Implies(And(x <= 0, y > 0), And(r <= 0, r > -y, r == -self.imod(norm(-x), y))))
        return r

    def bitop(self, st, o, x, y, t, ty):
        ii = self.w.intinfo(t)
        lo, hi = irange(ii)
        if o == "&":
            if conc(y) or conc(x):
                c, v = (y, x) if conc(y) else (x, y)
                n = c.as_long()
                if n >= 0 and (n & (n + 1)) == 0 and not ii[0]:
                    return v % (n + 1)
            f = self.uf("band", I, I, I)
            r = f(x, y)
            self.bits_axioms()
            self.assume(st, And(r >= lo, r <= hi))
            self.assume(st, Implies(And(x >= 0, y >= 0), And(r >= 0, r <= x, r <= y)))
            return r
        if o in ("|", "^", "&^"):
            nm = {"|": "bor", "^": "bxor", "&^": "bandnot"}[o]
            r = self.uf(nm, I, I, I)(x, y)
            self.bits_axioms()
            self.assume(st, And(r >= lo, r <= hi))
            return r
        if o == "<<":
            if conc(x) and conc(y):
                return self.wrap(st, t, z3.IntVal(x.as_long() << y.as_long()))
            if conc(y):
                return self.wrap(st, t, norm(x * (1 << y.as_long())))
            r = self.uf(("sshl%d" if ii[0] else "shl%d") % ii[1], I, I, I)(x, y)
            self.bits_axioms()
            self.assume(st, And(r >= lo, r <= hi))
            return r
        if o == ">>":
            if conc(y):
                return x / (1 << y.as_long())
            r = self.uf("shr", I, I, I)(x, y)
            self.assume(st, And(r >= lo, r <= hi))
            return r
        raise Unsupported("bit operator " + o)

    def bits_axioms(self):
        if "bits" in self.bgseen:
            return
        self.bgseen.add("bits")
        for n, f in bits_lemmas(self):
            self.bg.append(f)
        self.lemma_used.add("bits")

    def bvop(self, st, o, x, y, t, ty, pos):
        sg = self.signed(t)
        if o in ("<<", ">>"):
            n = x.sort().size()
            if self.signed(ty):
                self.panic_check(st, y >= 0, "negative shift", pos)
            m = y.sort().size()
            big = z3.UGE(y, z3.BitVecVal(n, m)) if m >= 8 and (1 << m) > n else z3.BoolVal(False)
            yy = z3.ZeroExt(n - m, y) if m < n else z3.Extract(n - 1, 0, y) if m > n else y
            if o == "<<":
                return z3.If(big, z3.BitVecVal(0, n), x << yy)
            return z3.If(big, (x >> (n - 1)) if sg else z3.BitVecVal(0, n), (x >> yy) if sg else z3.LShR(x, yy))
        if o in ("/", "%"):
            nz = y != 0
            self.panic_check(st, nz, "division by zero", pos)
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                "&^": lambda: x & ~y, "/": lambda: (x / y) if sg else z3.UDiv(x, y), "%": lambda: z3.SRem(x, y) if sg else z3.URem(x, y),
                "<": lambda: (x < y) if sg else z3.ULT(x, y), "<=": lambda: (x <= y) if sg else z3.ULE(x, y),
                ">": lambda: (x > y) if sg else z3.UGT(x, y), ">=": lambda: (x >= y) if sg else z3.UGE(x, y)}[o]()

    def convert(self, st, x, ft, tt):
        w = self.w
        if ft.k == "tparam" or tt.k == "tparam":
            raise Unsupported("conversion of a type parameter")
        fi, ti = w.intinfo(ft), w.intinfo(tt)
        if fi and ti:
            if z3.is_bv(x):
                a, b = fi[1], ti[1]
                if a == b:
                    return x
                if b < a:
                    return z3.Extract(b - 1, 0, x)
                return z3.SignExt(b - a, x) if fi[0] else z3.ZeroExt(b - a, x)
            return self.wrap(st, tt, x)
        if fi and w.is_float(tt):
            return z3.ToReal(x)
        if w.is_float(ft) and ti:
            tr = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            lo, hi = irange(ti)
            r = self.fresh("f2i", I)
            self.assume(st, And(r >= lo, r <= hi, Implies(And(tr >= lo, tr <= hi), r == tr)))
            return r
        if w.is_float(ft) and w.is_float(tt):
            return x
        fu, tu = w.under(ft), w.under(tt)
        if w.is_string(tt) and fu.k == "slice":
            return self.bytes2str(st, x, self.elem(ft))
        if w.is_string(ft) and tu.k == "slice":
            return self.str2bytes(st, x, self.elem(tt))
        if w.is_string(ft) and w.is_string(tt):
            return x
        if w.is_string(tt) and fi:
            self.rune_axioms()
            return self.uf("rune2str", I, STR)(x)
        if fu.k in ("ptr", "basic", "chan", "func") and tu.k in ("ptr", "basic", "chan", "func"):
            return x
        raise Unsupported("conversion %s -> %s" % (ft.key, tt.key))

    # strings and byte slices: bytes(s) is a fresh array with the bytes of s
    def bytes2str(self, st, x, ety):
        nm = "runes2str" if self.w.intinfo(ety)[1] == 32 else "bytes2str"
        f = self.uf(nm, z3.ArraySort(I, I), I, I, STR)
        r = f(self.elems(st, ety, self.sg(x, 0)), self.sg(x, 1) if self.symoff(x) else z3.IntVal(0), self.sg(x, 2))
        self.str_axioms()
        if nm == "runes2str":
            self.rune_axioms()
        return r

    def str2bytes(self, st, x, ety):
        self.str_axioms()
        b = self.newref(st, "sb")
        rune = self.w.intinfo(ety)[1] == 32
        arr = self.uf("str2runes" if rune else "str2bytes", STR, z3.ArraySort(I, I))(x)
        self.elemsset(st, ety, b, arr)
        n = self.uf("runecount", STR, I)(x) if rune else self.slen(x)
        c = self.fresh("cap", I)
        self.assume(st, And(c >= n, c <= MAXI, n >= 0))
        if rune:
            self.rune_axioms()
            self.assume(st, And(n <= self.slen(x), Implies(self.slen(x) > 0, n > 0)))
        return mkslice(b, z3.IntVal(0), n, c)

    def sid(self, v):
        """the object behind a pointer or interface value"""
        if v.sort() == ANY:
            f = self.uf("anyref", ANY, I)
            if "anyref" not in self.bgseen:
                self.bgseen.add("anyref")
                x = z3.Const("x", ANY)
                self.bg.append(z3.ForAll([x], Implies(x != self.nilany(), f(x) > 0), patterns=[f(x)]))
            if z3.is_app(v) and v.num_args() == 1 and v.decl().name().startswith("box_") and v.arg(0).sort() == I:
                return v.arg(0)
            return f(v)
        return v

    def gmkey(self, n):
        gt, pkg = self.sp.ghostmaps[n]
        t = self.sty(gt, pkg, {})
        return ("G", "stream", n), z3.ArraySort(I, self.sort(t)), t

    def sltf(self):
        """the (strict, total) lexicographic order of strings"""
        f = self.uf("slt", STR, STR, B)
        if "slt" not in self.bgseen:
            self.bgseen.add("slt")
            a, b, c = (z3.Const(n, STR) for n in "abc")
            self.bg.append(z3.ForAll([a, b], And(Implies(f(a, b), Not(f(b, a))), Implies(And(Not(f(a, b)), Not(f(b, a))), a == b)), patterns=[f(a, b)]))
            self.bg.append(z3.ForAll([a, b, c], Implies(And(f(a, b), f(b, c)), f(a, c)), patterns=[z3.MultiPattern(f(a, b), f(b, c))]))
        return f

    def str_axioms(self):
        if "strax" in self.bgseen:
            return
        self.bgseen.add("strax")
        AI = z3.ArraySort(I, I)
        b2s = self.uf("bytes2str", AI, I, I, STR)
        s2b = self.uf("str2bytes", STR, AI)
        sat = self.uf("sat", STR, I, I)
        s = z3.Const("s", STR)
        a = z3.Const("a", AI)
        o, n, i = z3.Ints("o n i")
        self.slen(s)
        L = self.uf("slen", STR, I)
        self.bg.append(z3.ForAll([s, i], Implies(And(i >= 0, i < L(s)), And(s2b(s)[i] == sat(s, i), sat(s, i) >= 0, sat(s, i) <= 255)), patterns=[s2b(s)[i]]))
        self.bg.append(z3.ForAll([s, i], Implies(And(i >= 0, i < L(s)), And(sat(s, i) >= 0, sat(s, i) <= 255)), patterns=[sat(s, i)]))
        self.bg.append(z3.ForAll([a, o, n], Implies(And(n >= 0, n <= MAXI), L(b2s(a, o, n)) == n), patterns=[b2s(a, o, n)]))
        self.bg.append(z3.ForAll([a, o, n, i], Implies(And(i >= 0, i < n, n <= MAXI, a[o + i] >= 0, a[o + i] <= 255), sat(b2s(a, o, n), i) == a[o + i]), patterns=[sat(b2s(a, o, n), i)]))
        self.bg.append(z3.ForAll([s], b2s(s2b(s), 0, L(s)) == s, patterns=[s2b(s)]))
        # runes
        r2s = self.uf("runes2str", AI, I, I, STR)
        s2r = self.uf("str2runes", STR, AI)
        rc = self.uf("runecount", STR, I)
        self.bg.append(z3.ForAll([s], And(rc(s) >= 0, rc(s) <= L(s), Implies(L(s) > 0, rc(s) > 0)), patterns=[rc(s)]))

    def rune_axioms(self):
        """text as characters: a string made from n characters has n, and those; valid text followed by any string has the
        characters of the one and then of the other"""
        self.str_axioms()
        if "runeax" in self.bgseen:
            return
        self.bgseen.add("runeax")
        AI = z3.ArraySort(I, I)
        r2s = self.uf("runes2str", AI, I, I, STR)
        s2r = self.uf("str2runes", STR, AI)
        rc = self.uf("runecount", STR, I)
        ok = self.uf("utf8", STR, B)
        cat = self.uf("scat", STR, STR, STR)
        self.scat(z3.Const("sx", STR), z3.Const("sx", STR))
        L = self.uf("slen", STR, I)
        s, t = z3.Consts("s t", STR)
        a = z3.Const("a", AI)
        o, n, i = z3.Ints("o n i")
        valid = lambda r: And(r >= 0, r <= 0x10FFFF, Not(And(r >= 0xD800, r <= 0xDFFF)))
        self.bg.append(z3.ForAll([a, o, n], Implies(And(n >= 0, n <= MAXI), And(rc(r2s(a, o, n)) == n, ok(r2s(a, o, n)))), patterns=[r2s(a, o, n)]))
        x = s2r(r2s(a, o, n))[i]
        self.bg.append(z3.ForAll([a, o, n, i], Implies(And(i >= 0, i < n, n <= MAXI), x == ITE(valid(a[o + i]), a[o + i], z3.IntVal(0xFFFD))), patterns=[x]))
        self.bg.append(z3.ForAll([s, i], Implies(And(i >= 0, i < rc(s)), valid(s2r(s)[i])), patterns=[s2r(s)[i]]))
        c = cat(s, t)
        self.bg.append(z3.ForAll([s, t], Implies(And(ok(s), L(s) + L(t) <= MAXI), And(rc(c) == rc(s) + rc(t), ok(c) == ok(t))), patterns=[c]))
        self.bg.append(z3.ForAll([s, t, i], Implies(And(ok(s), L(s) + L(t) <= MAXI, i >= 0, i < rc(s) + rc(t)), s2r(c)[i] == ITE(i < rc(s), s2r(s)[i], s2r(t)[i - rc(s)])), patterns=[s2r(c)[i]]))
        u = self.uf("rune2str", I, STR)
        self.bg.append(z3.ForAll([i], And(ok(u(i)), rc(u(i)) == 1, s2r(u(i))[0] == ITE(valid(i), i, z3.IntVal(0xFFFD))), patterns=[u(i)]))
        for b in list(self.strs):
            self.runeconst(b)

    # ------------------------------------------------------------- panics
    def panic_check(self, st, ok, what, pos):
        """Implicit run-time panic unless ok."""
        ok = z3.simplify(ok) if not hasquant(ok) else ok
        if z3.is_true(ok):
            return
        key = (ok.get_id())
        self.oblige(st, ok, "no-panic[%s]" % what, "panic", pos)

    def nonnil(self, st, r, pos, what="nil dereference"):
        if r.get_id() in st.nn:
            return
        st.nn.add(r.get_id())
        if z3.is_app(r) and r.decl().name().startswith("faddr_"):
            return
        self.panic_check(st, r != 0, what, pos)

    # ------------------------------------------------------------- addresses
    def fieldaddr(self, fr, p, x, i, pt, rt, pos):
        """&x.f"""
        sty = self.elem(pt)
        u = self.w.under(sty)
        if u.k != "struct":
            # opaque external struct: field by index
            self.nonnil(p.st, x, pos)
            return Addr("fld#", (sty.key, i), x, self.elem(rt))
        n, ft = self.w.fields(sty)[i]
        if isinstance(x, Addr):
            if x.kind == "cell" or x.kind in ("elem", "ref", "glob", "fld"):
                return Addr(x.kind, x.a, x.b, ft, x.path + (("f", i),))
            raise Unsupported("field of " + x.kind)
        self.nonnil(p.st, x, pos)
        if self.hstruct(ft):
            return self.faddr(sty, n, x)
        return Addr("fld", sty, (n, x), ft)

    # ------------------------------------------------------------- running a function
    def run(self, f, args, frees, st, tenv, depth, outer=None):
        if depth > 12:
            raise Unsupported("inlining too deep at " + f["name"])
        fr = Fn(self, f, tenv)
        fr.args, fr.frees, fr.depth = args, frees, depth
        fr.entry = st.clone()
        fr.contract = self.sp.contracts.get(f["name"])
        fr.outer = outer
        p = Path()
        p.st, p.regs, p.cells, p.defers, p.block, p.idx, p.prev, p.loops, p.panicking = st, {}, {}, [], 0, 0, None, {}, None
        return self.exec_from(fr, [p], None)

    def exec_from(self, fr, work, stop):
        """Run paths until return; stop=(header, body): paths reaching the header from inside or leaving the body are
        collected in stop['back'] / stop['exit'] (dry runs)."""
        outs = []
        while work:
            p = work.pop()
            self.npaths += 1
            if self.npaths > self.MAXPATHS:
                raise Unsupported("too many paths")
            r = self.exec_block(fr, p, outs, stop)
            work.extend(r)
        return outs

    def goto(self, fr, p, b, stop):
        """enter block b; returns list of paths"""
        p.prev, p.block, p.idx = p.block, b, 0
        lp = fr.loops.get(b)
        # leaving loops
        for h in list(p.loops):
            if b not in fr.loops[h]["body"]:
                del p.loops[h]
        if stop is not None and b == stop["h"]:
            stop["back"].append(p)
            return []
        if stop is not None and b not in stop["body"]:
            stop["exit"].append(p)
            return []
        if lp is None:
            return [p]
        if b in p.loops:
            self.loop_back(fr, p, b, lp)
            return []
        return self.loop_enter(fr, p, b, lp)

    # ------------------------------------------------------------- loops
    def loop_cells(self, fr, lp):
        out = set()
        for b in lp["body"]:
            for ins in fr.blocks[b]["ins"]:
                if ins["op"] == "Store":
                    r = self.root_alloc(fr, ins["a"])
                    if r:
                        out.add(r)
                elif ins["op"] == "Alloc":
                    out.discard(ins["reg"])
                elif ins["op"] == "Next":
                    out.add(("iter", ins["x"]["n"]))
        return out

    def root_alloc(self, fr, v):
        while v["k"] == "reg":
            ins = self.defof(fr, v["n"])
            if ins is None:
                return None
            if ins["op"] == "Alloc":
                return ins["reg"]
            if ins["op"] in ("FieldAddr", "IndexAddr"):
                v = ins["x"]
                continue
            return None
        return None

    def defof(self, fr, reg):
        d = fr.f.get("_defs")
        if d is None:
            d = {}
            for b in fr.f["blocks"]:
                for i in b["ins"]:
                    if "reg" in i:
                        d[i["reg"]] = i
            fr.f["_defs"] = d
        return d.get(reg)

    def cellty(self, fr, reg):
        if isinstance(reg, tuple):
            return None
        return self.elem(self.T(fr, self.defof(fr, reg)["t"]))

    def loop_spec(self, fr, lp):
        c = fr.contract
        if c is not None and fr.depth == 0 or c is not None:
            if lp["ord"] < len(c.loops):
                return c.loops[lp["ord"]], c
        # inlined helper (or restructured function): take the invariants of the function being verified
        t = self.topc
        if t is not None and c is None and t.loops:
            nown = len(self.natural_loops(self.w.funcs[t.realname])) if t.realname in self.w.funcs else 0
            k = lp["ord"] + nown
            if k < len(t.loops):
                return t.loops[k], t
        return None, c

    def loop_enter(self, fr, p, h, lp):
        cells = [c for c in self.loop_cells(fr, lp) if c in p.cells]
        spec, owner = self.loop_spec(fr, lp)
        # 1. which heap locations can the body write?  (dry runs to a fixpoint)
        self.flushimm(p.st)
        p.loops[h] = {}
        keys = {}
        saved_ctr = self.ctr
        ro = self.range_info(fr, p, h, lp)
        pre = p.clone()
        while True:
            q = pre.clone()
            q.loops[h] = {"dry": True}
            start = self.ctr
            self.havoc_cells(fr, q, cells, lp)
            for key in keys:
                q.st.heap[key] = self.fresh("dry_" + str(key[0]), self.hsort(key))
            q.st.alloc = q_alloc = self.fresh("alloc", I)
            self.assume(q.st, q.st.alloc >= pre.st.alloc)
            for inv in (spec.invs if spec else []):
                pass
            log = []
            ow, self.wlog = self.wlog, log
            self.dry += 1
            ob = self.obs
            self.obs = []
            stop = {"h": h, "body": lp["body"], "back": [], "exit": []}
            try:
                rs = self.exec_from(fr, [q], stop)
            finally:
                self.dry -= 1
                self.wlog = ow
                self.obs = ob
            allocates = any(not b.st.alloc.eq(q_alloc) for b in stop["back"])
            new = {}
            for key, ref in log:
                e = new.setdefault(key, {"refs": [], "fresh": False, "unstable": False})
                if ref is None:
                    e["unstable"] = True
                    continue
                cs = consts_of(ref)
                if all(self.serial.get(c, 0) <= start for c in cs):
                    if not any(r.eq(ref) for r in e["refs"]):
                        e["refs"].append(ref)
                elif z3.is_const(ref) and str(ref) in self.freshrefs:
                    e["fresh"] = True
                else:
                    e["unstable"] = True
            grown = [k for k in new if k not in keys]
            for k in new:
                keys[k] = new[k]
            if not grown:
                break
        # 2. invariant holds on entry
        st = p.st
        entry = p.clone()
        if spec:
            self.check_invs(fr, p, spec, owner, "entry", lp, entry)
        for nm, g in self.auto_invs(fr, p, lp, ro, cells):
            self.oblige(st, g, "%s/loop%d/auto-entry[%s]" % (fr.name, lp["ord"], nm), "inv")
        # 3. havoc
        alloc0 = st.alloc
        pre_heap = dict(st.heap)
        self.havoc_cells(fr, p, cells, lp)
        pass
        if allocates:
            na = self.fresh("alloc", I)
            self.assume(st, na >= alloc0)
            st.alloc = na
        info = {"cells": cells, "keys": keys, "alloc0": alloc0, "pre": entry, "frames": [], "dec": None, "spec": spec, "owner": owner, "ro": ro, "nacq": st.snap.get("nacq", 0), "locks": set(st.locks)}
        for key, e in keys.items():
            s = self.hsort(key)
            old = pre_heap.get(key)
            if old is None:
                old = self.hinit(key, s)
            if key[0] in ("GL", "GG"):
                st.heap[key] = self.fresh("gl_" + key[1], s)
                if self.wlog is not None:
                    self.wlog.append((key, None))
                continue
            if key in self.guarded_keys:
                e["unstable"] = True
            if e["unstable"] or e["fresh"]:
                if e["unstable"] and not self.dry:
                    sk = self.fresh("sk_r", I)
                    if pre_heap.get(key) is not None and self.top_entry.heap.get(key) is not pre_heap.get(key):
                        self.oblige(st, self.frame_goal(key, sk, pre_heap[key], self.top_entry, st), "%s/loop%d/frame-entry[%s]" % (fr.name, lp["ord"], key[1]), "frame")
                new = self.fresh("h_" + str(key[0]), s)
                st.heap[key] = new
                r = self.fresh("q_r", I)
                if e["unstable"]:
                    g = self.frame_goal(key, r, new, self.top_entry, st)
                    # the frame of the verified function is an automatic loop invariant
                    self.assume(st, z3.ForAll([r], g, patterns=[z3.Select(new, r)]))
                    info["frames"].append(("top", key))
                    if self.wlog is not None:
                        self.wlog.append((key, None))
                else:
                    cond = And(self.isalloc(r, alloc0), *[r != x for x in e["refs"]])
                    self.assume(st, z3.ForAll([r], Implies(cond, z3.Select(new, r) == sel(old, r)), patterns=[z3.Select(new, r)]))
                    if self.wlog is not None:
                        for x in e["refs"]:
                            self.wlog.append((key, x))
                        self.wlog.append((key, self.a_fresh(st)))
            else:
                a = old
                for x in e["refs"]:
                    nv = self.fresh("hv_" + str(key[0]), s.range())
                    a = z3.Store(a, x, nv)
                    if self.wlog is not None:
                        self.wlog.append((key, x))
                st.heap[key] = a
        for e in keys:
            if e[0] == "ML":
                pass
        # 4. assume the invariant
        for nm, g in self.auto_invs(fr, p, lp, ro, cells):
            self.assume(st, g)
        for c in cells:
            t = self.cellty(fr, c)
            if t is not None and not isinstance(p.cells[c], (Addr, Clo)):
                self.fact(st, t, p.cells[c])
        if spec:
            C = self.loopctx(fr, p, owner, lp, entry)
            for inv in spec.invs:
                self.assume(st, self.evb(inv.e, C))
                for sd in C.side:
                    self.assume(st, sd)
                C.side.clear()
            if spec.decreases is not None:
                info["dec"] = self.ev(spec.decreases, C)[0]
                for sd in C.side:
                    self.assume(st, sd)
        # extra wlog for an enclosing dry run: cells are handled syntactically
        p.loops[h] = info
        return [p]

    def a_fresh(self, st):
        r = self.fresh("anyfresh", I)
        self.freshrefs.add(str(r))
        return r

    def havoc_cells(self, fr, p, cells, lp):
        for c in cells:
            if isinstance(c, tuple):
                it = p.regs.get(c[1])
                if it is None:
                    continue
                if it.isstr:
                    p.cells[c] = self.fresh("spos", I)
                else:
                    kt = self.mkeys(it.ty)[1]
                    p.cells[c] = self.fresh("visited", z3.ArraySort(self.sort(kt), B))
                continue
            t = self.cellty(fr, c)
            nm = self.defof(fr, c)["name"] or "tmp"
            p.cells[c] = self.fresh("l_" + nm, self.sort(t))
            self.fact(p.st, t, p.cells[c], deep=True)

    def range_info(self, fr, p, h, lp):
        """rangeindex loops: cell and bound term"""
        for ins in fr.blocks[h]["ins"]:
            if ins["op"] == "UnOp" and ins["o"] == "*" and ins["x"]["k"] == "reg":
                d = self.defof(fr, ins["x"]["n"])
                if d and d["op"] == "Alloc" and d["name"] == "rangeindex":
                    # bound: the compare in the header
                    for j in fr.blocks[h]["ins"]:
                        if j["op"] == "BinOp" and j["o"] == "<":
                            y = j["y"]
                            if y["k"] == "const":
                                return ("ri", d["reg"], self.const(self.T(fr, y["t"]), y))
                            if y["k"] == "reg" and y["n"] in p.regs:
                                return ("ri", d["reg"], p.regs[y["n"]])
                    return ("ri", d["reg"], None)
        return None

    def auto_invs(self, fr, p, lp, ro, cells):
        out = []
        if ro:
            v = p.cells[ro[1]]
            if z3.is_bv(v):
                return out
            out.append(("range index", v >= -1))
            if ro[2] is not None:
                out.append(("range bound", v < ITE(ro[2] > 0, ro[2], z3.IntVal(0))))
        for c in cells:
            if isinstance(c, tuple):
                it = p.regs.get(c[1])
                if it is not None and it.isstr:
                    out.append(("string position", And(p.cells[c] >= 0, p.cells[c] <= self.slen(it.m))))
                elif it is not None and not lp.get("mapup"):
                    k = z3.Const("vk", self.sort(self.mkeys(it.ty)[1]))
                    out.append(("visited", z3.ForAll([k], Implies(z3.Select(p.cells[c], k), sel(it.dom0, k)), patterns=[z3.Select(p.cells[c], k)])))
        return out

    def loopctx(self, fr, p, owner, lp, entry):
        env = {}
        names = self.local_names(fr, p, lp)

        def lookup(n, C):
            if n == "idx":
                h = next((h for h, l in fr.loops.items() if l is lp), None)
                own = self.range_info(fr, p, h, lp) if h is not None else None
                if own and own[1] in p.cells:
                    return norm(C_cell(own[1]) + 1), T_MATH
                for c in names.get("rangeindex", []):
                    if c in self.loop_cells(fr, lp):
                        return norm(C_cell(c) + 1), T_MATH
                ci = self.counter_cell(fr, lp)
                if ci is not None and ci in p.cells:
                    return p.cells[ci], T_MATH
                raise SL.SpecError("no loop index")
            if n in ("visited", "dom0", "nvisited"):
                its = [c for c in p.cells if isinstance(c, tuple) and c[0] == "iter"]
                mine = [c for c in its if c in self.loop_cells(fr, lp)] or its[-1:]
                if not mine:
                    raise SL.SpecError("no map iteration")
                it = p.regs[mine[0][1]]
                if n == "nvisited":
                    return self.vcard(p.cells[mine[0]]), T_MATH
                return (p.cells[mine[0]] if n == "visited" else it.dom0), self.sty_fn(self.mkeys(it.ty)[1], T_BOOL)
            if n == "spos":
                for c in p.cells:
                    if isinstance(c, tuple) and c[0] == "iter" and c in self.loop_cells(fr, lp):
                        return p.cells[c], T_MATH
            cs = names.get(n)
            if cs:
                c = cs[-1]
                t = self.cellty(fr, c)
                v = p.cells[c]
                if isinstance(v, Addr) and v.kind == "ref":
                    return self.load(p, v), t
                return self.term(v) if isinstance(v, Clo) else v, t
            # captured / heap-allocated locals
            for reg, ins in fr.f["_defs"].items():
                if ins["op"] == "Alloc" and ins.get("name") == n and reg in p.regs and isinstance(p.regs[reg], Addr):
                    a = p.regs[reg]
                    return self.load(p, a), self.elem(self.T(fr, ins["t"]))
            for i, fv in enumerate(fr.f["free"]):
                if fv["name"] == n:
                    a = fr.frees[i]
                    if isinstance(a, Addr):
                        return self.load(p, a), self.elem(self.T(fr, fv["t"]))
                    return a, self.T(fr, fv["t"])
            if n in self.top_env:
                v, t = self.top_env[n]
                return v, t
            return None

        def C_cell(c):
            return p.cells[c]
        self.defof(fr, "")
        env = {}
        # parameters of the contract owner by position when this frame is the owner's
        oldenv = {}
        if owner is not None and fr.contract is owner:
            for i, pn in enumerate(owner.params):
                pd = fr.f["params"][i] if i < len(fr.f["params"]) else None
                if pd is None:
                    continue
                t = self.T(fr, pd["t"])
                oldenv[pn] = (fr.args[i], t)
                # current value: the parameter's cell, found by position
                c = self.param_cell(fr, i)
                env[pn] = (p.cells[c] if c in p.cells else fr.args[i], t) if c is not None else (fr.args[i], t)
                if c is not None and c not in p.cells and isinstance(p.regs.get(c), Addr):
                    env[pn] = (self.load(p, p.regs[c]), t)
                if isinstance(env[pn][0], (Addr,)):
                    a = env[pn][0]
                    env[pn] = (self.load(p, a), t) if a.kind == "ref" else (env[pn][0], t)
                if isinstance(env[pn][0], Clo):
                    env[pn] = (env[pn][0].term, t)
            for k, v in self.ghost_env.items():
                env.setdefault(k, v)
        else:
            for k, v in self.top_env.items():
                oldenv[k] = v
        old = fr.entry if fr.contract is owner else self.top_entry
        if owner is not None and owner is self.topc and "atomic" in owner.flags and p.st.snap.get("acq") is not None:
            old = p.st.snap["acq"]
        C = Ctx(self, env, p.st, old, owner.pkg if owner else "", fr.tenv, lookup, oldenv, p.st.snap.get("acq"))
        C.entry = entry
        if owner:
            for n, e in owner.lets:
                C.env[n] = (lambda CC, e=e: self.ev(e, CC)), None
                C.env[n] = ((lambda CC, e=e: self.ev(e, CC)), None)
        # value at loop entry: pre(e)
        return C

    def param_cell(self, fr, i):
        for ins in fr.blocks[0]["ins"]:
            if ins["op"] == "Store" and ins["x"]["k"] == "param" and ins["x"]["i"] == i and ins["a"]["k"] == "reg":
                d = self.defof(fr, ins["a"]["n"])
                if d["op"] == "Alloc":
                    return d["reg"]
        return None

    def counter_cell(self, fr, lp):
        """the cell incremented by one in the loop and initialised with 0 outside"""
        for c in sorted(self.loop_cells(fr, lp), key=str):
            if isinstance(c, tuple):
                continue
            st_in = []
            for b in lp["body"]:
                for ins in fr.blocks[b]["ins"]:
                    if ins["op"] == "Store" and ins["a"].get("n") == c:
                        st_in.append(ins["x"])
            if len(st_in) == 1 and st_in[0]["k"] == "reg":
                d = self.defof(fr, st_in[0]["n"])
                if d["op"] == "BinOp" and d["o"] in ("+", "-") and d["y"].get("ck") == "int" and d["x"]["k"] == "reg":
                    u = self.defof(fr, d["x"]["n"])
                    if u["op"] == "UnOp" and u["x"].get("n") == c:
                        return c
        return None

    def local_names(self, fr, p, lp):
        """source name -> cells alive here, best candidate last"""
        names = {}
        self.defof(fr, "")
        mod = self.loop_cells(fr, lp) if lp else set()
        for reg in p.cells:
            if isinstance(reg, tuple):
                continue
            names.setdefault(self.defof(fr, reg)["name"], []).append(reg)

        def rank(reg):
            outside = not (lp and any(i.get("reg") == reg and i["op"] == "Alloc" for b in lp["body"] for i in fr.blocks[b]["ins"]))
            return (outside, reg in mod, int(reg[1:]))
        for n in names:
            names[n].sort(key=rank)
        return names

    def check_invs(self, fr, p, spec, owner, when, lp, entry):
        C = self.loopctx(fr, p, owner, lp, entry)
        for i, inv in enumerate(spec.invs):
            g = self.evb(inv.e, C)
            for sd in C.side:
                self.assume(p.st, sd)
            C.side.clear()
            self.oblige(p.st, g, "%s/loop%d/invariant-%s[%s]" % (fr.name, lp["ord"], when, inv.label or i), "inv")

    def loop_back(self, fr, p, h, lp):
        info = p.loops[h]
        if info.get("dry"):
            return
        self.flushimm(p.st)
        if p.st.snap.get("nacq", 0) > info.get("nacq", 0):
            if p.st.locks:
                raise Unsupported("a loop inside a critical section takes the lock again")
            self.stutter(p.st)
        if set(p.st.locks) != info["locks"]:
            self.oblige(p.st, z3.BoolVal(False), "%s/loop%d/same-locks-held-after-each-iteration" % (fr.name, lp["ord"]), "lock")
        if info["spec"]:
            self.check_invs(fr, p, info["spec"], info["owner"], "preserved", lp, info["pre"])
            if info["dec"] is not None:
                C = self.loopctx(fr, p, info["owner"], lp, info["pre"])
                d = self.ev(info["spec"].decreases, C)[0]
                self.oblige(p.st, And(info["dec"] >= 0, d < info["dec"]), "%s/loop%d/decreases" % (fr.name, lp["ord"]), "inv")
        for nm, g in self.auto_invs(fr, p, lp, info["ro"], info["cells"]):
            self.oblige(p.st, g, "%s/loop%d/auto-preserved[%s]" % (fr.name, lp["ord"], nm), "inv")
        for k, key in info["frames"]:
            r = self.fresh("sk_r", I)
            cur = p.st.heap[key]
            self.oblige(p.st, self.frame_goal(key, r, cur, self.top_entry, p.st), "%s/loop%d/frame[%s]" % (fr.name, lp["ord"], ".".join(str(x) for x in key)), "frame")

    # ------------------------------------------------------------- frames
    def heldby_key(self, key):
        return key[0] == "F" and any(v[4] and key[1:] == tuple(k.rsplit(".", 1)) for k, v in self.sp.volatile.items())

    def frame_goal(self, key, r, cur, entry, st):
        """cur[r] unchanged from the function's entry, unless r is modifiable or freshly allocated"""
        s = self.hsort(key)
        old = entry.heap.get(key)
        if old is None:
            old = self.hinit(key, s)
        mods = self.top_mods.get(key, [])
        conds = []
        if key in self.guarded_keys and not (self.heldby_key(key) and self.topc is not None and "atomic" not in self.topc.flags):
            acq = st.snap.get("acq")
            if not st.locks or acq is None or self.topc is None or "atomic" not in self.topc.flags:
                return z3.BoolVal(True)
            # inside the critical section: unchanged since the acquisition
            old = acq.heap.get(key)
            if old is None:
                old = self.hinit(key, s)
            mods = mods + st.snap["gmods"].get(key, [])
        for m in mods:
            if m[0] == "ref":
                conds.append(r == m[1])
            elif m[0] == "all":
                return z3.BoolVal(True)
            elif m[0] == "pred":
                conds.append(m[1](r))
        g = z3.Select(cur, r) == z3.Select(old, r)
        return Or(Not(self.isalloc(r, entry.alloc)), *conds, g)

    def eval_mods(self, items, C, st):
        """modifies items -> {heapkey: [("ref",term)|("all",)|("pred",fn)]}"""
        out = {}

        def addm(key, sort, m):
            self.hget(st, key, sort)
            out.setdefault(key, []).append(m)
        for it in items:
            it = it.strip()
            if it.startswith("all "):
                # all Type.field [where x :: cond]
                body = it[4:]
                cond = None
                if " where " in body:
                    body, cond = body.split(" where ", 1)
                tn, fname = body.strip().rsplit(".", 1)
                t = self.sty(SL.P(tn).type(), C.pkg, C.tenv)
                gf = self.sp.ghostfields.get((t.d.get("name"), fname))
                if gf:
                    tenv = {pp: self.w.ty_(a) for pp, a in zip(self.w.decl[t.d["name"]][0], t.d["targs"])} if t.d.get("targs") else {}
                    gt = self.sty(gf[0], gf[1], tenv)
                    key, s = ("G", t.key, fname), z3.ArraySort(I, self.sort(gt))
                else:
                    key, s = self.fkey(t, fname), z3.ArraySort(I, self.sort(self.fieldty(t, fname)))
                if cond:
                    v, ce = cond.split("::", 1)
                    ast = SL.parse_expr(ce)
                    pt = self.w.ptr(t)
                    # bound at entry of the callee
                    snap = C.copy()
                    if snap.st is not None:
                        snap.st = snap.st.clone()
                    addm(key, s, ("pred", lambda r, v=v.strip(), ast=ast, pt=pt, snap=snap: self.evb(ast, snap.bind({v: (r, pt)}))))
                else:
                    addm(key, s, ("all",))
                continue
            if it.startswith("global "):
                g = it[7:].strip()
                key = ("GL", g)
                out.setdefault(key, []).append(("all",))
                continue
            if it.startswith("ghost "):
                g = it[6:].strip()
                gt = self.sp.ghostglobals[g]
                addm(("GG", g), self.sort(self.sty(gt[0], gt[1], {})), ("all",))
                continue
            if it.endswith("[*]"):
                o, ot = self.ev(SL.parse_expr(it[:-3]), C)
                u = self.w.under(ot)
                if u.k == "slice":
                    et = self.elem(ot)
                    addm(self.ekey(et), z3.ArraySort(I, z3.ArraySort(I, self.sort(et))), ("ref", self.sg(o, 0)))
                elif u.k == "map":
                    k, kt, vt = self.mkeys(ot)
                    addm(("MD", k), z3.ArraySort(I, z3.ArraySort(self.sort(kt), B)), ("ref", o))
                    addm(("MV", k), z3.ArraySort(I, z3.ArraySort(self.sort(kt), self.sort(vt))), ("ref", o))
                    addm(("ML", k), z3.ArraySort(I, I), ("ref", o))
                else:
                    raise SL.SpecError("modifies " + it)
                continue
            if it.startswith("*"):
                o, ot = self.ev(SL.parse_expr(it[1:]), C)
                et = self.elem(ot)
                addm(("C", et.key), z3.ArraySort(I, self.sort(et)), ("ref", o))
                continue
            e = SL.parse_expr(it)
            if e[0] == "call" and e[1][1] in self.sp.ghostmaps:
                key, s, _ = self.gmkey(e[1][1])
                addm(key, s, ("ref", self.sid(self.ev(e[2][0], C)[0])))
                continue
            if e[0] != "sel":
                raise SL.SpecError("modifies " + it)
            o, ot = self.ev(e[1], C)
            t = self.elem(ot)
            f = e[2]
            gf = self.sp.ghostfields.get((t.d.get("name"), f))
            if gf:
                tenv = {pp: self.w.ty_(a) for pp, a in zip(self.w.decl[t.d["name"]][0], t.d["targs"])} if t.d.get("targs") else {}
                gt = self.sty(gf[0], gf[1], tenv)
                addm(("G", t.key, f), z3.ArraySort(I, self.sort(gt)), ("ref", o))
            else:
                ft = self.fieldty(t, f)
                if self.hstruct(ft):
                    for n2, ft2 in self.w.fields(ft):
                        addm(self.fkey(ft, n2), z3.ArraySort(I, self.sort(ft2)), ("ref", self.faddr(t, f, o)))
                else:
                    addm(self.fkey(t, f), z3.ArraySort(I, self.sort(ft)), ("ref", o))
        return out

    def alloc_keys(self, items, C, st):
        """allocates clause: heap keys in which fresh objects may have been initialised"""
        out = []
        for it in items:
            if it in self.sp.ghostmaps:
                k, s, _ = self.gmkey(it)
                self._hs[k] = s
                out.append(k)
                continue
            t = self.sty(SL.P(it).type(), C.pkg, C.tenv)
            self.alloc_keys_of(t, out)
        return out

    def alloc_keys_of(self, t, out):
        if t.k == "slice":
            et = self.elem(t)
            k = self.ekey(et)
            self._hs[k] = z3.ArraySort(I, z3.ArraySort(I, self.sort(et)))
            out.append(k)
        elif self.w.under(t).k == "map":
            k, kt, vt = self.mkeys(t)
            for nm, s in (("MD", z3.ArraySort(I, z3.ArraySort(self.sort(kt), B))), ("MV", z3.ArraySort(I, z3.ArraySort(self.sort(kt), self.sort(vt)))), ("ML", z3.ArraySort(I, I))):
                self._hs[(nm, k)] = s
                out.append((nm, k))
        elif self.hstruct(t):
            for n, ft in self.w.fields(t):
                if self.hstruct(ft):
                    self.alloc_keys_of(ft, out)
                elif not self.immutable(t, n):
                    k = self.fkey(t, n)
                    self._hs[k] = z3.ArraySort(I, self.sort(ft))
                    out.append(k)
        else:
            k = ("C", t.key)
            self._hs[k] = z3.ArraySort(I, self.sort(t))
            out.append(k)
        for (tn, g), (gt, pkg) in self.sp.ghostfields.items():
            if tn == t.d.get("name"):
                tenv = {pp: self.w.ty_(a) for pp, a in zip(self.w.decl[tn][0], t.d["targs"])} if t.d.get("targs") else {}
                s = self.sty(gt, pkg, tenv)
                k = ("G", t.key, g)
                self._hs[k] = z3.ArraySort(I, self.sort(s))
                out.append(k)

    def havoc_mods(self, st, mods, akeys, alloc0):
        for key in set(list(mods) + list(akeys)):
            s = self.hsort(key) if key[0] != "GL" else None
            ms = mods.get(key, [])
            if key[0] in ("GL", "GG"):
                if key[0] == "GL":
                    s = self.sort(self.elem(self.w.ty_(self.w.globals[key[1]]["t"])))
                st.heap[key] = self.fresh("gl_" + key[1], s)
                if self.wlog is not None:
                    self.wlog.append((key, None))
                continue
            old = self.hget(st, key, s)
            if key not in akeys and all(m[0] == "ref" for m in ms):
                a = old
                for m in ms:
                    cv = self.fresh("cv", s.range())
                    if s.range() == SLICE and key[0] == "F":
                        self.assume(st, And(self.sg(cv, 0) >= 0, self.sg(cv, 1) == 0, self.sg(cv, 2) >= 0, self.sg(cv, 2) <= self.sg(cv, 3)))
                    a = sto(a, m[1], cv)
                    if self.wlog is not None:
                        self.wlog.append((key, m[1]))
                st.heap[key] = a
                continue
            new = self.fresh("ch_" + str(key[0]), s)
            if self.wlog is not None:
                if all(m[0] == "ref" for m in ms):
                    for m in ms:
                        self.wlog.append((key, m[1]))
                    self.wlog.append((key, self.a_fresh(st)))
                else:
                    self.wlog.append((key, None))
            if not any(m[0] == "all" for m in ms):
                r = self.fresh("q_r", I)
                conds = []
                for m in ms:
                    conds.append(Not(r == m[1]) if m[0] == "ref" else Not(m[1](r)))
                if key in akeys:
                    conds.append(self.isalloc(r, alloc0))
                self.assume(st, z3.ForAll([r], Implies(And(*conds), z3.Select(new, r) == sel(old, r)), patterns=[z3.Select(new, r)]))
            st.heap[key] = new

    # ------------------------------------------------------------- contract application
    def mentions(self, c):
        """names occurring in a contract, through its definitions"""
        cache = self.__dict__.setdefault("_mentions", {})
        if c.name in cache:
            return cache[c.name]
        out, defs = set(), set()

        def walk(e):
            if isinstance(e, str):
                out.add(e)
                d = self.sp.defs
                for key in ((c.pkg, e), e):
                    if key in d and key not in defs:
                        defs.add(key)
                        walk(d[key])
            elif isinstance(e, (tuple, list)):
                for x in e:
                    walk(x)
            elif hasattr(e, "e"):
                walk(e.e)
        for cl in list(c.requires) + list(c.ensures):
            walk(cl)
        for n, e in c.lets:
            walk(e)
        cache[c.name] = out
        return out

    def apply_contract(self, fr, p, c, f, args, tenv, pos, ext=None):
        """returns list of (kind, path, vals)"""
        self.called.add(c.name)
        if (p.st.locks or (self.topc is not None and "nonblocking" in self.topc.flags)) and self.mayblock(c.name):
            self.blocks(p, "waiting-call", pos)
        if c.trusted:
            self.trusted_used.add("contract " + c.name)
        st = p.st
        if not c.trusted:
            # (library code neither reads nor writes the fields of an object under construction)
            self.flushimm(st, c)
        env = {}
        argv = []
        for i, pn in enumerate(c.params):
            if i >= len(args):
                raise Unsupported("arity of contract " + c.name)
            t = self.w.subst(self.w.ty_(f["params"][i]["t"]), tenv) if f else ext[0][i]
            v = args[i]
            if isinstance(v, Clo):
                v = v.term
            elif isinstance(v, Addr):
                v = self.term(v)
            env[pn] = (v, t)
        # ghost arguments
        for gn, gt, dflt in c.ghost:
            t = self.sty(gt, c.pkg, tenv)
            ga = None
            for callee, par, ex in (self.topc.ghostargs if self.topc else []):
                if c.name.endswith(callee) and par == gn:
                    TC = self.topctx(p)
                    for kk, vv in env.items():
                        TC.env["callee_" + kk] = vv
                    ga = self.ev(ex, TC)[0]
            if ga is None and dflt is not None:
                C0 = Ctx(self, dict(env), st, st, c.pkg, tenv)
                ga = self.ev(dflt, C0)[0]
            if ga is None:
                if gn in self.ghost_env:
                    ga = self.ghost_env[gn][0]
                else:
                    raise Unsupported("ghost argument %s of %s" % (gn, c.name))
            env[gn] = (ga, t)
        pre = st.clone()
        C = Ctx(self, dict(env), st, st, c.pkg, tenv)
        self.add_lets(c, C)
        for i, r in enumerate(c.requires):
            g = self.evb(r.e, C)
            for sd in C.side:
                self.assume(st, sd)
            C.side.clear()
            self.oblige(st, g, "%s/call %s/requires[%s]" % (self.top, short(c.name), r.label or i), "pre", pos)
        outs = []
        if c.panics is not None:
            pc = self.evb(c.panics.e, C)
            if not z3.is_false(pc):
                if self.feasible(st, pc):
                    q = p.clone()
                    self.assume(q.st, pc)
                    outs.append(("panic", q, None))
                self.assume(st, Not(pc))
        mons, gm = [], {}
        if "atomic" in c.flags and "opaque" not in c.flags:
            # the callee takes the lock of its first argument: others may run before that
            if self.topc is not None and "atomic" in self.topc.flags:
                raise Unsupported("critical section in a callee of an atomic function")
            msty = self.elem(env[c.params[0]][1])
            mref = env[c.params[0]][0]
            mons = self.monitors_of(msty)
            if not mons:
                raise Unsupported("atomic callee without a monitor on its first argument")
            for k, lk in st.locks.items():
                if k[0] == msty.key:
                    self.oblige(st, mref != lk[1], "%s/call %s/lock-not-held" % (self.top, short(c.name)), "lock", pos)
            a0 = st.alloc
            st.alloc = self.fresh("alloc", I)
            self.assume(st, st.alloc >= a0)
            if "now" in self.sp.ghostglobals:
                o = self.hget(st, ("GG", "now"), I)
                nn = self.fresh("now", I)
                self.assume(st, nn >= o)
                self.hset(st, ("GG", "now"), nn)
            for m in mons:
                for k, ms in self.mon_havoc(fr, st, msty, mref, m).items():
                    gm.setdefault(k, []).extend(ms)
                self.mon_assume(fr, st, msty, mref, m)
            self.keep(mref)
            pre = st.clone()
            C = Ctx(self, dict(env), st, st, c.pkg, tenv)
            self.add_lets(c, C)
        mods = self.eval_mods(c.modifies, C, st)
        for k, ms in gm.items():
            mods.setdefault(k, []).extend(ms)
        akeys = self.alloc_keys(c.allocs, C, st)
        alloc0 = st.alloc
        Cold = Ctx(self, dict(env), pre, pre, c.pkg, tenv)
        if akeys or c.allocs_any:
            st.alloc = self.fresh("alloc", I)
            self.assume(st, st.alloc >= alloc0)
        self.havoc_mods(st, mods, akeys, alloc0)
        res, vals = [], []
        rts = [self.w.subst(self.w.ty_(r["t"]), tenv) for r in f["results"]] if f else ext[1]
        env2 = dict(env)
        for i, rt in enumerate(rts):
            lit = [e.e[3][1] for e in c.ensures if i < len(c.results) and not ("opaque" in c.flags) and e.e[:2] == ("bin", "==")
                   and e.e[2] == ("id", c.results[i]) and e.e[3][0] in ("int", "num") and isinstance(e.e[3][1], int)]
            if lit and self.sort(rt) == I:
                v = z3.IntVal(lit[0])      # a result that is always the same number
            else:
                v = self.fresh("r_" + short(c.name), self.sort(rt))
                self.fact(st, rt, v, deep=True)
            vals.append(v)
            if i < len(c.results):
                env2[c.results[i]] = (v, rt)
        if len(rts) == 1:
            env2["result"] = (vals[0], rt)
        C2 = Ctx(self, env2, st, pre, c.pkg, tenv, oldenv=env)
        self.add_lets(c, C2, pre)
        for e in c.ensures:
            if "opaque" in c.flags and not (e.label or "").startswith("visible"):
                continue      # about protected state, which the caller does not see
            g = self.evb(e.e, C2)
            for sd in C2.side:
                self.assume(st, sd)
            C2.side.clear()
            self.assume(st, g)
        for m in mons:
            self.mon_assume(fr, st, msty, mref, m)
        outs.append(("ret", p, vals))
        return outs

    def add_lets(self, c, C, pre=None):
        for n, e in c.lets:
            C.env[n] = ((lambda CC, e=e, b=C: self.ev(e, CC)), None)

    def topctx(self, p):
        """context for ghost arguments: names of the verified function"""
        C = Ctx(self, dict(self.top_env), p.st, self.top_entry, self.topc.pkg, self.top_tenv, None, dict(self.top_env))
        return C

    # ------------------------------------------------------------- verification of one contract
    def verify(self, c, f, tenv):
        self.topc = c
        self.top = c.name
        self.toppkg = c.pkg
        self.closed_keys = []
        if c.pkg in self.sp.interior:
            self.own_axiom()
        c.realname = f["name"]
        st = State()
        st.alloc = z3.Int("alloc0")
        self.serial["alloc0"] = 0
        self.assume(st, st.alloc > 0)
        self.top_tenv = tenv
        self.ghost_env = {}
        args, env = [], {}
        for i, pd in enumerate(f["params"]):
            t = self.w.subst(self.w.ty_(pd["t"]), tenv)
            v = z3.Const("p_%d" % i, self.sort(t))
            self.serial["p_%d" % i] = 0
            self.fact(st, t, v, deep=True)
            if v.sort() == ANY and t.k == "named" and self.w.is_iface(t):
                self.assume(st, self.isalloc(self.sid(v), st.alloc))      # the object behind an interface exists already
            args.append(v)
            if i < len(c.params):
                env[c.params[i]] = (v, t)
        frees = []
        for i, fv in enumerate(f["free"]):
            t = self.w.subst(self.w.ty_(fv["t"]), tenv)
            u = self.w.under(t)
            # captured variables are addresses of non-struct cells, or structs
            et = self.elem(t)
            v = z3.Const("fv_%d" % i, I)
            self.serial["fv_%d" % i] = 0
            self.assume(st, And(v > 0, v < st.alloc))
            if self.hstruct(et):
                frees.append(v)
                env[fv["name"]] = (v, t)
            else:
                a = Addr("ref", v, et, et)
                frees.append(a)
                env[fv["name"]] = ((lambda CC, v=v, et=et: (sel(self.hget(CC.st, ("C", et.key), z3.ArraySort(I, self.sort(et))), v), et)), None)
        for gn, gt, dflt in c.ghost:
            t = self.sty(gt, c.pkg, tenv)
            v = z3.Const("g_" + gn, self.sort(t))
            self.serial["g_" + gn] = 0
            env[gn] = (v, t)
            self.ghost_env[gn] = (v, t)
        C = Ctx(self, env, st, st, c.pkg, tenv)
        self.add_lets(c, C)
        for k in C.env:
            pass
        for r in c.requires:
            self.assume(st, self.evb(r.e, C))
            for sd in C.side:
                self.assume(st, sd)
            C.side.clear()
        for it in c.closed:
            # memory safety: reference fields of allocated objects hold allocated references; memory not yet allocated is zero
            self.own_axiom()
            t, fname = it.rsplit(".", 1)
            t = self.sty(SL.P(t).type(), c.pkg, tenv)
            key = self.fkey(t, fname)
            self.closed_keys.append(key)
            a = self.hget(st, key, z3.ArraySort(I, I))
            r = self.fresh("q_r", I)
            self.assume(st, z3.ForAll([r], z3.If(self.isalloc(r, st.alloc), self.isalloc(z3.Select(a, r), st.alloc), z3.Select(a, r) == 0), patterns=[z3.Select(a, r)]))
        self.top_env = dict(C.env)
        self.top_entry = st.clone()
        self.top_mods = self.eval_mods(c.modifies, C, st)
        self.top_allocs = self.alloc_keys(c.allocs, C, st)
        # reachability of the precondition
        self.vac = [("requires", list(st.pc))]
        outs = self.run(f, args, frees, st, tenv, 0)
        nret = 0
        for o in outs:
            s = o.st
            self.flushimm(s)
            if o.kind == "panic":
                if c.panics is not None:
                    Cp = Ctx(self, dict(env), self.top_entry, self.top_entry, c.pkg, tenv)
                    self.add_lets(c, Cp)
                    g = self.evb(c.panics.e, Cp)
                else:
                    g = z3.BoolVal(False)
                self.oblige(s, g, c.name + "/panics-only-when-allowed", "panic", o.pos)
                if s.locks:
                    self.oblige(s, z3.BoolVal(False), c.name + "/lock-released-on-panic", "lock", o.pos)
                if c.panics is not None:
                    self.frame(c, s, s, {}, "unchanged-on-panic")
                continue
            nret += 1
            self.finish(c, f, tenv, env, s, o.vals)
        self.nret = nret
        if nret == 0 and not any(o.kind == "panic" for o in outs) and not c.panics:
            if "noreturn" not in c.flags:
                raise Unsupported("no return path found")
        if outs:
            self.vac.append(("return", [list(o.st.pc) for o in outs if o.kind == "ret"]))

    def finish(self, c, f, tenv, env, s, vals):
        env2 = dict(env)
        for i, r in enumerate(f["results"]):
            t = self.w.subst(self.w.ty_(r["t"]), tenv)
            v = vals[i]
            v = self.term(v)
            self.check_off(s, t, v, "return value of " + c.name)
            if i < len(c.results):
                env2[c.results[i]] = (v, t)
            if len(f["results"]) == 1:
                env2["result"] = (v, t)
        if s.locks:
            self.oblige(s, z3.BoolVal(False), c.name + "/lock-released-at-return", "lock")
        pre = self.top_entry
        post = s
        if "atomic" in c.flags:
            if s.snap.get("acq") is None or s.snap.get("rel") is None:
                self.oblige(s, z3.BoolVal(False), c.name + "/has-a-critical-section", "lock")
                return
            pre = s.snap["acq"]
            rel = s.snap["rel"]
            post = s.clone()
            post.heap = dict(s.heap)
            for k, v in rel.heap.items():
                if k in self.guarded_keys:
                    post.heap[k] = v
        C = Ctx(self, env2, post, pre, c.pkg, tenv, oldenv=dict(env))
        self.add_lets(c, C)
        # ghost updates, simultaneous
        if c.ghostset:
            ups = []
            for lhs, rhs in c.ghostset:
                ups.append((lhs, self.ev(rhs, C)))
            for sd in C.side:
                self.assume(s, sd)
            C.side.clear()
            for lhs, (v, vt) in ups:
                self.ghost_store(post, lhs, v, C)
        for lab, u in c.uses:
            self.use_lemma(u, C, s, lab)
        if c.panics is not None:
            Cp = Ctx(self, dict(env), pre, pre, c.pkg, tenv)
            self.add_lets(c, Cp)
            self.oblige(s, Not(self.evb(c.panics.e, Cp)), c.name + "/panics-whenever-required", "panic")
        for i, e in enumerate(c.ensures):
            g = self.evb(e.e, C)
            for sd in C.side:
                self.assume(s, sd)
            C.side.clear()
            self.oblige_split(s, g, "%s/ensures[%s]" % (c.name, e.label or i), "ensures")
        if "publishes" in c.flags:
            # the constructor hands out an object whose monitor invariants hold
            pt = self.w.subst(self.w.ty_(f["results"][0]["t"]), tenv)
            v = self.term(vals[0])
            for m in self.monitors_of(self.elem(pt)):
                Cm = Ctx(self, {m["self"]: (v, pt)}, post, pre, m["pkg"], tenv)
                for i, inv in enumerate(m["inv"]):
                    g = self.evb(inv.e, Cm)
                    for sd in Cm.side:
                        self.assume(s, sd)
                    Cm.side.clear()
                    self.oblige(s, Implies(v != 0, g), "%s/publishes[%s]" % (c.name, inv.label or i), "inv")
        self.frame(c, s, post, self.top_mods, "modifies")

    def frame(self, c, s, post, mods_, what):
        """nothing but mods_ (and freshly allocated objects) differs from the entry state"""
        for key, cur in post.heap.items():
            old = self.top_entry.heap.get(key)
            gm = []
            if "atomic" not in c.flags and key in self.guarded_keys and not self.heldby_key(key):
                continue      # protected state of another object, seen through its own critical sections only
            if "atomic" in c.flags and key in self.guarded_keys:
                # between the acquisition and the release
                old = s.snap["acq"].heap.get(key)
                gm = s.snap["gmods"].get(key, [])
            if old is None:
                if key[0] == "GL":
                    t = self.elem(self.w.ty_(self.w.globals[key[1]]["t"]))
                    old = self.hinit(key, self.sort(t))
                else:
                    old = self.hinit(key, self.hsort(key))
            if cur.eq(old):
                continue
            if key[0] in ("GL", "GG"):
                if key == ("GG", "now"):
                    continue
                if key not in mods_:
                    self.oblige(s, cur == old, "%s/%s[%s]" % (c.name, what, key[1]), "frame")
                continue
            if key[0] == "LK":
                continue
            mods = mods_.get(key, []) + gm
            if any(m[0] == "all" for m in mods):
                continue
            r = self.fresh("sk_r", I)
            conds = []
            for m in mods:
                conds.append(r == m[1] if m[0] == "ref" else m[1](r))
            if "atomic" in c.flags and key in self.guarded_keys:
                conds.append(Not(self.isalloc(r, self.top_entry.alloc)))
            if key in self.top_allocs or key[0] == "C":   # fresh cells are local variables of the function
                conds.append(Not(self.isalloc(r, self.top_entry.alloc)))
            elif "local" not in c.flags:
                # fresh objects of this kind that are unreachable afterwards need no allocates clause only if declared local
                conds.append(Not(self.isalloc(r, self.top_entry.alloc)) if key in self.local_ok(c) else z3.BoolVal(False))
            if key[0] == "E":
                conds.append(r == 0)      # the nil slice has no elements
            g = Or(*conds, sel(cur, r) == sel(old, r))
            self.oblige(s, g, "%s/%s[%s]" % (c.name, what, ".".join(str(x) for x in key)), "frame")

    def local_ok(self, c):
        return self._hs if c.allocs_any else {}

    def oblige_split(self, s, g, name, kind):
        self.oblige(s, g, name, kind)

    def use_lemma(self, u, C, s, lab=None):
        """use lemma(args): instantiate a proved lemma; use[k,..] lemma(args): for all integers k"""
        n = u[1][1]
        l = self.sp.lemmas[n]
        qs = []
        if lab:
            env = {}
            for v in lab.split(","):
                c = self.fresh("u_" + v.strip(), I)
                qs.append(c)
                env[v.strip()] = (c, T_MATH)
            C = C.bind(env)
        args = [self.ev(a, C) for a in u[2]]
        env = {pn: a for (pn, _), a in zip(l["params"], args)}
        C2 = Ctx(self, env, C.st, C.old, l["pkg"], C.tenv)
        r = And(*[self.evb(x.e, C2) for x in l["requires"]])
        e = And(*[self.evb(x.e, C2) for x in l["ensures"]])
        self.lemma_used.add(n)
        f = Implies(r, e)
        if qs:
            C3 = C2.copy()
            pats = []
            for g in l.get("trig", []):
                ts = [self.ev(x, C3)[0] for x in g]
                pats.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
            f = z3.ForAll(qs, f, patterns=pats) if pats else z3.ForAll(qs, f)
        self.assume(s, f)

    def ghost_store(self, st, lhs, v, C):
        if lhs[0] == "call" and lhs[1][1] == "allof":
            # allof("Type.field") := array
            tn, f = lhs[2][0][1].rsplit(".", 1)
            t = self.sty(SL.P(tn).type(), C.pkg, C.tenv)
            key = ("G", t.key, f)
            self.hget(st, key, v.sort())
            self.hset(st, key, v, None)
            return
        if lhs[0] == "call" and lhs[1][1] in self.sp.ghostmaps:
            key, srt, _ = self.gmkey(lhs[1][1])
            o = self.sid(self.ev(lhs[2][0], C)[0])
            self.hset(st, key, sto(self.hget(st, key, srt), o, v), o)
            return
        if lhs[0] == "id":
            gt = self.sp.ghostglobals[lhs[1]]
            self.hget(st, ("GG", lhs[1]), v.sort())
            self.hset(st, ("GG", lhs[1]), v, None)
            return
        if lhs[0] == "sel":
            o, ot = self.ev(lhs[1], C)
            t = self.elem(ot)
            gf = self.sp.ghostfields[(t.d.get("name"), lhs[2])]
            key = ("G", t.key, lhs[2])
            a = self.hget(st, key, z3.ArraySort(I, v.sort()))
            b = sto(a, o, v)
            if not (str(o) in self.freshrefs or self.quick(st, o != 0)):
                b = z3.If(o == 0, a, b)
            self.hset(st, key, b, o)
            return
        raise SL.SpecError("ghostset target")


def nonlinear(x):
    return any(n in ("nmul", "ndiv", "nmod") for n in names_of(x))


def short(n):
    return n.rsplit("/", 1)[-1]


def arith_lemmas(mul, div, mod, pats):
    a, b, m, x, i, c, k = z3.Ints("a b m x i c k")

    def FA(vs, body, *pt):
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pt) if len(pt) > 1 else pt[0]]) if pats else z3.ForAll(vs, body)
    return [
        ("mod_range", FA([x, m], Implies(m > 0, And(mod(x, m) >= 0, mod(x, m) < m)), mod(x, m))),
        ("mod_small", FA([x, m], Implies(And(x >= 0, x < m), mod(x, m) == x), mod(x, m))),
        ("mod_step", FA([a, b, m], Implies(And(m > 0, a <= b, b < a + m),
                                            mod(b, m) == z3.If(mod(a, m) + (b - a) < m, mod(a, m) + (b - a), mod(a, m) + (b - a) - m)), mod(a, m), mod(b, m))),
        ("div_mod", FA([x, m], Implies(m > 0, And(mul(div(x, m), m) == x - mod(x, m), mod(x, m) >= 0, mod(x, m) < m)), div(x, m))),
        ("div_nonneg", FA([x, m], Implies(And(m > 0, x >= 0), And(div(x, m) >= 0, div(x, m) <= x)), div(x, m))),
        ("div_char", FA([x, m, i], Implies(m > 0, (div(x, m) == i) == And(mul(m, i) <= x, x < mul(m, i) + m)), div(x, m), mul(m, i))),
        ("mul_comm", FA([a, b], mul(a, b) == mul(b, a), mul(a, b))),
        ("mul_unit", FA([a, b], And(Implies(a == 0, mul(a, b) == 0), Implies(a == 1, mul(a, b) == b), Implies(a == -1, mul(a, b) == -b)), mul(a, b))),
        ("mul_sign", FA([a, b], And(Implies(And(a >= 0, b >= 0), mul(a, b) >= 0), Implies(And(a > 0, b > 0), And(mul(a, b) >= a, mul(a, b) >= b)),
                                    Implies(And(a <= 0, b >= 0), mul(a, b) <= 0)), mul(a, b))),
        ("mul_range", FA([a, b], And(Implies(And(a >= 0, a <= 1 << 34, b >= 0, b <= 1 << 28), And(mul(a, b) >= 0, mul(a, b) <= 1 << 62)),
                                     Implies(And(a >= 0, a <= 1 << 44, b >= 0, b <= 1 << 18), And(mul(a, b) >= 0, mul(a, b) <= 1 << 62)),
                                     Implies(And(a >= 0, a <= 1 << 31, b >= 0, b <= 1 << 31), And(mul(a, b) >= 0, mul(a, b) <= 1 << 62))), mul(a, b))),
        ("mul_mono", FA([a, b, c], And(Implies(And(a <= b, c >= 0), mul(a, c) <= mul(b, c)),
                                       Implies(And(a < b, c > 0), mul(a, c) + c <= mul(b, c)),
                                       Implies(b == a + 1, mul(b, c) == mul(a, c) + c)), mul(a, c), mul(b, c))),
    ]


def bits_lemmas(E):
    """(name, quantified fact over the integers, [(name, bit-vector claim)]): the facts the integer encoding knows about & | << >>;
    every fact is proved from the bit-vector meaning of the operators, case by case on shift amounts"""
    band, bor, bxor, shl, shr = (E.uf(n, I, I, I) for n in ("band", "bor", "bxor", "shl64", "shr"))
    bit = E.uf("bit", I, I, B)
    nmod = E.uf("nmod", I, I, I)
    E.arith_axioms()
    x, y, m, k, j = z3.Ints("x y m k j")
    isp = E.uf("ispow2", I, B)
    U = (1 << 64) - 1
    u = lambda v: And(v >= 0, v <= U)
    b64 = lambda v: And(v >= 0, v < 64)
    FA = z3.ForAll
    return [
        ("band_mask", FA([x, m], Implies(And(u(x), u(m), isp(m + 1)), band(x, m) == nmod(x, m + 1)), patterns=[band(x, m)])),
        ("bor_bit", FA([x, y, k], Implies(And(u(x), u(y), b64(k)), bit(bor(x, y), k) == Or(bit(x, k), bit(y, k))), patterns=[bit(bor(x, y), k)])),
        ("bor_bit2", FA([x, y, k], Implies(And(u(x), u(y), b64(k), Or(bit(x, k), bit(y, k))), bit(bor(x, y), k)), patterns=[z3.MultiPattern(bor(x, y), bit(x, k)), z3.MultiPattern(bor(x, y), bit(y, k))])),
        ("shl_bit", FA([k, j], Implies(And(b64(k), b64(j)), bit(shl(1, k), j) == (j == k)), patterns=[bit(shl(1, k), j)])),
        ("shl_own", FA([k], Implies(b64(k), And(bit(shl(1, k), k), shl(1, k) > 0, shl(1, k) <= U)), patterns=[shl(1, k)])),
        ("band_bit", FA([x, k], Implies(And(u(x), b64(k)), band(x, shl(1, k)) == z3.If(bit(x, k), shl(1, k), z3.IntVal(0))), patterns=[band(x, shl(1, k))])),
        ("band_bitl", FA([x, k], Implies(And(u(x), b64(k)), band(shl(1, k), x) == z3.If(bit(x, k), shl(1, k), z3.IntVal(0))), patterns=[band(shl(1, k), x)])),
        ("zero_bit", FA([k], Not(bit(0, k)), patterns=[bit(0, k)])),
        ("shr_bit", FA([x, k], Implies(And(u(x), b64(k)), (shr(x, k) % 2 == 1) == bit(x, k)), patterns=[shr(x, k)])),
        ("xor_comm", FA([x, y], bxor(x, y) == bxor(y, x), patterns=[bxor(x, y)])),
    ]


def bits_claims():
    """bit-vector forms of bits_lemmas, with 64-bit values; shift amounts below 64"""
    X, Y, K, J = z3.BitVecs("x y k j", 64)
    one = z3.BitVecVal(1, 64)
    z = z3.BitVecVal(0, 64)
    bit = lambda v, k: (z3.LShR(v, k) & one) == one
    lt = lambda k: z3.ULT(k, z3.BitVecVal(64, 64))
    out = [("band_mask", [(X & z3.BitVecVal((1 << n) - 1, 64)) == z3.URem(X, z3.BitVecVal(1 << n, 64)) for n in range(64)] + [(X & z3.BitVecVal((1 << 64) - 1, 64)) == X])]
    out.append(("bor_bit", [z3.Implies(lt(K), bit(X | Y, K) == z3.Or(bit(X, K), bit(Y, K)))]))
    out.append(("bor_bit2", [z3.Implies(z3.And(lt(K), z3.Or(bit(X, K), bit(Y, K))), bit(X | Y, K))]))
    out.append(("shl_bit", [z3.Implies(z3.And(lt(K), lt(J)), bit(one << K, J) == (J == K))]))
    out.append(("shl_own", [z3.Implies(lt(K), z3.And(bit(one << K, K), (one << K) != z))]))
    out.append(("band_bit", [z3.Implies(lt(K), (X & (one << K)) == z3.If(bit(X, K), one << K, z))]))
    out.append(("band_bitl", [z3.Implies(lt(K), ((one << K) & X) == z3.If(bit(X, K), one << K, z))]))
    out.append(("zero_bit", [z3.Not(bit(z, K))]))
    out.append(("shr_bit", [z3.Implies(lt(K), (z3.URem(z3.LShR(X, K), z3.BitVecVal(2, 64)) == one) == bit(X, K))]))
    out.append(("xor_comm", [(X ^ Y) == (Y ^ X)]))
    return out
