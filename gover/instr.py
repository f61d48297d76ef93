"""Instruction semantics: one basic block at a time, calls, built-ins, locks."""
import z3
from .engine import *
from .spec import Ctx
from . import speclang as SL


class Outcome:
    __slots__ = ("kind", "st", "vals", "pos")

    def __init__(self, kind, st, vals, pos=""):
        self.kind, self.st, self.vals, self.pos = kind, st, vals, pos


class Instr:
    brtrack = False

    # ---------------------------------------------------------------- helpers
    def keep(self, t):
        self._keep.append(t)
        return t

    def factc(self, st, t, v):
        """type facts, once per term and state"""
        if isinstance(v, (Addr, Clo, Iter, tuple)) or v is None:
            return v
        if z3.is_const(v) and v.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return v
        k = ("f", v.get_id(), t.key)
        if k in st.x:
            return v
        st.x[k] = v
        self.fact(st, t, v, deep=True)
        return v

    def setreg(self, p, ins, v):
        p.regs[ins["reg"]] = v

    def sliceparts(self, v):
        return self.sg(v, 0), self.offof(v), self.sg(v, 2), self.sg(v, 3)

    def offof(self, v):
        if z3.is_app(v) and v.num_args() == 4 and v.decl().eq(SLICE.constructor(0)):
            return v.arg(1)
        return z3.IntVal(0)      # every slice value met as a variable has offset 0 (see fact)

    def check_off(self, st, t, v, pos):
        """a slice value leaving for the heap / the caller must start its backing array"""
        if isinstance(v, (Addr, Clo, Iter, tuple)):
            return
        if v.sort() == SLICE:
            o = self.offof(v)
            if not (conc(o) and o.as_long() == 0):
                if not self.quick(st, o == 0):
                    raise Unsupported("slice with a non-zero offset escapes (%s)" % pos)

    # ---------------------------------------------------------------- blocks
    def exec_block(self, fr, p, outs, stop):
        blk = fr.blocks[p.block]
        ins_list = blk["ins"]
        while True:
            ins = ins_list[p.idx]
            op = ins["op"]
            if op == "Jump":
                return self.goto(fr, p, blk["succ"][0], stop)
            if op == "If":
                c = self.val(fr, p, ins["x"])
                c = z3.simplify(c) if not hasquant(c) else c
                t, f = blk["succ"]
                if z3.is_true(c):
                    return self.goto(fr, p, t, stop)
                if z3.is_false(c):
                    return self.goto(fr, p, f, stop)
                c = self.val(fr, p, ins["x"])
                res = []
                ft = self.feasible(p.st, c)
                ff = self.feasible(p.st, Not(c)) if ft else True
                if ft and ff:
                    q = p.clone()
                    self.assume(q.st, Not(c))
                    self.assume(p.st, c)
                    if self.brtrack:
                        q.st.x[("br", len(q.st.pc))] = Not(c)
                        p.st.x[("br", len(p.st.pc))] = c
                    res = self.goto(fr, p, t, stop)
                    res += self.goto(fr, q, f, stop)
                    return res
                self.assume(p.st, c if ft else Not(c))
                return self.goto(fr, p, t if ft else f, stop)
            if op == "Return":
                vals = [self.val(fr, p, r) for r in ins["r"]]
                outs.append(Outcome("ret", p.st, vals, ins["pos"]))
                return []
            if op == "Panic":
                self.do_panic(fr, p, outs, ins["pos"])
                return []
            if op in ("Call", "RunDefers", "Go"):
                if op == "RunDefers":
                    rs = self.run_defers(fr, [p], ins["pos"])
                elif op == "Go":
                    rs = self.do_go(fr, p, ins)
                else:
                    rs = self.do_call(fr, p, ins["call"], ins.get("t"), ins["pos"])
                nxt = []
                for kind, q, vals in rs:
                    if kind == "panic":
                        self.do_panic(fr, q, outs, ins["pos"])
                        continue
                    if kind == "stop":
                        continue
                    if op == "Call":
                        vals = vals or []
                        q.regs[ins["reg"]] = vals[0] if len(vals) == 1 else tuple(vals)
                    q.idx = p.idx if q is p else q.idx
                    nxt.append(q)
                if len(nxt) == 1 and nxt[0] is p:
                    p.idx += 1
                    continue
                i0 = p.idx
                for q in nxt:
                    q.idx = i0 + 1
                return nxt
            r = self.step(fr, p, ins)
            if r is None:
                p.idx += 1
                continue
            i0 = p.idx
            for q in r:
                q.idx = i0 + 1
            return r

    def do_panic(self, fr, p, outs, pos):
        # deferred calls run while panicking; nothing in /repo recovers except where modelled
        for kind, q, _ in self.run_defers(fr, [p], pos):
            outs.append(Outcome("panic", q.st, None, pos))

    def run_defers(self, fr, paths, pos):
        done = []
        work = list(paths)
        while work:
            p = work.pop()
            if not p.defers:
                done.append(("ret", p, []))
                continue
            call, fnv, args = p.defers.pop()
            for kind, q, vals in self.call_value(fr, p, call, fnv, args, None, pos):
                if kind == "panic":
                    done.append(("panic", q, None))
                elif kind == "ret":
                    work.append(q)
        return done

    # ---------------------------------------------------------------- simple instructions
    def step(self, fr, p, ins):
        """executes a non-control instruction; returns None or the list of forked paths"""
        h = getattr(self, "i_" + ins["op"], None)
        if h is None:
            raise Unsupported("instruction %s at %s" % (ins["op"], ins["pos"]))
        return h(fr, p, ins)

    def i_Alloc(self, fr, p, ins):
        if ins["name"] == "defer$stack":
            p.regs[ins["reg"]] = None
            return
        t = self.elem(self.T(fr, ins["t"]))
        reg = ins["reg"]
        if not ins["heap"]:
            p.cells[reg] = self.zero(t)
            p.regs[reg] = Addr("cell", reg, t, t)
            return
        self.flush_one(p.st)
        r = self.newref(p.st, "new_" + (ins["name"] or "obj"))
        self.keep(r)
        u = self.w.under(t)
        if self.hstruct(t):
            for key in self.closed_keys:
                # memory inside an object allocated only now is zero, at whatever interior address
                h = self.hget(p.st, key, z3.ArraySort(I, I))
                if not z3.is_const(h):
                    hc = self.fresh("hz", h.sort())
                    self.assume(p.st, hc == h)
                    h = hc
                x = self.fresh("q_x", I)
                self.assume(p.st, z3.ForAll([x], Implies(self.uf("own", I, I)(x) == r, z3.Select(h, x) == 0), patterns=[z3.Select(h, x)]))
            self.init_struct(p.st, t, r)
            p.regs[reg] = r
        elif u.k == "array":
            et = self.w.ty_(u.d["elem"])
            self.elemsset(p.st, et, r, self.constarr(I, self.zero(et)))
            p.regs[reg] = Addr("arr", r, et, t)
        else:
            key = ("C", t.key)
            a = self.hget(p.st, key, z3.ArraySort(I, self.sort(t)))
            self.hset(p.st, key, sto(a, r, self.zero(t)), r)
            p.regs[reg] = Addr("ref", r, t, t)

    def flush_one(self, st):
        pass

    def init_struct(self, st, t, r):
        for n, ft in self.w.fields(t):
            if self.hstruct(ft):
                self.init_struct(st, ft, self.faddr(t, n, r))
            elif self.immutable(t, n):
                st.x[("immp", str(r), t.key, n)] = (t, ft, r)
            else:
                self.fldset(st, t, n, ft, r, self.zero(ft))
        for (tn, g), (gt, pkg) in self.sp.ghostfields.items():
            if tn == t.d.get("name"):
                tenv = {pp: self.w.ty_(a) for pp, a in zip(self.w.decl[tn][0], t.d["targs"])} if t.d.get("targs") else {}
                s = self.sty(gt, pkg, tenv)
                key = ("G", t.key, g)
                a = self.hget(st, key, z3.ArraySort(I, self.sort(s)))
                self.hset(st, key, sto(a, r, self.zero(s)), r)

    def i_Store(self, fr, p, ins):
        a = self.val(fr, p, ins["a"])
        v = self.val(fr, p, ins["x"])
        if a is None:
            return
        t = self.T(fr, ins["x"]["t"])
        self.storeto(fr, p, a, v, t, ins["pos"])

    def loadfrom_raw(self, p, a):
        return self.load(p, a)

    def storeto(self, fr, p, a, v, t, pos, raw=False):
        if isinstance(a, Addr):
            if a.kind != "cell":
                self.check_off(p.st, t, v, pos)
            self.guard(p, a, True, pos)
            if not raw:
                self.volatile_plain(p, a, pos)
            if a.kind == "arr":
                self.elemsset(p.st, a.b, a.a, v) if False else self.elemsset(p.st, self.elem(a.ty), a.a, v)
                return
            if a.kind == "fld#":
                key = ("F", a.a[0], "#%d" % a.a[1])
                arr = self.hget(p.st, key, z3.ArraySort(I, self.sort(a.ty)))
                self.hset(p.st, key, sto(arr, a.b, self.term(v)), a.b)
                return
            if a.kind == "ref":
                self.nonnil(p.st, a.a, pos)
            self.store(p, a, v)
            return
        # pointer term
        self.nonnil(p.st, a, pos)
        if self.hstruct(t):
            self.storestruct(p.st, t, a, v)
        elif self.w.under(t).k == "array":
            self.elemsset(p.st, self.elem(t), a, v)
        else:
            self.check_off(p.st, t, v, pos)
            key = ("C", t.key)
            arr = self.hget(p.st, key, z3.ArraySort(I, self.sort(t)))
            self.hset(p.st, key, sto(arr, a, self.term(v)), a)

    def loadfrom(self, fr, p, a, t, pos):
        st = p.st
        if isinstance(a, Addr):
            if a.kind == "arr":
                v = self.elems(st, self.elem(a.ty), a.a)
            elif a.kind == "fld#":
                v = sel(self.hget(st, ("F", a.a[0], "#%d" % a.a[1]), z3.ArraySort(I, self.sort(a.ty))), a.b)
            else:
                self.guard(p, a, False, pos)
                self.volatile_plain(p, a, pos)
                v = self.load(p, a)
            if a.kind != "cell":
                self.factc(st, t, v)
                self.guardrec(p, a, v)
            return v
        if a is None:
            return None
        self.nonnil(st, a, pos)
        if self.hstruct(t):
            v = self.loadstruct(st, t, a)
        elif self.w.under(t).k == "array":
            v = self.elems(st, self.elem(t), a)
        else:
            v = sel(self.hget(st, ("C", t.key), z3.ArraySort(I, self.sort(t))), a)
            self.factc(st, t, v)
        return v

    def i_UnOp(self, fr, p, ins):
        o = ins["o"]
        if o == "*":
            a = self.val(fr, p, ins["x"])
            v = self.loadfrom(fr, p, a, self.T(fr, ins["t"]), ins["pos"])
            if z3.is_expr(v) and v.sort() == I and str(v) in self.clos:
                v = self.clos[str(v)]
            self.setreg(p, ins, v)
            return
        if o == "<-":
            ch = self.val(fr, p, ins["x"])
            return self.recv(fr, p, ins, ch)
        x = self.val(fr, p, ins["x"])
        t = self.T(fr, ins["t"])
        if o == "!":
            v = Not(x)
        elif o == "-":
            if z3.is_bv(x):
                v = -x
            elif x.sort() == R:
                v = -x
            else:
                v = self.wrap(p.st, t, norm(-x))
        elif o == "^":
            if z3.is_bv(x):
                v = ~x
            else:
                ii = self.w.intinfo(t)
                v = norm(-x - 1) if ii[0] else norm(((1 << ii[1]) - 1) - x)
        else:
            raise Unsupported("unary " + o)
        self.setreg(p, ins, v)

    def recv(self, fr, p, ins, ch):
        """receive: any value of the element type"""
        self.blocks(p, "receive", ins.get("pos"))
        t = self.T(fr, ins["t"])
        if ins.get("commaok"):
            et = self.w.ty_(self.w.under(t).d["elems"][0]) if t.k == "tuple" else t
            v = self.fresh("recv", self.sort(et))
            ok = self.fresh("ok", B)
            self.fact(p.st, et, v)
            self.assume(p.st, Implies(Not(ok), eq(v, self.zero(et))))
            self.chan_recv(p.st, et, v, ok)
            self.setreg(p, ins, (v, ok))
        else:
            v = self.fresh("recv", self.sort(t))
            self.fact(p.st, t, v)
            if self.chan_kept(t):
                raise Unsupported("receive that ignores whether the channel is closed")
            self.setreg(p, ins, v)
        return None

    def i_BinOp(self, fr, p, ins):
        x, y = self.val(fr, p, ins["x"]), self.val(fr, p, ins["y"])
        self.setreg(p, ins, self.binop(fr, p, ins["o"], x, y, self.T(fr, ins["x"]["t"]), self.T(fr, ins["t"]), self.T(fr, ins["y"]["t"]), ins["pos"]))

    def i_FieldAddr(self, fr, p, ins):
        x = self.val(fr, p, ins["x"])
        self.setreg(p, ins, self.fieldaddr(fr, p, x, ins["i"], self.T(fr, ins["x"]["t"]), self.T(fr, ins["t"]), ins["pos"]))

    def i_Field(self, fr, p, ins):
        x = self.val(fr, p, ins["x"])
        self.setreg(p, ins, self.sget(self.T(fr, ins["x"]["t"]), ins["i"], x))

    def bounds(self, p, i, n, pos, what="index out of range"):
        if z3.is_bv(i):
            raise Unsupported("bv index")
        self.panic_check(p.st, And(i >= 0, i < n), what, pos)

    def i_IndexAddr(self, fr, p, ins):
        x = self.val(fr, p, ins["x"])
        i = self.val(fr, p, ins["y"])
        xt = self.T(fr, ins["x"]["t"])
        u = self.w.under(xt)
        if u.k == "slice":
            et = self.elem(xt)
            b, o, n, c = self.sliceparts(x)
            self.guarduse(p, x, ins["pos"])
            self.bounds(p, i, n, ins["pos"])
            self.setreg(p, ins, Addr("elem", b, (add(o, i), et), et))
            return
        # pointer to array
        at = self.elem(xt)
        et = self.elem(at)
        n = self.w.under(at).d["len"]
        self.bounds(p, i, z3.IntVal(n), ins["pos"])
        if isinstance(x, Addr):
            if x.kind == "arr":
                self.setreg(p, ins, Addr("elem", x.a, (i, et), et))
            else:
                self.setreg(p, ins, Addr(x.kind, x.a, x.b, et, x.path + (("i", i),)))
            return
        self.nonnil(p.st, x, ins["pos"])
        self.setreg(p, ins, Addr("elem", x, (i, et), et))

    def i_Index(self, fr, p, ins):
        x, i = self.val(fr, p, ins["x"]), self.val(fr, p, ins["y"])
        t = self.T(fr, ins["x"]["t"])
        if self.w.is_string(t):
            self.bounds(p, i, self.slen(x), ins["pos"])
            v = self.uf("sat", STR, I, I)(x, i)
            self.str_axioms()
            self.assume(p.st, And(v >= 0, v <= 255))
            self.setreg(p, ins, v)
            return
        self.bounds(p, i, z3.IntVal(self.w.under(t).d["len"]), ins["pos"])
        self.setreg(p, ins, sel(x, i))

    def i_Lookup(self, fr, p, ins):
        x, k = self.val(fr, p, ins["x"]), self.val(fr, p, ins["y"])
        t = self.T(fr, ins["x"]["t"])
        if self.w.is_string(t):
            return self.i_Index(fr, p, ins)
        self.guarduse(p, x, ins["pos"])
        self.mapfacts(p.st, t, x)
        kt, vt = self.mkeys(t)[1:]
        k = self.term(k)
        ok = sel(self.mdom(p.st, t, x), k)
        raw = sel(self.mval(p.st, t, x), k)
        v = ITE(ok, raw, self.zero(vt))
        self.assume(p.st, Implies(x == 0, Not(ok)))
        tt = self.T(fr, ins["t"])
        if not (z3.is_app(raw) and raw.num_args() == 0 and raw.decl().kind() != z3.Z3_OP_UNINTERPRETED):
            self.factc(p.st, vt, raw) if self.map_values_typed(vt) else None
        self.setreg(p, ins, (v, ok) if ins["commaok"] else v)

    def map_values_typed(self, vt):
        # values outside the domain are junk; typed facts about junk are harmless for total sorts (bounded ints, refs)
        return True

    def i_MapUpdate(self, fr, p, ins):
        m = self.val(fr, p, ins["m"])
        k, v = self.term(self.val(fr, p, ins["x"])), self.val(fr, p, ins["y"])
        self.check_off(p.st, self.T(fr, ins["y"]["t"]), v, ins["pos"])
        v = self.term(v)
        t = self.T(fr, ins["m"]["t"])
        self.guarduse(p, m, ins["pos"], True)
        self.nonnil(p.st, m, ins["pos"], "assignment to entry in nil map")
        self.mapfacts(p.st, t, m)
        self.map_put(p.st, t, m, k, v)

    def map_put(self, st, t, m, k, v):
        dom, val, ln = self.mdom(st, t, m), self.mval(st, t, m), self.mlen(st, t, m)
        self.assume(st, Implies(sel(dom, k), ln >= 1))
        was = sel(dom, k)
        self.mset(st, t, m, sto(dom, k, z3.BoolVal(True)), sto(val, k, v), ITE(was, ln, norm(ln + 1)))

    def map_del(self, st, t, m, k):
        dom, val, ln = self.mdom(st, t, m), self.mval(st, t, m), self.mlen(st, t, m)
        was = sel(dom, k)
        self.assume(st, Implies(was, And(ln >= 1, m != 0)))
        self.mset(st, t, m, sto(dom, k, z3.BoolVal(False)), None, ITE(was, norm(ln - 1), ln))

    def i_MakeMap(self, fr, p, ins):
        t = self.T(fr, ins["t"])
        r = self.keep(self.newref(p.st, "map"))
        k, kt, vt = self.mkeys(t)
        self.mset(p.st, t, r, z3.K(self.sort(kt), z3.BoolVal(False)), self.constarr(self.sort(kt), self.zero(vt)), z3.IntVal(0))
        self.setreg(p, ins, r)

    def i_MakeSlice(self, fr, p, ins):
        n, c = self.val(fr, p, ins["len"]), self.val(fr, p, ins["cap"])
        et = self.elem(self.T(fr, ins["t"]))
        self.panic_check(p.st, And(n >= 0, n <= c), "makeslice: len out of range", ins["pos"])
        r = self.keep(self.newref(p.st, "mk"))
        self.elemsset(p.st, et, r, self.constarr(I, self.zero(et)))
        self.assume(p.st, c <= MAXI)
        self.setreg(p, ins, mkslice(r, z3.IntVal(0), n, c))

    def i_MakeChan(self, fr, p, ins):
        r = self.keep(self.newref(p.st, "chan"))
        self.setreg(p, ins, r)

    def i_MakeInterface(self, fr, p, ins):
        v = self.val(fr, p, ins["x"])
        t = self.T(fr, ins["x"]["t"])
        self.setreg(p, ins, self.box(t, self.term(v)))

    def i_ChangeInterface(self, fr, p, ins):
        self.setreg(p, ins, self.val(fr, p, ins["x"]))

    def i_ChangeType(self, fr, p, ins):
        v = self.val(fr, p, ins["x"])
        if z3.is_expr(v) and isinstance(v.sort(), z3.DatatypeSortRef) and v.sort() != SLICE:
            ft, tt = self.T(fr, ins["x"]["t"]), self.T(fr, ins["t"])
            if self.sort(ft) != self.sort(tt):
                v = self.smk(tt, [self.sget(ft, i, v) for i in range(len(self.w.fields(ft)))])
        self.setreg(p, ins, v)

    def i_Convert(self, fr, p, ins):
        self.setreg(p, ins, self.convert(p.st, self.term(self.val(fr, p, ins["x"])), self.T(fr, ins["x"]["t"]), self.T(fr, ins["t"])))

    def i_Extract(self, fr, p, ins):
        v = self.val(fr, p, ins["x"])
        self.setreg(p, ins, v[ins["i"]])

    def i_Phi(self, fr, p, ins):
        j = fr.blocks[p.block]["pred"].index(p.prev)
        # phis read simultaneously; naive form only produces independent ones (&&, ||)
        self.setreg(p, ins, self.val(fr, p, ins["e"][j]))

    def i_MakeClosure(self, fr, p, ins):
        binds = [self.val(fr, p, b) for b in ins["b"]]
        f = ins["fn"]
        c = self.funcval(f["n"], [], binds)
        c.tenv = fr.tenv
        self.setreg(p, ins, c)

    def i_TypeAssert(self, fr, p, ins):
        x = self.val(fr, p, ins["x"])
        at = self.T(fr, ins["at"])
        if self.w.is_iface(at):
            ok = self.uf("implements_" + at.key, ANY, B)(x)
            self.assume(p.st, Implies(x == self.nilany(), Not(ok)))
            v = ITE(ok, x, self.nilany())
        else:
            ok = self.typeof(x) == self.tag(at)
            self.bgadd(self.typeof(self.nilany()) == 0)
            raw = self.unbox(at, x)
            # equal boxes: a value of dynamic type at is the boxing of its content
            self.assume(p.st, Implies(ok, self.box(at, raw) == x))
            self.factc(p.st, at, raw)
            v = ITE(ok, raw, self.zero(at))
        if ins["commaok"]:
            self.setreg(p, ins, (v, ok))
        else:
            self.panic_check(p.st, ok, "type assertion", ins["pos"])
            self.setreg(p, ins, v)

    def i_Slice(self, fr, p, ins):
        x = self.val(fr, p, ins["x"])
        t = self.T(fr, ins["x"]["t"])
        st, pos = p.st, ins["pos"]
        lo = self.val(fr, p, ins["lo"]) if ins["lo"] else z3.IntVal(0)
        hi = self.val(fr, p, ins["hi"]) if ins["hi"] else None
        mx = self.val(fr, p, ins["max"]) if ins["max"] else None
        if self.w.is_string(t):
            n = self.slen(x)
            h = hi if hi is not None else n
            self.panic_check(st, And(lo >= 0, lo <= h, h <= n), "slice bounds out of range", pos)
            self.setreg(p, ins, self.ssub(x, lo, h))
            return
        u = self.w.under(t)
        if u.k == "slice":
            b, o, n, c = self.sliceparts(x)
            self.guarduse(p, x, pos)
        else:
            at = self.elem(t)
            n = c = z3.IntVal(self.w.under(at).d["len"])
            o = z3.IntVal(0)
            if isinstance(x, Addr):
                if x.kind != "arr":
                    raise Unsupported("slice of a local array")
                b = x.a
            else:
                self.nonnil(st, x, pos)
                b = x
        h = hi if hi is not None else n
        m = mx if mx is not None else c
        self.panic_check(st, And(lo >= 0, lo <= h, h <= m, m <= c), "slice bounds out of range", pos)
        if hi is not None and not h.eq(n) and not self.quick(st, h <= n):
            raise Unsupported("reslicing beyond the length at " + pos)
        nb = b
        self.setreg(p, ins, mkslice(nb, add(o, lo), sub(h, lo), sub(m, lo)))

    def ssub(self, x, lo, h):
        f = self.uf("ssub", STR, I, I, STR)
        if "ssub" not in self.bgseen:
            self.bgseen.add("ssub")
            s = z3.Const("s", STR)
            a, b, i = z3.Ints("a b i")
            sat = self.uf("sat", STR, I, I)
            L = self.uf("slen", STR, I)
            self.bg.append(z3.ForAll([s, a, b], Implies(And(0 <= a, a <= b, b <= L(s)), L(f(s, a, b)) == b - a), patterns=[f(s, a, b)]))
            self.bg.append(z3.ForAll([s, a, b, i], Implies(And(0 <= a, a <= b, b <= L(s), i >= 0, i < b - a), sat(f(s, a, b), i) == sat(s, a + i)), patterns=[sat(f(s, a, b), i)]))
            self.bg.append(z3.ForAll([s, b], Implies(b == L(s), f(s, 0, b) == s), patterns=[f(s, 0, b)]))
            t = z3.Const("t", z3.ArraySort(I, I))
            o, n = z3.Ints("o n")
            b2s = self.uf("bytes2str", z3.ArraySort(I, I), I, I, STR)
            self.bg.append(z3.ForAll([t, o, n, a, b], Implies(And(0 <= a, a <= b, b <= n, n <= MAXI), f(b2s(t, o, n), a, b) == b2s(t, o + a, b - a)), patterns=[f(b2s(t, o, n), a, b)]))
        return f(x, lo, h)

    def i_Range(self, fr, p, ins):
        x = self.val(fr, p, ins["x"])
        t = self.T(fr, ins["x"]["t"])
        key = ("iter", ins["reg"])
        if self.w.is_string(t):
            p.regs[ins["reg"]] = Iter(x, t, None, ins["reg"], True)
            p.cells[key] = z3.IntVal(0)
            return
        self.guarduse(p, x, ins["pos"])
        self.mapfacts(p.st, t, x)
        dom = self.mdom(p.st, t, x)
        if z3.is_store(dom) or z3.is_const_array(dom):
            d2 = self.fresh("dom0", dom.sort())
            self.assume(p.st, d2 == dom)
            dom = d2
        p.regs[ins["reg"]] = Iter(x, t, dom, ins["reg"])
        p.cells[key] = z3.K(self.sort(self.mkeys(t)[1]), z3.BoolVal(False))
        self.assume(p.st, self.vcard(p.cells[key]) == 0)

    def i_Next(self, fr, p, ins):
        it = p.regs[ins["x"]["n"]]
        key = ("iter", it.reg)
        st = p.st
        if it.isstr:
            pos = p.cells[key]
            n = self.slen(it.m)
            self.str_axioms()
            q = p.clone()
            self.assume(q.st, pos >= n)
            q.regs[ins["reg"]] = (z3.BoolVal(False), z3.IntVal(0), z3.IntVal(0))
            self.assume(st, And(pos >= 0, pos < n))
            b = self.uf("sat", STR, I, I)(it.m, pos)
            r = self.uf("runeat", STR, I, I)(it.m, pos)
            w = self.uf("runew", STR, I, I)(it.m, pos)
            self.assume(st, And(b >= 0, b <= 255, w >= 1, w <= 4, pos + w <= n, r >= 0, r <= 0x10FFFF,
                                Implies(b < 128, And(r == b, w == 1)), Implies(b >= 128, r >= 128)))
            p.regs[ins["reg"]] = (z3.BoolVal(True), pos, r)
            p.cells[key] = norm(pos + w)
            return [p, q]
        self.guarduse(p, it.m, ins["pos"])
        k, kt, vt = self.mkeys(it.ty)
        dom = self.mdom(st, it.ty, it.m)
        vis = p.cells[key]
        q = p.clone()
        x = z3.Const("nk", self.sort(kt))
        pats = [z3.Select(it.dom0, x)]
        self.assume(q.st, z3.ForAll([x], Implies(And(z3.Select(it.dom0, x), z3.Select(dom, x)), z3.Select(vis, x)), patterns=pats))
        q.regs[ins["reg"]] = (z3.BoolVal(False), self.zero(kt), self.zero(vt))
        # a map that does not change while it is ranged over gives each of its len entries once
        card, ln = self.vcard(vis), self.mlen(st, it.ty, it.m)
        same = z3.BoolVal(True) if dom.eq(it.dom0) else dom == it.dom0
        self.assume(q.st, Implies(same, card == ln))
        self.assume(st, Implies(same, And(card >= 0, card < ln)))
        kk = self.fresh("key", self.sort(kt))
        self.assume(st, And(sel(dom, kk), Not(sel(vis, kk))))
        if not dom.eq(it.dom0) and not self.mapgrows(fr, it):
            self.assume(st, z3.Select(it.dom0, kk))
        self.fact(st, kt, kk, deep=True)
        v = sel(self.mval(st, it.ty, it.m), kk)
        self.factc(st, vt, v)
        self.assume(st, self.mlen(st, it.ty, it.m) >= 1)
        p.regs[ins["reg"]] = (z3.BoolVal(True), kk, v)
        p.cells[key] = sto(vis, kk, z3.BoolVal(True))
        self.assume(st, self.vcard(p.cells[key]) == card + 1)
        return [p, q]

    def vcard(self, vis):
        """the number of keys a range over a map has given so far"""
        return self.uf("vcard", vis.sort(), I)(vis)

    def mapgrows(self, fr, it):
        for lp in fr.loops.values():
            for b in lp["body"]:
                for ins in fr.blocks[b]["ins"]:
                    if ins["op"] == "MapUpdate" and self.w.under(self.T(fr, ins["m"]["t"])).key == self.w.under(it.ty).key:
                        return True
        return False

    def i_Defer(self, fr, p, ins):
        call = ins["call"]
        fnv = self.callee(fr, p, call)
        args = [self.val(fr, p, a) for a in call["args"]]
        p.defers.append((call, fnv, args))

    def i_Send(self, fr, p, ins):
        ch = self.val(fr, p, ins["ch"])
        v = self.val(fr, p, ins["x"])
        self.blocks(p, "send", ins.get("pos"))
        self.chan_send(fr, p.st, self.T(fr, ins["x"]["t"]), v, ins.get("pos"))

    def chan_kept(self, et):
        """channels of these pointers carry allocated objects only; sends and receives are counted per object"""
        return next((x for x in self.sp.chaninv if self.sty(x[0], x[1], {}).key == et.key), None)

    def chan_count(self, st, ghost, v, c):
        if ghost in self.sp.ghostglobals:
            arr = self.hget(st, ("GG", ghost), z3.ArraySort(I, I))
            self.hset(st, ("GG", ghost), z3.If(c, sto(arr, v, sel(arr, v) + 1), arr), None)

    def chan_send(self, fr, st, et, v, pos):
        if self.chan_kept(et):
            v = self.term(v)
            self.oblige(st, And(v != 0, self.isalloc(v, st.alloc)), "%s/sends-an-object" % self.top, "chan", pos)
            self.chan_count(st, "sent", v, z3.BoolVal(True))

    def chan_recv(self, st, et, v, ok):
        if self.chan_kept(et):
            _, pkg, nm, cond = self.chan_kept(et)
            self.assume(st, Implies(ok, And(v != 0, self.isalloc(v, st.alloc))))
            if cond is not None:
                self.notes.add("a condition on received values is assumed")
                self.assume(st, Implies(ok, self.evb(cond, Ctx(self, {nm: (v, et)}, st, st, pkg, {}))))
            self.chan_count(st, "received", v, ok)

    def blocks(self, p, what, pos):
        """an operation that may wait for another goroutine"""
        if p.st.locks:
            self.oblige(p.st, z3.BoolVal(False), "%s/no-%s-while-holding-a-lock" % (self.top, what), "lock", pos)
        elif self.topc is not None and "nonblocking" in self.topc.flags:
            self.oblige(p.st, z3.BoolVal(False), "%s/never-waits[%s]" % (self.top, what), "lock", pos)

    def mayblock(self, name, seen=None):
        """the function, or one it calls directly, waits on a channel"""
        seen = set() if seen is None else seen
        f = self.w.funcs.get(name)
        if f is None or name in seen:
            return False
        seen.add(name)
        for b in f.get("blocks") or []:
            for ins in b["ins"]:
                o = ins["op"]
                if o == "Send" or (o == "Select" and ins["blocking"]) or (o == "UnOp" and ins["o"] == "<-"):
                    return True
                if o in ("Call", "Defer") and "invoke" not in ins["call"] and ins["call"]["fn"]["k"] == "func" and self.mayblock(ins["call"]["fn"]["n"], seen):
                    return True
        return False

    def i_Select(self, fr, p, ins):
        """any ready case may be taken"""
        res = []
        t = self.T(fr, ins["t"])
        els = [self.w.ty_(x) for x in t.d["elems"]]
        n = len(ins["states"])
        if ins["blocking"]:
            self.blocks(p, "select", ins.get("pos"))
        rt = [j for j, s in enumerate(ins["states"]) if s["dir"] == 2]
        for c in range(n if ins["blocking"] else n + 1):
            q = p.clone()
            idx = c if c < n else -1
            ok = self.fresh("ok", B)
            vals = [z3.IntVal(idx), ok]
            for m, j in enumerate(rt):
                et = els[2 + m]
                if j == c:
                    v = self.fresh("recv", self.sort(et))
                    self.fact(q.st, et, v)
                    self.assume(q.st, Implies(Not(ok), eq(v, self.zero(et))))
                    self.chan_recv(q.st, et, v, ok)
                else:
                    v = self.zero(et)
                vals.append(v)
            if c < n and ins["states"][c]["dir"] == 1:
                x = ins["states"][c]["send"]
                self.chan_send(fr, q.st, self.T(fr, x["t"]), self.val(fr, q, x), ins.get("pos"))
            q.regs[ins["reg"]] = tuple(vals)
            h = getattr(self, "on_select", None)
            if h:
                h(fr, q, ins, idx, vals)
            res.append(q)
        return res

    def do_go(self, fr, p, ins):
        call = ins["call"]
        self.notes.add("go statement: the started goroutine is verified on its own, its effects interleave only through monitors")
        fnv = self.callee(fr, p, call)
        args = [self.val(fr, p, a) for a in call["args"]]
        if "spawned" in self.sp.ghostglobals and fnv[0] == "value":
            f = self.term(fnv[1])
            self.nonnil(p.st, f, ins["pos"], "go of nil function")
            arr = self.hget(p.st, ("GG", "spawned"), z3.ArraySort(I, I))
            self.hset(p.st, ("GG", "spawned"), sto(arr, f, sel(arr, f) + 1), None)
        return [("ret", p, [])]

    # ---------------------------------------------------------------- calls
    def callee(self, fr, p, call):
        if "invoke" in call:
            return ("invoke", call["itype"], call["invoke"], self.val(fr, p, call["fn"]))
        f = call["fn"]
        if f["k"] == "builtin":
            return ("builtin", f["n"])
        if f["k"] == "func":
            targs = [self.T(fr, x) for x in f["targs"]]
            return ("static", f["n"], targs)
        return ("value", self.val(fr, p, f))

    def do_call(self, fr, p, call, rt, pos):
        fnv = self.callee(fr, p, call)
        args = [self.val(fr, p, a) if a else None for a in call["args"]]
        return self.call_value(fr, p, call, fnv, args, rt, pos)

    def restypes(self, fr, call, rt):
        sg = self.w.under(self.T(fr, call["sig"]))
        return [self.w.subst(self.w.ty_(x), fr.tenv) for x in sg.d["results"]]

    def argtypes(self, fr, call):
        return [self.T(fr, a["t"]) for a in call["args"]]

    def call_value(self, fr, p, call, fnv, args, rt, pos):
        kind = fnv[0]
        if kind == "builtin":
            return self.builtin(fr, p, fnv[1], call, args, rt, pos)
        if kind == "invoke":
            return self.invoke(fr, p, call, fnv, args, rt, pos)
        if kind == "static":
            name, targs = fnv[1], fnv[2]
            f = self.w.funcs.get(name)
            h = self.EXT.get(name)
            if h:
                return h(self, fr, p, call, args, pos)
            ct = self.sp.contracts.get(name)
            if f is None:
                if ct is None:
                    raise Unsupported("no contract for external function %s (%s)" % (name, pos))
                return self.apply_contract(fr, p, ct, None, args, {}, pos, (self.argtypes(fr, call), self.restypes(fr, call, rt)))
            tenv = {tp["n"]: ta for tp, ta in zip(f["tparams"], targs)}
            return self.call_fn(fr, p, name, f, args, (), tenv, ct, pos)
        v = fnv[1]
        if z3.is_expr(v) and str(v) in self.clos:
            v = self.clos[str(v)]
        if isinstance(v, Clo):
            f = self.w.funcs.get(v.fn)
            ct = self.sp.contracts.get(v.fn)
            if f is None:
                if ct is None:
                    raise Unsupported("no contract for external function %s (%s)" % (v.fn, pos))
                return self.apply_contract(fr, p, ct, None, args, {}, pos, (self.argtypes(fr, call), self.restypes(fr, call, rt)))
            return self.call_fn(fr, p, v.fn, f, args, v.binds, v.tenv, ct, pos)
        # a function value supplied by the caller of the verified function
        self.nonnil(p.st, v, pos, "call of nil function")
        pts = self.argtypes(fr, call)
        rts = self.restypes(fr, call, rt)
        self.notes.add("function values supplied by callers are deterministic, do not panic and do not touch the structure")
        vals = []
        h = getattr(self, "on_callback", None)
        if h:
            r = h(fr, p, v, pts, rts, args, pos)
            if r is not None:
                return r
        tr = self.sp.callbacks.get(self.w.under(self.T(fr, call["sig"])).key) or self.sp.callbacks.get("*")
        if tr and self.cb_traced(v):
            self.cb_record(p.st, v, pts, args, rts)
        for i, r in enumerate(rts):
            x = self.appuf(v, pts, r, [self.term(a) for a in args]) if len(rts) == 1 else self.uf("app%d_" % i + r.key + ",".join(q.key for q in pts), I, *[self.sort(q) for q in pts], self.sort(r))(v, *[self.term(a) for a in args])
            self.factc(p.st, r, x)
            vals.append(x)
        return [("ret", p, vals)]

    def cb_traced(self, v):
        return True

    def cb_record(self, st, v, pts, args, rts):
        """ghost log of callback invocations: how often each first argument was passed, and the last second argument with it"""
        ts = []
        for t, a in zip(pts, args):
            a = self.term(a)
            ts.append(self.box(t, a) if a.sort() != ANY else a)
        if "handed" in self.sp.ghostglobals and ts and self.w.under(pts[0]).k == "ptr":      # calls per argument object
            arr = self.hget(st, ("GG", "handed"), z3.ArraySort(I, I))
            r = self.term(args[0])
            self.hset(st, ("GG", "handed"), sto(arr, r, sel(arr, r) + 1), None)
            return
        if "ran" in self.sp.ghostglobals and not ts:      # calls per function value without arguments
            arr = self.hget(st, ("GG", "ran"), z3.ArraySort(I, I))
            r = self.term(v)
            self.hset(st, ("GG", "ran"), sto(arr, r, sel(arr, r) + 1), None)
            return
        if "callcount" in self.sp.ghostglobals and ts:
            arr = self.hget(st, ("GG", "callcount"), z3.ArraySort(ANY, I))
            self.hset(st, ("GG", "callcount"), sto(arr, ts[0], sel(arr, ts[0]) + 1), None)
        if "callval" in self.sp.ghostglobals and len(ts) > 1:
            arr = self.hget(st, ("GG", "callval"), z3.ArraySort(ANY, ANY))
            self.hset(st, ("GG", "callval"), sto(arr, ts[0], ts[1]), None)

    def call_fn(self, fr, p, name, f, args, binds, tenv, ct, pos):
        if ct is not None and not ct.inline and not (binds and not ct.trusted and "closure" not in ct.flags):
            if ct.name != self.top or True:
                return self.apply_contract(fr, p, ct, f, args, tenv, pos, None)
        self.inlined.add(name)
        if getattr(fr, "stack", ()).count(name) > 0:
            raise Unsupported("recursion without a contract: " + name)
        outs = self.run(f, args, list(binds), p.st.clone(), tenv, fr.depth + 1, fr)
        res = []
        for o in outs:
            q = p.clone() if len(outs) > 1 else p
            q.st = o.st
            res.append((o.kind, q, o.vals))
        return res

    def invoke(self, fr, p, call, fnv, args, rt, pos):
        _, it, m, recv = fnv
        nm = "iface:" + it + "." + m
        ct = self.sp.contracts.get(nm)
        rts = self.restypes(fr, call, rt)
        if ct is not None:
            self.panic_check(p.st, recv != self.nilany(), "method call on nil interface", pos)
            return self.apply_contract(fr, p, ct, None, [recv] + args, {}, pos, ([self.w.ty_(it)] + self.argtypes(fr, call), rts))
        if nm == "iface:error.Error":
            r = self.uf("errstr", ANY, STR)(recv)
            return [("ret", p, [r])]
        if nm == "iface:context.Context.Done":
            r = self.uf("ctxdone", ANY, I)(recv)
            return [("ret", p, [r])]
        raise Unsupported("no contract for interface method %s (%s)" % (nm, pos))

    # ---------------------------------------------------------------- built-ins
    def builtin(self, fr, p, n, call, args, rt, pos):
        st = p.st
        ret = lambda *v: [("ret", p, list(v))]
        if n == "ssa:deferstack":
            return ret(None)
        if n in ("print", "println"):
            return ret()
        ats = self.argtypes(fr, call)
        if n in ("len", "cap"):
            x, t = args[0], ats[0]
            u = self.w.under(t)
            if self.w.is_string(t):
                return ret(self.slen(x))
            if u.k == "slice":
                return ret(self.sg(x, 2 if n == "len" else 3))
            if u.k == "map":
                self.guarduse(p, x, pos)
                self.mapfacts(st, t, x)
                return ret(self.mlen(st, t, x))
            if u.k == "array":
                return ret(z3.IntVal(u.d["len"]))
            if u.k == "ptr":
                return ret(z3.IntVal(self.w.under(self.elem(t)).d["len"]))
            if u.k == "chan":
                r = self.fresh("chanlen", I)
                self.assume(st, And(r >= 0, r <= MAXI))
                return ret(r)
            raise Unsupported("len of " + t.key)
        if n == "append":
            return self.b_append(fr, p, args, ats, pos)
        if n == "copy":
            return self.b_copy(fr, p, args, ats, pos)
        if n == "delete":
            self.guarduse(p, args[0], pos, True)
            self.mapfacts(st, ats[0], args[0])
            self.map_del(st, ats[0], args[0], self.term(args[1]))
            return ret()
        if n == "close":
            h = getattr(self, "on_close", None)
            if h:
                h(fr, p, args[0], pos)
            return ret()
        if n in ("min", "max"):
            x = args[0]
            for y in args[1:]:
                if z3.is_bv(x):
                    raise Unsupported("min on bv")
                x = ITE(x <= y, x, y) if n == "min" else ITE(x >= y, x, y)
            return ret(x)
        if n == "clear":
            u = self.w.under(ats[0])
            if u.k == "map":
                k, kt, vt = self.mkeys(ats[0])
                self.mset(st, ats[0], args[0], z3.K(self.sort(kt), z3.BoolVal(False)), None, z3.IntVal(0))
                return ret()
        raise Unsupported("builtin " + n)

    def srcelem(self, st, v, t, i):
        """i-th element of a slice or string source"""
        if self.w.is_string(t):
            self.str_axioms()
            return self.uf("sat", STR, I, I)(v, i)
        et = self.elem(t)
        b, o, n, c = self.sliceparts(v)
        return sel(self.elems(st, et, b), add(o, i))

    def b_append(self, fr, p, args, ats, pos):
        s, t = args
        st = p.st
        et = self.elem(ats[0])
        self.guarduse(p, s, pos, False)
        b, o, n, c = self.sliceparts(s)
        if self.w.is_string(ats[1]):
            m = self.slen(t)
        else:
            tb, to, m, tc = self.sliceparts(t)
        if conc(m) and m.as_long() == 0:
            return [("ret", p, [s])]
        tot = add(n, m)
        self.assume(st, tot <= MAXI)      # a longer slice cannot exist in memory
        fits = tot <= c
        small = conc(m) and m.as_long() <= 8
        # source elements are read before anything is written
        if small:
            src = [self.srcelem(st, t, ats[1], z3.IntVal(i)) for i in range(m.as_long())]

        def written(q, arr, start):
            if small:
                for i, v in enumerate(src):
                    arr = sto(arr, add(start, z3.IntVal(i)), v)
                return arr
            new = self.fresh("app", z3.ArraySort(I, self.sort(et)))
            i = z3.Int("i")
            srcv = self.srcelem(q.st, t, ats[1], sub(i, start))
            self.assume(q.st, z3.ForAll([i], z3.Select(new, i) == z3.If(And(i >= start, i < start + m), srcv, z3.Select(arr, i)), patterns=[z3.Select(new, i)]))
            return new
        res = []
        arr0 = self.elems(st, et, b)
        q = None
        can = self.feasible(st, fits)
        must = can and not self.feasible(st, Not(fits))
        if can and not must:
            q = p.clone()
        elif can:
            q = p
        if q is not None:
            self.assume(q.st, fits)
            self.elemsset(q.st, et, b, written(q, arr0, add(o, n)))
            res.append(("ret", q, [mkslice(b, o, tot, c)]))
        if not must:
            self.assume(st, Not(fits))
            nb = self.keep(self.newref(st, "app"))
            if not (conc(o) and o.as_long() == 0):
                sh = self.fresh("shift", z3.ArraySort(I, self.sort(et)))
                i = z3.Int("i")
                self.assume(st, z3.ForAll([i], z3.Select(sh, i) == z3.Select(arr0, i + o), patterns=[z3.Select(sh, i)]))
                base = sh
            else:
                base = arr0
            self.elemsset(st, et, nb, written(p, base, n))
            nc = self.fresh("cap", I)
            self.assume(st, And(nc >= tot, nc <= MAXI))
            res.append(("ret", p, [mkslice(nb, z3.IntVal(0), tot, nc)]))
        return res

    def b_copy(self, fr, p, args, ats, pos):
        d, s = args
        st = p.st
        et = self.elem(ats[0])
        b, o, n, c = self.sliceparts(d)
        if self.w.is_string(ats[1]):
            m = self.slen(s)
        else:
            m = self.sg(s, 2)
        k = n if n.eq(m) or self.quick(st, n <= m) else m if self.quick(st, m <= n) else ITE(n <= m, n, m)
        old = self.elems(st, et, b)
        new = self.fresh("copy", z3.ArraySort(I, self.sort(et)))
        i = z3.Int("i")
        srcv = self.srcelem(st, s, ats[1], sub(i, o))
        self.assume(st, z3.ForAll([i], z3.Select(new, i) == z3.If(And(i >= o, i < o + k), srcv, z3.Select(old, i)), patterns=[z3.Select(new, i)]))
        self.elemsset(st, et, b, new)
        return [("ret", p, [k])]

    # ---------------------------------------------------------------- monitors
    def monitors_of(self, sty):
        return self.sp.monitors.get(sty.d.get("name", sty.key), [])

    def lockkey(self, sty, name, ref):
        return (sty.key, name, ref.get_id())

    def lockaddr(self, a, pos):
        if isinstance(a, Addr) and a.kind == "fld" and not a.path:
            return a.a, a.b[0], a.b[1]
        raise Unsupported("lock %r at %s" % (a, pos))

    def mon_havoc(self, fr, st, sty, ref, m):
        """other goroutines may have changed what the lock protects; returns the protected locations"""
        out = {}
        for f in m["guards"]:
            gf = self.sp.ghostfields.get((sty.d.get("name"), f))
            if gf:
                tenv = {pp: self.w.ty_(x) for pp, x in zip(self.w.decl[sty.d["name"]][0], sty.d["targs"])} if sty.d.get("targs") else {}
                gt = self.sty(gf[0], gf[1], tenv)
                key = ("G", sty.key, f)
                arr = self.hget(st, key, z3.ArraySort(I, self.sort(gt)))
                self.hset(st, key, sto(arr, ref, self.fresh("g_" + f, self.sort(gt))), ref)
                self.guarded_keys.add(key)
                out.setdefault(key, []).append(("ref", ref))
                continue
            ft = self.fieldty(sty, f)
            if self.immutable(sty, f):
                continue
            v = self.fresh("g_" + f, self.sort(ft))
            self.fact(st, ft, v, deep=True)
            self.fldset(st, sty, f, ft, ref, v)
            self.guarded_keys.add(self.fkey(sty, f))
            out.setdefault(self.fkey(sty, f), []).append(("ref", ref))
        C = Ctx(self, {m["self"]: (ref, self.w.ptr(sty))}, st, st, m["pkg"], fr.tenv)
        mods = self.eval_mods(m["own"], C, st)
        self.guarded_keys.update(mods)
        self.havoc_mods(st, mods, [], st.alloc)
        # the protected locations, as seen at the acquisition
        C = Ctx(self, {m["self"]: (ref, self.w.ptr(sty))}, st, st, m["pkg"], fr.tenv)
        for k, ms in list(mods.items()) + list(self.eval_mods(m["own"], C, st).items()):
            out.setdefault(k, []).extend(ms)
        return out

    def mon_assume(self, fr, st, sty, ref, m):
        C = Ctx(self, {m["self"]: (ref, self.w.ptr(sty))}, st, st, m["pkg"], fr.tenv)
        for inv in m["assume"]:
            self.notes.add("assumed under the lock, not checked: " + inv.src)
        for inv in m["inv"] + m["assume"]:
            self.assume(st, self.evb(inv.e, C))
            for sd in C.side:
                self.assume(st, sd)
            C.side.clear()

    def do_lock(self, fr, p, a, mode, pos):
        sty, name, ref = self.lockaddr(a, pos)
        st = p.st
        for k, m in st.locks.items():
            if k[0] == sty.key and k[1] == name:
                self.oblige(st, ref != m[1], "%s/lock-not-held-twice" % self.top, "lock", pos)
        self.flushimm(st)
        mons = [m for m in self.monitors_of(sty) if m["lock"] == name]
        if st.snap.get("nacq", 0) == 0:
            st.snap["pre"] = st.clone()
        else:
            self.stutter(st, pos)
        a0 = st.alloc
        st.alloc = self.fresh("alloc", I)
        self.assume(st, st.alloc >= a0)
        if "now" in self.sp.ghostglobals:
            key = ("GG", "now")
            o = self.hget(st, key, I)
            nn = self.fresh("now", I)
            self.assume(st, nn >= o)
            self.hset(st, key, nn)
        st.x = {k: v for k, v in st.x.items() if k[0] == "immp"}
        gm = {}
        for m in mons:
            for k, ms in self.mon_havoc(fr, st, sty, ref, m).items():
                gm.setdefault(k, []).extend(ms)
            self.mon_assume(fr, st, sty, ref, m)
        st.snap["gmods"] = gm
        self.keep(ref)
        st.locks[self.lockkey(sty, name, ref)] = (mode, ref)
        st.snap.pop("rel", None)
        st.snap["acq"] = st.clone()
        st.snap["nacq"] = st.snap.get("nacq", 0) + 1
        return [("ret", p, [])]

    def stutter(self, st, pos=None):
        """every critical section but the last leaves the protected state unchanged"""
        acq, rel = st.snap.get("acq"), st.snap.get("rel")
        if self.topc is None or "atomic" not in self.topc.flags:
            return
        if rel is None:
            self.oblige(st, z3.BoolVal(False), "%s/one-critical-section-at-a-time" % self.top, "lock", pos)
            return
        for k in self.guarded_keys:
            v, o = rel.heap.get(k), acq.heap.get(k)
            if v is None or (o is not None and v.eq(o)):
                continue
            if o is None:
                o = self.hinit(k, self.hsort(k))
            self.oblige(st, v == o, "%s/earlier-critical-section-changes-nothing" % self.top, "lock", pos)

    def do_unlock(self, fr, p, a, mode, pos):
        sty, name, ref = self.lockaddr(a, pos)
        st = p.st
        lk = None
        for k, m in st.locks.items():
            if k[0] == sty.key and k[1] == name and m[0] == mode and (m[1].eq(ref) or self.quick(st, m[1] == ref)):
                lk = k
        if lk is None:
            self.oblige(st, z3.BoolVal(False), "%s/unlock-of-held-lock" % self.top, "lock", pos)
            return [("ret", p, [])]
        self.flushimm(st)
        for m in self.monitors_of(sty):
            if m["lock"] != name:
                continue
            pt = self.w.ptr(sty)
            acq = st.snap.get("acq")
            C = Ctx(self, {m["self"]: (ref, pt)}, st, acq if acq is not None else st, m["pkg"], fr.tenv)
            # ghost updates declared for the critical section
            if self.topc is not None and fr.depth >= 0:
                for lhs, rhs in self.topc.releaseset:
                    C2 = self.topctx(p)
                    C2.old = st.snap.get("acq")
                    v, vt = self.ev(rhs, C2)
                    for sd in C2.side:
                        self.assume(st, sd)
                    C2.side.clear()
                    self.ghost_store(st, lhs, v, C2)
            for i, inv in enumerate(m["inv"]):
                g = self.evb(inv.e, C)
                self.oblige(st, g, "%s/monitor-invariant[%s]" % (self.top, inv.label or i), "inv", pos)
        del st.locks[lk]
        st.snap["rel"] = st.clone()
        return [("ret", p, [])]

    def guard(self, p, a, write, pos):
        """access to a lock-protected field"""
        if a.kind != "fld":
            return
        sty = a.a
        mons = self.sp.monitors.get(sty.d.get("name", sty.key))
        if not mons:
            return
        for m in mons:
            if a.b[0] in m["guards"]:
                ref = a.b[1]
                if str(ref) in self.freshrefs and z3.is_const(ref):
                    return
                for k, lk in p.st.locks.items():
                    if k[0] == sty.key and k[1] == m["lock"] and (lk[1].eq(ref) or self.quick(p.st, lk[1] == ref)):
                        if write and lk[0] != "w":
                            self.oblige(p.st, z3.BoolVal(False), "%s/write-needs-write-lock[%s]" % (self.top, a.b[0]), "lock", pos)
                        return
                self.oblige(p.st, z3.BoolVal(False), "%s/guarded-access-needs-lock[%s]" % (self.top, a.b[0]), "lock", pos)
                return

    def guardrec(self, p, a, v):
        if a.kind != "fld" or not z3.is_expr(v):
            return
        sty = a.a
        mons = self.sp.monitors.get(sty.d.get("name", sty.key))
        if not mons:
            return
        for m in mons:
            if a.b[0] in m["guards"] and (v.sort() == SLICE or (v.sort() == I and self.w.under(a.ty).k == "map")):
                p.st.x[("guse", v.get_id())] = (v, sty.key, m["lock"], a.b[1])

    def guarduse(self, p, v, pos, write=False):
        if not z3.is_expr(v):
            return
        g = p.st.x.get(("guse", v.get_id()))
        if g is None:
            return
        ref = g[3]
        if str(ref) in self.freshrefs and z3.is_const(ref):
            return
        for k, lk in p.st.locks.items():
            if k[0] == g[1] and k[1] == g[2] and lk[1].eq(ref):
                if write and lk[0] != "w":
                    self.oblige(p.st, z3.BoolVal(False), "%s/write-needs-write-lock" % self.top, "lock", pos)
                return
        self.oblige(p.st, z3.BoolVal(False), "%s/guarded-contents-need-lock" % self.top, "lock", pos)

    # ---------------------------------------------------------------- externals handled natively
    EXT = {}


def ext(*names):
    def deco(f):
        for n in names:
            Instr.EXT[n] = f
        return f
    return deco


@ext("math/bits.Len64", "math/bits.Len32", "math/bits.Len")
def _bitlen(e, fr, p, call, args, pos):
    """exact: the number of bits of the argument"""
    x = args[0]
    if not z3.is_bv(x):
        r = e.uf("bitlen", I, I)(x)
        e.assume(p.st, And(r >= 0, r <= 64, Implies(x == 0, r == 0), Implies(x > 0, r > 0)))
        return [("ret", p, [r])]
    n = x.sort().size()
    r = z3.BitVecVal(0, 64)
    for k in range(n):
        r = z3.If(z3.UGE(x, z3.BitVecVal(1 << k, n)), z3.BitVecVal(k + 1, 64), r)
    return [("ret", p, [r])]


@ext("sync.Mutex.Lock", "sync.RWMutex.Lock")
def _lock(e, fr, p, call, args, pos):
    return e.do_lock(fr, p, args[0], "w", pos)


@ext("sync.RWMutex.RLock")
def _rlock(e, fr, p, call, args, pos):
    return e.do_lock(fr, p, args[0], "r", pos)


@ext("sync.Mutex.Unlock", "sync.RWMutex.Unlock")
def _unlock(e, fr, p, call, args, pos):
    return e.do_unlock(fr, p, args[0], "w", pos)


@ext("sync.RWMutex.RUnlock")
def _runlock(e, fr, p, call, args, pos):
    return e.do_unlock(fr, p, args[0], "r", pos)


@ext("sort.Slice", "sort.SliceStable")
def _sortslice(e, fr, p, call, args, pos):
    """the elements are permuted so that less(j, i) holds for no i < j; less must be a strict weak order on valid indices"""
    st = p.st
    bx = args[0]
    if not (z3.is_app(bx) and bx.decl().name().startswith("box_") and bx.num_args() == 1):
        raise Unsupported("sort.Slice of an unknown slice")
    sl = bx.arg(0)
    if e.symoff(sl):
        raise Unsupported("sort.Slice of a slice with an offset")
    t = e.w.ty_(bx.decl().name()[4:])
    et = e.elem(t)
    base, n = e.sg(sl, 0), e.sg(sl, 2)
    e.flushimm(st)
    old = e.elems(st, et, base)
    e.trusted_used.add("contract sort.Slice")
    less = args[1]
    if z3.is_expr(less) and str(less) in e.clos:
        less = e.clos[str(less)]
    if not isinstance(less, Clo):
        raise Unsupported("sort.Slice with an unknown order")
    new = e.fresh("sorted", old.sort())
    k = e.ctr
    perm, inv = z3.Function("perm!%d" % k, I, I), z3.Function("inv!%d" % k, I, I)
    i, j = z3.Ints("si sj")
    e.assume(st, z3.ForAll([i], z3.If(And(i >= 0, i < n), And(perm(i) >= 0, perm(i) < n, z3.Select(new, i) == sel(old, perm(i)), inv(perm(i)) == i), z3.Select(new, i) == sel(old, i)), patterns=[z3.Select(new, i)]))
    e.assume(st, z3.ForAll([j], Implies(And(j >= 0, j < n), And(inv(j) >= 0, inv(j) < n, perm(inv(j)) == j, z3.Select(new, inv(j)) == sel(old, j))), patterns=[sel(old, j)]))
    e.elemsset(st, et, base, new)

    def evalless(q, x, y):
        """less(x, y) in q: [(path, branch conditions, facts and discharged obligations, value)]"""
        q = q.clone()
        m = len(q.st.pc)
        q.st.x = {k: v for k, v in q.st.x.items() if k[0] != "br"}
        out = []
        e.brtrack = True
        for kind, r, vals in e.call_fn(fr, q, less.fn, e.w.funcs[less.fn], [x, y], less.binds, less.tenv, None, pos):
            if kind != "ret":
                e.oblige(r.st, z3.BoolVal(False), "%s/sort-order-does-not-panic" % e.top, "panic", pos)
                continue
            br = [v for k, v in r.st.x.items() if k[0] == "br"]
            out.append((r, br, r.st.pc[m:], vals[0]))
        e.brtrack = False
        return out
    a, b, c = e.fresh("sa", I), e.fresh("sb", I), e.fresh("sc", I)
    q = p.clone()
    e.assume(q.st, And(a >= 0, a < n, b >= 0, b < n, c >= 0, c < n))
    ab = evalless(q, a, b)
    for r1, _, _, vab in ab:
        for r2, _, _, vbc in evalless(r1, b, c):
            for r3, _, _, vac in evalless(r2, a, c):
                e.oblige(r3.st, And(Implies(And(vab, vbc), vac), Implies(vac, Or(vab, vbc))), "%s/sort-order-is-strict-weak" % e.top, "pre", pos)
        for r2, _, _, vba in evalless(r1, b, a):
            e.oblige(r2.st, Not(And(vab, vba)), "%s/sort-order-is-strict-weak" % e.top, "pre", pos)
    sub = lambda t: z3.substitute(t, (a, j), (b, i))
    e.assume(st, z3.ForAll([i, j], Implies(And(i >= 0, i < j, j < n), And(*[Implies(sub(And(*br)) if br else z3.BoolVal(True), And(*[sub(x) for x in ex], Not(sub(v)))) for _, br, ex, v in ab])),
                           patterns=[z3.MultiPattern(z3.Select(new, i), z3.Select(new, j))]))
    return [("ret", p, [])]


def _atomic_ty(e, fr, call, i=0):
    return e.elem(e.T(fr, call["args"][i]["t"]))


@ext("sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "sync/atomic.LoadPointer", "sync/atomic.LoadUint64", "sync/atomic.LoadUint32")
def _aload(e, fr, p, call, args, pos):
    t = _atomic_ty(e, fr, call)
    return [("ret", p, [e.atomic_load(fr, p, args[0], t, pos)])]


@ext("sync/atomic.StoreInt64", "sync/atomic.StoreInt32", "sync/atomic.StorePointer", "sync/atomic.StoreUint64")
def _astore(e, fr, p, call, args, pos):
    t = _atomic_ty(e, fr, call)
    e.atomic_store(fr, p, args[0], args[1], t, pos)
    return [("ret", p, [])]


@ext("sync/atomic.SwapInt64", "sync/atomic.SwapInt32", "sync/atomic.SwapPointer")
def _aswap(e, fr, p, call, args, pos):
    t = _atomic_ty(e, fr, call)
    v = e.atomic_load(fr, p, args[0], t, pos)
    e.atomic_store(fr, p, args[0], args[1], t, pos)
    return [("ret", p, [v])]


@ext("sync/atomic.AddInt64", "sync/atomic.AddInt32", "sync/atomic.AddUint64", "sync/atomic.AddUint32")
def _aadd(e, fr, p, call, args, pos):
    t = _atomic_ty(e, fr, call)
    v = e.wrap(p.st, t, add(e.atomic_load(fr, p, args[0], t, pos), args[1]))
    e.atomic_store(fr, p, args[0], v, t, pos)
    return [("ret", p, [v])]


@ext("sync/atomic.CompareAndSwapInt32", "sync/atomic.CompareAndSwapInt64", "sync/atomic.CompareAndSwapPointer")
def _acas(e, fr, p, call, args, pos):
    t = _atomic_ty(e, fr, call)
    v = e.atomic_load(fr, p, args[0], t, pos)
    old = e.term(args[1])
    c = eq(e.term(v), old)
    q = p.clone()
    e.assume(q.st, Not(c))
    e.assume(p.st, c)
    e.atomic_store(fr, p, args[0], args[2], t, pos)
    return [("ret", p, [z3.BoolVal(True)]), ("ret", q, [z3.BoolVal(False)])]


def _atomic_load(self, fr, p, a, t, pos):
    vol = self.volatile_of(a)
    if vol is not None and not (z3.is_const(a.b[1]) and str(a.b[1]) in self.freshrefs):
        v = self.fresh("volatile", self.sort(t))
        self.fact(p.st, t, v)
        if vol[4]:
            # the field points to the object whose lock protects it; nil in this goroutine's view: nobody else changes it
            cur = self.loadfrom_raw(p, a)
            self.assume(p.st, Implies(cur == 0, v == 0))
            for k, lk in p.st.locks.items():
                if k[0] == vol[4]:
                    self.assume(p.st, (v == lk[1]) == (cur == lk[1]))
            self.storeto(fr, p, a, v, t, pos, True)      # what was seen last
        g = self.volatile_cond(fr, p, a, v, t, vol)
        if g is not None:
            self.assume(p.st, g)
        return v
    return self.loadfrom(fr, p, a, t, pos)


def _atomic_store(self, fr, p, a, v, t, pos):
    vol = self.volatile_of(a)
    if vol is not None:
        g = self.volatile_cond(fr, p, a, self.term(v), t, vol)
        if g is not None:
            self.flushimm(p.st)
            self.oblige(p.st, g, "%s/shared-field[%s]" % (self.top, a.b[0]), "inv", pos)
        if vol[4]:
            cur = self.loadfrom_raw(p, a)
            mine = [lk[1] for k, lk in p.st.locks.items() if k[0] == vol[4]]
            for x, what in ((cur, "leaves"), (self.term(v), "enters")):
                self.oblige(p.st, Or(x == 0, *[x == m for m in mine]), "%s/shared-field-%s-only-under-its-lock[%s]" % (self.top, what, a.b[0]), "lock", pos)
            self.storeto(fr, p, a, v, t, pos, True)
        return
    self.storeto(fr, p, a, v, t, pos)


def _volatile_of(self, a):
    if isinstance(a, Addr) and a.kind == "fld" and not a.path:
        return self.sp.volatile.get(a.a.d.get("name", a.a.key) + "." + a.b[0])
    return None


def _volatile_cond(self, fr, p, a, v, t, vol):
    if vol[2] is None:
        return None
    C = Ctx(self, {vol[0]: (a.b[1], self.w.ptr(a.a)), vol[1]: (v, t)}, p.st, p.st, vol[3], fr.tenv)
    return self.evb(vol[2], C)


def _volatile_plain(self, p, a, pos):
    """shared fields are accessed by atomic operations only, except before the object is published"""
    if self.volatile_of(a) is not None and not (z3.is_const(a.b[1]) and str(a.b[1]) in self.freshrefs):
        self.oblige(p.st, z3.BoolVal(False), "%s/atomic-access[%s]" % (self.top, a.b[0]), "lock", pos)


Instr.atomic_load, Instr.atomic_store, Instr.volatile_of, Instr.volatile_cond, Instr.volatile_plain = _atomic_load, _atomic_store, _volatile_of, _volatile_cond, _volatile_plain
