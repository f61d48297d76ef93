"""Verification-condition generator: symbolic execution of the exported go/ssa form of /repo's functions,
modular at contracts, loops cut at invariants."""
import itertools
import re
import time as _time
import z3
from .ty import World, Ty, INT_RANGES
from . import speclang as SL


class Unsupported(Exception):
    pass


I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
STR = z3.DeclareSort("Str")
ANY = z3.DeclareSort("Any")
SLICE = z3.Datatype("Slice")
SLICE.declare("mkslice", ("base", I), ("off", I), ("len", I), ("cap", I))
SLICE = SLICE.create()
mkslice, s_base, s_off, s_len, s_cap = SLICE.mkslice, SLICE.base, SLICE.off, SLICE.len, SLICE.cap
T_INT = Ty("basic", "int", {"k": "basic", "name": "int"})
T_BOOL = Ty("basic", "bool", {"k": "basic", "name": "bool"})
T_STR = Ty("basic", "string", {"k": "basic", "name": "string"})
T_REAL = Ty("basic", "float64", {"k": "basic", "name": "float64"})
T_MATH = Ty("math", "mathint", {"k": "math"})
T_NIL = Ty("nil", "nil", {"k": "nil"})
T_ANY = Ty("iface", "any", {"k": "iface"})
MAXI = (1 << 63) - 1


def conc(t):
    return z3.is_int_value(t)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return z3.BoolVal(False)
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return z3.BoolVal(True)
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def ITE(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    return a == b


def lin(t):
    """linear normal form of an Int term: (const, {id: (term, coeff)}) -- shallow"""
    if z3.is_int_value(t):
        return t.as_long(), {}
    if z3.is_add(t):
        c, m = 0, {}
        for ch in t.children():
            c2, m2 = lin(ch)
            c += c2
            for k, (tt, co) in m2.items():
                if k in m:
                    m[k] = (tt, m[k][1] + co)
                else:
                    m[k] = (tt, co)
        return c, {k: v for k, v in m.items() if v[1] != 0}
    if z3.is_sub(t):
        ch = t.children()
        c, m = lin(ch[0])
        m = dict(m)
        for x in ch[1:]:
            c2, m2 = lin(x)
            c -= c2
            for k, (tt, co) in m2.items():
                if k in m:
                    m[k] = (tt, m[k][1] - co)
                else:
                    m[k] = (tt, -co)
        return c, {k: v for k, v in m.items() if v[1] != 0}
    if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        k0 = t.arg(0).as_long()
        c, m = lin(t.arg(1))
        return c * k0, {k: (tt, co * k0) for k, (tt, co) in m.items()}
    return 0, {t.get_id(): (t, 1)}


def unlin(c, m):
    ts = []
    for tt, co in m.values():
        ts.append(tt if co == 1 else z3.IntVal(co) * tt)
    if not ts:
        return z3.IntVal(c)
    r = ts[0] if len(ts) == 1 else z3.Sum(ts)
    return r + c if c else r


def norm(t):
    if z3.is_const(t):
        return t
    return unlin(*lin(t))


def add(a, b):
    return norm(a + b)


def sub(a, b):
    return norm(a - b)


def diff_const(a, b):
    """a-b when that is a known constant"""
    if a.eq(b):
        return 0
    c, m = lin(a - b)
    return c if not m else None


def sel(a, i):
    """select with read-over-write simplification"""
    while True:
        if z3.is_store(a):
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            if j.sort() == I:
                d = diff_const(i, j)
                if d is not None:
                    if d == 0:
                        return a.arg(2)
                    a = a.arg(0)
                    continue
            return z3.Select(a, i)
        if z3.is_const_array(a):
            return a.arg(0)
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and z3.is_const_array(a.arg(1)):
            return z3.Select(a, i)
        return z3.Select(a, i)


def sto(a, i, v):
    if z3.is_store(a) and a.arg(1).eq(i):
        a = a.arg(0)
    if z3.is_select(v) and v.arg(0).eq(a) and v.arg(1).eq(i):
        return a
    return z3.Store(a, i, v)


class Addr:
    """A non-first-class address: a root plus a path into a struct/array value."""
    __slots__ = ("kind", "a", "b", "ty", "path")

    def __init__(self, kind, a, b, ty, path=()):
        # kind: cell(reg,None) fld(structTy,(name,ref)) elem(base,idx) ref(ref,None) glob(name,None)
        self.kind, self.a, self.b, self.ty, self.path = kind, a, b, ty, path


class Clo:
    """a function value known statically"""
    __slots__ = ("fn", "tenv", "binds", "term", "targs")

    def __init__(self, fn, tenv, binds, term):
        self.fn, self.tenv, self.binds, self.term = fn, tenv, binds, term


class Iter:
    __slots__ = ("m", "ty", "dom0", "reg", "isstr")

    def __init__(self, m, ty, dom0, reg, isstr=False):
        self.m, self.ty, self.dom0, self.reg, self.isstr = m, ty, dom0, reg, isstr


class State:
    __slots__ = ("pc", "heap", "alloc", "nn", "locks", "snap", "x", "log")

    def __init__(self):
        self.pc, self.heap, self.alloc, self.nn = [], {}, None, set()
        self.locks, self.snap, self.x = {}, {}, {}
        self.log = []

    def clone(self):
        s = State()
        s.pc, s.heap, s.alloc, s.nn = list(self.pc), dict(self.heap), self.alloc, set(self.nn)
        s.locks, s.snap, s.x = dict(self.locks), dict(self.snap), dict(self.x)
        s.log = list(self.log)
        return s


class Path:
    __slots__ = ("st", "regs", "cells", "defers", "block", "idx", "prev", "loops", "panicking")

    def clone(self):
        p = Path()
        p.st = self.st.clone()
        p.regs, p.cells, p.defers = dict(self.regs), dict(self.cells), list(self.defers)
        p.block, p.idx, p.prev, p.loops = self.block, self.idx, self.prev, dict(self.loops)
        p.panicking = self.panicking
        return p


class Fn:
    """one activation's static data"""

    def __init__(self, eng, f, tenv):
        self.f, self.tenv = f, tenv
        self.name = f["name"]
        self.blocks = {b["i"]: b for b in f["blocks"]}
        self.loops = eng.natural_loops(f)


class Oblig:
    __slots__ = ("name", "pc", "goal", "kind", "fn", "status", "backend", "t", "model", "pos", "ggoal", "marks")

    def __init__(self, name, pc, goal, kind, fn, pos=""):
        self.name, self.pc, self.goal, self.kind, self.fn = name, pc, goal, kind, fn
        self.status = self.ggoal = self.marks = self.backend = self.model = None
        self.t = 0.0
        self.pos = pos


class Engine:
    def __init__(self, world, specs, mode="int"):
        self.w, self.sp, self.mode = world, specs, mode
        self.ctr = 0
        self.serial = {}
        self.sorts = {}
        self.structs = {}
        self.ufs = {}
        self.uf_axioms = {}
        self.obs = []
        self.dry = 0
        self.wlog = None
        self.init_heap = {}
        self.freshrefs = set()
        self.clos = {}
        self.closid = {}
        self.strs = {}
        self.top = None
        self.toppkg = ""
        self.trusted_used = set()
        self.called = set()
        self.inlined = set()
        self.arith_ids = set()
        self.quick_n = 0
        self.quick_t = 0.0
        self.funname_seen = {}
        self.bg = []          # background facts (ground or quantified) always included
        self.carrs = {}
        self.bgseen = set()
        self.solver_cache = None
        self.immut = specs.immutable
        self.npaths = 0
        self.notes = set()
        self.type_axioms = {}
        self.lemma_used = set()
        self.unsup = []
        self._keep = []
        self.absc = {}
        self.sfseen = {}
        self.guarded_keys = set()
        self.topc = None

    # ------------------------------------------------------------ sorts
    def fresh(self, name, sort):
        self.ctr += 1
        n = "%s!%d" % (name, self.ctr)
        c = z3.Const(n, sort)
        self.serial[n] = self.ctr
        return c

    def sort(self, t):
        s = self.sorts.get(t.key)
        if s is None:
            s = self._sort(t)
            self.sorts[t.key] = s
        return s

    def _sort(self, t):
        w = self.w
        if t.k == "math":
            return I
        if t.k == "fn":
            return z3.ArraySort(self.sort(t.d["key_t"]), self.sort(t.d["elem_t"]))
        if t.k == "tparam":
            return z3.DeclareSort(t.key)
        if t.key == "time.Time":
            return I
        if w.is_iface(t):
            return ANY
        ii = w.intinfo(t)
        if ii:
            return z3.BitVecSort(ii[1]) if self.mode == "bv" else I
        if w.is_float(t):
            return R
        if w.is_string(t):
            return STR
        if w.is_bool(t):
            return B
        u = w.under(t)
        if u.k in ("ptr", "map", "chan", "func", "nil"):
            return I
        if u.k == "basic":
            return I       # unsafe.Pointer, untyped nil
        if u.k == "slice":
            return SLICE
        if u.k == "array":
            return z3.ArraySort(I, self.sort(w.ty_(u.d["elem"])))
        if u.k == "struct":
            fs = w.fields(t)
            nm = "S_" + t.key
            dt = z3.Datatype(nm)
            dt.declare("mk_" + t.key, *[("f_" + t.key + "." + n, self.sort(ft)) for n, ft in fs] or [("f_unit" + t.key, I)])
            dt = dt.create()
            self.structs[t.key] = dt
            return dt
        return I           # opaque external named types

    def opaque(self, t):
        """external named struct treated as an opaque value"""
        return t.k == "named" and (t.d.get("opaque") or t.key == "time.Time") and self.w.under(t).k != "struct"

    def hstruct(self, t):
        """struct type whose objects live field by field in the heap"""
        return self.w.under(t).k == "struct" and t.key != "time.Time" and not self.opaque(t)

    def sget(self, t, i, v):
        s = self.sort(t)
        acc = s.accessor(0, i)
        if z3.is_app(v) and v.decl().eq(s.constructor(0)):
            return v.arg(i)
        return acc(v)

    def smk(self, t, vals):
        s = self.sort(t)
        if not vals:
            vals = [z3.IntVal(0)]
        return s.constructor(0)(*vals)

    def supd(self, t, i, v, nv):
        n = len(self.w.fields(t))
        return self.smk(t, [nv if j == i else self.sget(t, j, v) for j in range(n)])

    def zero(self, t):
        w = self.w
        s = self.sort(t)
        if t.key == "time.Time":
            return z3.IntVal(-62135596800 * 10**9)
        if s == I:
            return z3.IntVal(0)
        if s == B:
            return z3.BoolVal(False)
        if s == R:
            return z3.RealVal(0)
        if s == STR:
            return self.strconst(b"")
        if s == ANY:
            return self.nilany()
        if s == SLICE:
            return mkslice(z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), z3.IntVal(0))
        if z3.is_bv_sort(s):
            return z3.BitVecVal(0, s.size())
        if isinstance(s, z3.ArraySortRef):
            u = w.under(t)
            e = u.d["elem_t"] if t.k == "fn" else w.ty_(u.d["elem"])
            return self.constarr(s.domain(), self.zero(e))
        if isinstance(s, z3.DatatypeSortRef):
            return self.smk(t, [self.zero(ft) for _, ft in w.fields(t)])
        return z3.Const("zero_" + t.key, s)

    def constarr(self, dom, v):
        """The array that is v everywhere; named when v is not a literal, as cvc5 wants literals."""
        if z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v) or z3.is_rational_value(v) or z3.is_bv_value(v):
            return z3.K(dom, v)
        key = ("constarr", str(dom), v.sexpr())
        if key not in self.carrs:
            a = z3.Const("const_%d_%s" % (len(self.carrs), re.sub(r"[^A-Za-z0-9]", "_", str(v.sort()))), z3.ArraySort(dom, v.sort()))
            x = z3.Const("x", dom)
            self.bg.append(z3.ForAll([x], a[x] == v, patterns=[a[x]]))
            self.carrs[key] = a
        return self.carrs[key]

    def nilany(self):
        return z3.Const("nilany", ANY)

    # ------------------------------------------------------------ functions (uninterpreted), strings, interfaces
    def uf(self, name, *sig):
        k = name + "|" + "|".join(str(x) for x in sig)
        f = self.ufs.get(k)
        if f is None:
            f = z3.Function(name, *sig)
            self.ufs[k] = f
        return f

    def strconst(self, b):
        if isinstance(b, str):
            b = b.encode("latin1")
        c = self.strs.get(b)
        if c is None:
            c = z3.Const("str_" + "".join(chr(x) if chr(x).isalnum() and x < 128 else "_%02x" % x for x in b), STR)
            self.strs[b] = c
            self.bgadd(self.slen(c) == len(b))
            sat = self.uf("sat", STR, I, I)
            for i, x in enumerate(b[:40]):
                self.bgadd(sat(c, z3.IntVal(i)) == x)
            for o, oc in self.strs.items():
                if o != b and len(o) == len(b):
                    self.bgadd(c != oc)
            if "runeax" in self.bgseen:
                self.runeconst(b)
        return c

    def runeconst(self, b):
        """the characters of a string constant"""
        try:
            t = b.decode("utf-8")
        except UnicodeDecodeError:
            return
        c = self.strs[b]
        self.bgadd(self.uf("utf8", STR, B)(c))
        self.bgadd(self.uf("runecount", STR, I)(c) == len(t))
        for i, x in enumerate(t[:40]):
            self.bgadd(self.uf("str2runes", STR, z3.ArraySort(I, I))(c)[z3.IntVal(i)] == ord(x))

    def slen(self, s):
        f = self.uf("slen", STR, I)
        if "slen" not in self.bgseen:
            self.bgseen.add("slen")
            x = z3.Const("x", STR)
            self.bg.append(z3.ForAll([x], And(f(x) >= 0, f(x) <= MAXI), patterns=[f(x)]))
            self.bg.append(z3.ForAll([x], Implies(f(x) == 0, x == self.strconst(b"")), patterns=[f(x)]))
        return f(s)

    def bgadd(self, f):
        if f.get_id() not in self.bgseen:
            self.bgseen.add(f.get_id())
            self.bg.append(f)

    def tag(self, t):
        return z3.IntVal(self.closid.setdefault("tag:" + t.key, len(self.closid) + 1))

    def box(self, t, v):
        """MakeInterface"""
        s = self.sort(t)
        mk = self.uf("box_" + t.key, s, ANY)
        un = self.uf("unbox_" + t.key, ANY, s)
        ty = self.uf("typeof", ANY, I)
        k = "boxax_" + t.key
        if k not in self.bgseen:
            self.bgseen.add(k)
            x = z3.Const("x", s)
            self.bg.append(z3.ForAll([x], And(un(mk(x)) == x, mk(x) != self.nilany(), ty(mk(x)) == self.tag(t)), patterns=[mk(x)]))
        return mk(v)

    def unbox(self, t, v):
        self.box(t, self.zero(t))
        return self.uf("unbox_" + t.key, ANY, self.sort(t))(v)

    def typeof(self, v):
        return self.uf("typeof", ANY, I)(v)

    # ------------------------------------------------------------ heap
    def hinit(self, key, sort):
        c = self.init_heap.get(key)
        if c is None:
            c = z3.Const("H0_" + "_".join(str(k) for k in key), sort)
            self.serial[str(c)] = 0
            self.init_heap[key] = c
        return c

    def hsort(self, key):
        return self._hs[key]

    _hs = {}

    def hget(self, st, key, sort):
        self._hs[key] = sort
        v = st.heap.get(key) if st is not None else None
        if v is None:
            v = self.hinit(key, sort)
        return v

    def hset(self, st, key, v, ref=None):
        st.heap[key] = v
        if self.wlog is not None:
            self.wlog.append((key, ref))

    def fkey(self, sty, fname):
        return ("F", sty.key, fname)

    def flushimm(self, st, callee=None):
        """fields of objects under construction keep their zero value from here on; a callee in another package cannot name the types of this one"""
        for k in [k for k in st.x if k[0] == "immp"]:
            if callee is not None and callee.pkg != self.toppkg and k[2].startswith(self.toppkg + "."):
                continue
            if callee is not None and "atomic" not in callee.flags and k[3] not in self.mentions(callee):
                continue
            sty, fty, ref = st.x.pop(k)
            f = self.uf("imm_" + sty.key + "." + k[3], I, self.sort(fty))
            self.assume(st, f(ref) == self.zero(fty))

    def fld(self, st, sty, fname, fty, ref):
        if st is not None and ("immp", str(ref), sty.key, fname) in st.x:
            return self.zero(fty)
        if (sty.d.get("name", sty.key) + "." + fname) in self.immut:
            return self.uf("imm_" + sty.key + "." + fname, I, self.sort(fty))(ref)
        return sel(self.hget(st, self.fkey(sty, fname), z3.ArraySort(I, self.sort(fty))), ref)

    def fldset(self, st, sty, fname, fty, ref, v):
        if (sty.d.get("name", sty.key) + "." + fname) in self.immut:
            f = self.uf("imm_" + sty.key + "." + fname, I, self.sort(fty))
            pk = ("immp", str(ref), sty.key, fname)
            if pk not in st.x:
                raise Unsupported("write to immutable field %s.%s outside construction" % (sty.key, fname))
            del st.x[pk]
            self.assume(st, f(ref) == v)
            return
        key = self.fkey(sty, fname)
        a = self.hget(st, key, z3.ArraySort(I, self.sort(fty)))
        self.hset(st, key, sto(a, ref, v), ref)

    def faddr(self, sty, fname, ref):
        """address of a struct-typed field of a heap object"""
        f = self.uf("faddr_" + sty.key + "." + fname, I, I)
        inv = self.uf("faddrinv_" + sty.key + "." + fname, I, I)
        own = self.uf("own", I, I)
        tagf = self.uf("atag", I, I)
        k = "faddr_" + sty.key + fname
        if k not in self.bgseen:
            self.bgseen.add(k)
            x = z3.Int("x")
            n = len(self.bgseen) + 1
            self.bg.append(z3.ForAll([x], And(inv(f(x)) == x, f(x) < 0, own(f(x)) == own(x), tagf(f(x)) == n), patterns=[f(x)]))
        self.own_axiom()
        return f(ref)

    def own_axiom(self):
        self.notes.add("faddr")
        if "own_axiom" not in self.bgseen:
            self.bgseen.add("own_axiom")
            own, tagf, x = self.uf("own", I, I), self.uf("atag", I, I), z3.Int("x")
            self.bg.append(z3.ForAll([x], Implies(x >= 0, And(own(x) == x, tagf(x) == 0)), patterns=[own(x)]))

    def isalloc(self, ref, alloc):
        if "faddr" in self.notes:
            own = self.uf("own", I, I)
            return z3.If(ref >= 0, ref < alloc, own(ref) < alloc)
        return ref < alloc

    def ekey(self, ety):
        return ("E", ety.key)

    def elems(self, st, ety, base):
        return sel(self.hget(st, self.ekey(ety), z3.ArraySort(I, z3.ArraySort(I, self.sort(ety)))), base)

    def elemsset(self, st, ety, base, arr):
        key = self.ekey(ety)
        a = self.hget(st, key, z3.ArraySort(I, z3.ArraySort(I, self.sort(ety))))
        self.hset(st, key, sto(a, base, arr), base)

    def newref(self, st, what="ref"):
        r = self.fresh(what, I)
        self.freshrefs.add(str(r))
        self.assume(st, r == st.alloc)
        self.assume(st, r > 0)
        st.alloc = norm(r + 1)
        st.nn.add(r.get_id())
        return r

    # maps
    def mkeys(self, mt):
        u = self.w.under(mt)
        kt, vt = self.w.ty_(u.d["key"]), self.w.ty_(u.d["elem"])
        return u.key, kt, vt

    def mdom(self, st, mt, m):
        k, kt, vt = self.mkeys(mt)
        return sel(self.hget(st, ("MD", k), z3.ArraySort(I, z3.ArraySort(self.sort(kt), B))), m)

    def mval(self, st, mt, m):
        k, kt, vt = self.mkeys(mt)
        return sel(self.hget(st, ("MV", k), z3.ArraySort(I, z3.ArraySort(self.sort(kt), self.sort(vt)))), m)

    def mlen(self, st, mt, m):
        k, kt, vt = self.mkeys(mt)
        return sel(self.hget(st, ("ML", k), z3.ArraySort(I, I)), m)

    def mset(self, st, mt, m, dom=None, val=None, ln=None):
        k, kt, vt = self.mkeys(mt)
        for nm, v, s in (("MD", dom, z3.ArraySort(I, z3.ArraySort(self.sort(kt), B))),
                         ("MV", val, z3.ArraySort(I, z3.ArraySort(self.sort(kt), self.sort(vt)))), ("ML", ln, z3.ArraySort(I, I))):
            if v is not None:
                a = self.hget(st, (nm, k), s)
                self.hset(st, (nm, k), sto(a, m, v), m)

    def mapfacts(self, st, mt, m):
        """facts every Go map satisfies"""
        dom = self.mdom(st, mt, m)
        ln = self.mlen(st, mt, m)
        k, kt, vt = self.mkeys(mt)
        key = ("mf", dom.get_id(), ln.get_id(), m.get_id())
        if key in st.x:
            return
        st.x[key] = True
        x = z3.Const("mk", self.sort(kt))
        if not z3.is_store(dom) and not z3.is_const_array(dom):
            try:
                z3.ForAll([x], z3.Select(dom, x), patterns=[z3.Select(dom, x)])
            except z3.Z3Exception:      # a term that cannot be part of a pattern gets a name
                d2 = self.fresh("mdom", dom.sort())
                self.assume(st, d2 == dom)
                dom = d2
        self.assume(st, And(ln >= 0, ln <= MAXI))
        self.assume(st, Implies(ln == 0, z3.ForAll([x], Not(z3.Select(dom, x)), patterns=[z3.Select(dom, x)])) if not z3.is_store(dom) and not z3.is_const_array(dom) else z3.BoolVal(True))
        self.assume(st, Implies(m == 0, And(ln == 0, z3.ForAll([x], Not(z3.Select(dom, x)), patterns=[z3.Select(dom, x)]) if not z3.is_store(dom) and not z3.is_const_array(dom) else z3.BoolVal(True))))

    # ------------------------------------------------------------ assumptions and obligations
    def assume(self, st, f):
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(st, c)
            return
        st.pc.append(f)

    def oblige(self, st, goal, name, kind="assert", pos=""):
        if self.dry:
            self.assume(st, goal)
            return
        if z3.is_and(goal) and kind in ("ensures", "inv", "pre"):
            pass
        o = Oblig(name, list(st.pc), goal, kind, self.top, pos)
        self.obs.append(o)
        self.assume(st, goal)

    def fact(self, st, t, v, deep=False):
        """facts that hold for every well-typed value"""
        w = self.w
        if isinstance(v, (Addr, Clo, Iter, tuple)):
            return v
        s = v.sort()
        if s == I:
            if t.k == "math":
                return v
            if t.key == "time.Time":
                if not conc(v):
                    self.assume(st, And(v >= -(1 << 66), v <= (1 << 62)))
                return v
            ii = w.intinfo(t)
            if ii:
                if not conc(v):
                    lo, hi = irange(ii)
                    self.assume(st, And(v >= lo, v <= hi))
            elif t.k == "named" and self.opaque(t):
                pass
            else:
                u = w.under(t)
                if u.k == "ptr":
                    if not conc(v):
                        self.assume(st, self.isalloc(v, st.alloc))
                        if not self.hstruct(w.ty_(u.d["elem"])) or "faddr" not in self.notes:
                            self.assume(st, v >= 0)
                elif u.k in ("map", "chan", "func"):
                    if not conc(v):
                        self.assume(st, And(v >= 0, v < st.alloc if u.k != "func" else z3.BoolVal(True)))
                    if u.k == "map":
                        self.mapfacts(st, t, v)
        elif s == SLICE:
            if z3.is_app(v) and v.decl().eq(SLICE.constructor(0)) and v.num_args() == 4:
                return v
            self.assume(st, And(s_base(v) >= 0, s_base(v) < st.alloc, s_off(v) == 0, s_len(v) >= 0, s_len(v) <= s_cap(v), s_cap(v) <= MAXI,
                                Implies(s_base(v) == 0, s_cap(v) == 0)))
        elif deep and isinstance(s, z3.DatatypeSortRef):
            for i, (_, ft) in enumerate(w.fields(t)):
                self.fact(st, ft, self.sget(t, i, v), True)
        return v

    # quick entailment on the ground part of the path condition
    def quick(self, st, f, ms=150):
        """True if pc |= f is shown quickly"""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f) and False:
            return False
        t0 = _time.time()
        s = z3.SolverFor("QF_UFLIA") if False else z3.Solver()
        s.set("timeout", ms)
        s.set("smt.mbqi", False)
        for p in st.pc:
            if not hasquant(p):
                s.add(p)
        for p in self.bg:
            if not hasquant(p):
                s.add(p)
        s.add(Not(f))
        r = s.check()
        self.quick_n += 1
        self.quick_t += _time.time() - t0
        return r == z3.unsat

    def quicknl(self, st, f, ms=600):
        """quick, for products and quotients: with the arithmetic lemmas"""
        t0 = _time.time()
        s = z3.SimpleSolver()
        s.set("timeout", ms)
        s.set("mbqi", False)
        for p in st.pc:
            if not hasquant(p):
                s.add(p)
        for p in self.bg:
            if not hasquant(p) or p.get_id() in self.arith_ids:
                s.add(p)
        s.add(Not(f))
        r = s.check()
        self.quick_n += 1
        self.quick_t += _time.time() - t0
        return r == z3.unsat

    def feasible(self, st, c):
        return not self.quick(st, Not(c))

    # ------------------------------------------------------------ loads and stores
    def addr_root(self, path, a):
        st = path.st
        if a.kind == "cell":
            return path.cells[a.a]
        if a.kind == "fld":
            name, ref = a.b
            return self.fld(st, a.a, name, a.ty if not a.path else self.fieldty(a.a, name), ref)
        if a.kind == "elem":
            return sel(self.elems(st, a.b[1], a.a), a.b[0])
        if a.kind == "ref":
            return sel(self.hget(st, ("C", a.b.key), z3.ArraySort(I, self.sort(a.b))), a.a)
        if a.kind == "glob":
            return self.hget(st, ("GL", a.a), self.sort(a.b))
        raise Unsupported("load " + a.kind)

    def fieldty(self, sty, name):
        for n, t in self.w.fields(sty):
            if n == name:
                return t
        raise KeyError(name)

    def rootty(self, path, a):
        if a.kind == "cell":
            return a.b
        if a.kind == "fld":
            return self.fieldty(a.a, a.b[0])
        if a.kind == "elem":
            return a.b[1]
        return a.b

    def load(self, path, a):
        if not isinstance(a, Addr):
            raise Unsupported("load through %r" % (a,))
        v = self.addr_root(path, a)
        t = self.rootty(path, a)
        for kind, i in a.path:
            if kind == "f":
                v = self.sget(t, i, v)
                t = self.w.fields(t)[i][1]
            else:
                v = sel(v, i)
                t = self.w.ty_(self.w.under(t).d["elem"])
        return v

    def immutable(self, sty, f):
        return (sty.d.get("name", sty.key) + "." + f) in self.immut

    def store(self, path, a, v):
        st = path.st
        if isinstance(v, (Addr, Clo)) and not (a.kind in ("cell",) and not a.path):
            v = self.term(v)
        if a.path:
            v = self.upd(self.addr_root(path, a), self.rootty(path, a), list(a.path), v)
        if a.kind == "cell":
            path.cells[a.a] = v
        elif a.kind == "fld":
            self.fldset(st, a.a, a.b[0], self.fieldty(a.a, a.b[0]), a.b[1], v)
        elif a.kind == "elem":
            idx, ety = a.b
            self.elemsset(st, ety, a.a, sto(self.elems(st, ety, a.a), idx, v))
        elif a.kind == "ref":
            key = ("C", a.b.key)
            arr = self.hget(st, key, z3.ArraySort(I, self.sort(a.b)))
            self.hset(st, key, sto(arr, a.a, v), a.a)
        elif a.kind == "glob":
            self.hget(st, ("GL", a.a), self.sort(a.b))
            self.hset(st, ("GL", a.a), v, None)
        else:
            raise Unsupported("store " + a.kind)

    def upd(self, root, t, path, v):
        kind, i = path[0]
        if kind == "f":
            ft = self.w.fields(t)[i][1]
            cur = self.sget(t, i, root)
            return self.supd(t, i, root, v if len(path) == 1 else self.upd(cur, ft, path[1:], v))
        et = self.w.ty_(self.w.under(t).d["elem"])
        return sto(root, i, v if len(path) == 1 else self.upd(sel(root, i), et, path[1:], v))

    def loadstruct(self, st, t, ref):
        """whole struct value behind a pointer"""
        vs = []
        for n, ft in self.w.fields(t):
            if self.hstruct(ft):
                vs.append(self.loadstruct(st, ft, self.faddr(t, n, ref)))
            else:
                vs.append(self.fld(st, t, n, ft, ref))
        return self.smk(t, vs)

    def storestruct(self, st, t, ref, v):
        for i, (n, ft) in enumerate(self.w.fields(t)):
            fv = self.sget(t, i, v)
            if self.hstruct(ft):
                self.storestruct(st, ft, self.faddr(t, n, ref), fv)
            else:
                self.fldset(st, t, n, ft, ref, fv)

    def term(self, v):
        """first-class term of a value"""
        if isinstance(v, Clo):
            return v.term
        if isinstance(v, Addr):
            if v.kind == "fld" and not v.path:
                return self.faddr(v.a, v.b[0], v.b[1])
            if v.kind == "ref" and not v.path:
                return v.a
            if v.kind == "arr":
                return v.a
            if v.kind == "glob" and not v.path:
                c = z3.Const("gaddr_" + v.a, I)
                self.bgadd(c < 0)
                return c
            raise Unsupported("address of %s used as a value" % v.kind)
        if isinstance(v, tuple):
            raise Unsupported("tuple as value")
        if isinstance(v, Iter):
            raise Unsupported("iterator as value")
        return v

    # ------------------------------------------------------------ natural loops
    _loopcache = {}

    def natural_loops(self, f):
        if f["name"] in self._loopcache:
            return self._loopcache[f["name"]]
        bl = {b["i"]: b for b in f["blocks"]}

        def dom(a, b):
            while b is not None and b != -1:
                if a == b:
                    return True
                nb = bl[b].get("idom")
                if nb == b:
                    break
                b = nb
            return False
        loops = {}
        for b in f["blocks"]:
            for s in b["succ"]:
                if dom(s, b["i"]):
                    body = loops.setdefault(s, {s})
                    stack = [b["i"]]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(bl[x]["pred"])
        # reachability-irreducible check is not needed for Go's structured control flow plus backward goto
        order = sorted(loops, key=lambda h: self.loopkey(bl, loops[h], h))
        res = {h: {"body": loops[h], "ord": order.index(h)} for h in loops}
        self._loopcache[f["name"]] = res
        return res

    def loopkey(self, bl, body, h):
        best = None
        for b in body:
            for i in bl[b]["ins"]:
                p = i.get("pos") or ""
                if ":" in p:
                    n = int(p.rsplit(":", 1)[1])
                    if best is None or n < best:
                        best = n
        return (best or 0, -len(body), h)


_hq = {}


def hasquant(t):
    k = t.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    stack, seen, res = [t], set(), False
    while stack:
        x = stack.pop()
        if z3.is_quantifier(x):
            res = True
            break
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
    _hq[k] = (t, res)
    return res


def irange(ii):
    signed, n = ii
    if signed:
        return -(1 << (n - 1)), (1 << (n - 1)) - 1
    return 0, (1 << n) - 1


def consts_of(t, acc=None):
    stack, seen, out = [t], set(), set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out
